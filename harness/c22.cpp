// C22: the random number generators.
#include "common.h"
using namespace V;
const char *H::rule =
  "A case makes 20000 calls of runif(), runif(min,max) and rnorm(mean,deviation) of the real generator, one of them alone or all interleaved in random order, with parameters fixed for the case or different in every call (bounds and means of either sign from 1e-6 to 1e6, narrow and wide intervals, zero deviation). Every number must lie in its range (half open), a zero deviation must return the mean exactly; "
  "the numbers, transformed to [0,1) by the distribution function, are tested per generator and over all calls in order for uniformity (chi-square, 64 cells), first two moments, extreme values, repetitions, serial dependence (10x10 cells, lags 1 and 2; correlation and correlation of squares up to lag 8) and, for the normal, the tails. All bounds are at 8 standard deviations or beyond (below 1e-14 each). Non-trivial: at least 1000 numbers of one kind. Distinct: hash of the numbers.";
long H::ncases(bool t) { return t ? 4000 : 300; }

static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static void uniformity(const std::string &k, const std::vector<double> &u) {
  size_t n = u.size(); if (n < 1000) return; ev("statistical_tests", 20);
  std::vector<long> o(64); for (double x : u) o[std::min(63, (int)(x * 64))]++; check(!incredible(o, std::vector<double>(64, 1 / 64.0)), k + ":not-uniform");
  double m = 0, v = 0, mn = 1, mx = 0; for (double x : u) { m += x - 0.5; v += (x - 0.5) * (x - 0.5) - 1 / 12.0; mn = std::min(mn, x); mx = std::max(mx, x); }
  check(std::fabs(m) / std::sqrt(n / 12.0) < 8, k + ":mean"); check(std::fabs(v) / std::sqrt(n / 180.0) < 8, k + ":variance"); double e = 34.0 / n; check(mn < e && mx > 1 - e, k + ":extremes-never-reached", fmt("[%g,%g]", mn, mx));
  for (int lag = 1; lag <= 2; lag++) { std::vector<long> q(100); for (size_t i = 0; i + lag < n; i += lag + 1) q[std::min(9, (int)(u[i] * 10)) * 10 + std::min(9, (int)(u[i + lag] * 10))]++; check(!incredible(q, std::vector<double>(100, 0.01)), k + ":serially-dependent"); }
  for (int lag = 1; lag <= 8; lag++) { double c = 0, s = 0; for (size_t i = 0; i + lag < n; i++) { double a = u[i] - 0.5, b = u[i + lag] - 0.5; c += a * b; s += (a * a - 1 / 12.0) * (b * b - 1 / 12.0); } check(std::fabs(c) / (std::sqrt((double)n) / 12) < 8, k + ":serially-correlated", fmt("lag %d", lag)); check(std::fabs(s) / (std::sqrt((double)n) / 180) < 8, k + ":squares-correlated", fmt("lag %d", lag)); }
  std::vector<double> w(u); std::sort(w.begin(), w.end()); long dup = 0; for (size_t i = 1; i < n; i++) dup += w[i] == w[i - 1]; check(dup < 30, k + ":repeated-values", fmt("%ld of %zu", dup, n));
}
void H::run(Ctx &c) {
  Rng &g = c.g; D().reset(Draws::REAL, 1); int kind = c.id % 5, N = 20000; bool vary = g.flip(); std::vector<double> all, uu, um, un, z; long zeros = 0;
  double lo = 0, hi = 1, mu = 0, sd = 1; auto params = [&]() { double s = std::pow(10, g.uni(-6, 6)); lo = (g.flip() ? 1 : -1) * s * g.u01(); hi = lo + (g.flip() ? s * g.uni(0.1, 2) : std::pow(10, g.uni(-2, 6))); if (g.flip(0.2)) { lo = -3; hi = g.range(-2, 4); } if (g.flip(0.1)) { lo = 0; hi = 1; } mu = (g.flip() ? 1 : -1) * std::pow(10, g.uni(-3, 3)); sd = std::pow(10, g.uni(-3, 3)); if (g.flip(0.1)) mu = 0; if (g.flip(0.1)) sd = 1; };
  params(); double phase = g.u01(); int p1 = g.range(1, 3), p2 = g.range(1, 3); c.note(fmt("kind %d%s lo %g hi %g mean %g deviation %g", kind, vary ? " varying" : "", lo, hi, mu, sd));
  for (int i = 0; i < N; i++) {
    if (vary) params(); int w = kind < 3 ? kind : kind == 3 ? (int)g.below(3) : (i / p1 + i / p2) % 3;
    if (w == 0) { double x = BFL::runif(); check(x >= 0 && x < 1, "uniform:out-of-range", str(x)); uu.push_back(x); all.push_back(x); }
    else if (w == 1) { double x = BFL::runif(lo, hi); check(x >= lo && x < hi, "uniform-interval:out-of-range", str(x) + fmt(" of [%.17g,%.17g)", lo, hi)); double f = (x - lo) / (hi - lo); f = std::min(f, 1 - 1e-12); if (hi - lo > 1e-7 * std::max(std::fabs(lo), std::fabs(hi))) { um.push_back(f); all.push_back(f); } }
    else { if (g.below(200) == 0) { check(BFL::rnorm(mu, 0.0) == mu, "normal:zero-deviation"); zeros++; continue; } double x = BFL::rnorm(mu, sd); check(std::isfinite(x), "normal:not-finite"); if (sd < 1e-6 * std::fabs(mu)) continue; double y = (x - mu) / sd; check(std::fabs(y) < 10, "normal:impossible-value", str(y)); z.push_back(y); double f = std::min(Phi(y), 1 - 1e-12); un.push_back(f); all.push_back(f); }
  }
  uniformity("uniform", uu); uniformity("uniform-interval", um); uniformity("normal", un); uniformity("all-calls", all);
  if (z.size() > 1000) { double n = z.size(), m = 0, v = 0, s = 0, k = 0, mx = 0, mn = 0; long tail = 0; for (double y : z) { m += y; v += y * y - 1; s += y * y * y; k += y * y * y * y - 3; mx = std::max(mx, y); mn = std::min(mn, y); tail += std::fabs(y) > 2.5; } check(std::fabs(m) / std::sqrt(n) < 8, "normal:mean"); check(std::fabs(v) / std::sqrt(2 * n) < 8, "normal:variance"); check(std::fabs(s) / std::sqrt(15 * n) < 9, "normal:skewness"); check(std::fabs(k) / std::sqrt(96 * n) < 12, "normal:kurtosis"); double e = n * 0.012419330651552318; check(std::fabs(tail - e) / std::sqrt(e) < 8, "normal:tails"); check(mx > 2.2 && mn < -2.2, "normal:tails-never-reached"); }
  for (size_t i = 0; i < all.size(); i += 97) c.h = mixd(c.h, all[i]); c.nontrivial = uu.size() > 1000 || um.size() > 1000 || un.size() > 1000; ev("uniform_draws", uu.size()); ev("interval_draws", um.size()); ev("normal_draws", un.size()); ev("zero_deviation", zeros);
}
