// Oracle for Gaussian samplers: replaces the standard normal draws the library asks for.
#ifndef VERIF_GSAMPLE_H
#define VERIF_GSAMPLE_H
#include "common.h"
namespace V {
// exactly singular covariance with integer entries: S = L L', L integer with some zero columns
inline Mat rsing(Rng &g, int n) {
  Mat L(n, n); int zc = g.range(1, n);
  for (int j = 0; j < n; j++) for (int i = j; i < n; i++) L(i, j) = i == j ? g.range(1, 3) : g.range(-2, 2);
  for (int k = 0; k < zc; k++) { int j = g.below(n); for (int i = 0; i < n; i++) L(i, j) = 0; }
  return L * T(L);
}
// a point near or far from the mean: up to densities close to the smallest a double can hold
inline Vec outlier(Rng &g, const Vec &mu, const Mat &S) {
  Vec z = mu; double r = g.pick(std::vector<double>{0, 1, 4}); for (auto &v : z) v = (double)(v + g.uni(-r, r));
  if (g.flip(0.15)) { Vec d = rvec(g, mu.size(), -1, 1); ld e = dot(d, inv(S) * d), want = g.uni(0, 1280); if (e > 0) for (size_t i = 0; i < z.size(); i++) z[i] = (double)(mu[i] + d[i] * sqrtl(want / e)); }
  return z;
}
inline void gaussian_sampler(const std::string &key, Rng &g, const Vec &mu, const Mat &S, bool singular, std::function<bool(Vec &)> one, std::function<bool(std::vector<Vec> &, int)> many) {
  int n = mu.size(); Vec x; ld mS = maxabs(S), mM = maxabs(mu), sc = mS + 1e-6L * mM * (sqrtl(mS) + 1e-8L * mM);
  Draws saved = D();
  // half of the time the list is drawn first, before any single sample
  bool first = g.flip(); int k = g.flip(0.05) ? g.range(50, 300) : g.range(1, 5); std::vector<Vec> xs; std::vector<double> xd; long xn = 0;
  auto list = [&]() { D().reset(Draws::CASE, g.next()); D().record = true; xs.clear(); check(many(xs, k), key + ":sample-list-returned-false"); check((int)xs.size() == k, key + ":number-of-samples", fmt("%zu instead of %d", xs.size(), k)); for (auto &v : xs) check((int)v.size() == n, key + ":sample-size"); xd = D().seen_n; xn = D().nn; D().record = false; };
  if (first) list();
  D().reset(Draws::CASE, g.next());
  D().script(std::vector<double>(), std::vector<double>(n, 0.0));
  check(one(x), key + ":sample-returned-false");
  bool affine = D().nn == n && D().nu == 0;
  check((int)x.size() == n, key + ":sample-size");
  if (affine) {
    near(key + ":sample-mean", x, mu, mM + sqrtl(mS), 1e-10L);
    Mat L(n, n);
    for (int j = 0; j < n; j++) {
      std::vector<double> e(n, 0.0); e[j] = 1; D().script(std::vector<double>(), e); check(one(x), key + ":sample-returned-false");
      for (int i = 0; i < n; i++) L(i, j) = x[i] - mu[i];
    }
    near(key + ":sample-covariance", L * T(L), S, sc, 1e-9L);
    ev("sampler_square_roots");
    if (!first) list();
    if (xn == (long)k * n && !singular) {
      Mat Li = inv(L); std::vector<double> a = xd, b; ld kap = 1 + maxabs(Li) * (sqrtl(mS) + 1e-4L * mM);
      for (auto &v : xs) { Vec w = Li * (v - mu); for (ld q : w) b.push_back((double)q); }
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      for (size_t i = 0; i < a.size(); i++) check(std::fabs(a[i] - b[i]) < 1e-9 * (double)kap * n, key + ":samples-not-independent", fmt("whitened value %.17g instead of the draw %.17g", b[i], a[i]));
      ev("sampler_lists");
    }
  } else {   // another way to use the draws: compare moments
    int N = 4000; D().reset(Draws::CASE, g.next()); std::vector<Vec> xs; check(many(xs, N), key + ":sample-list-returned-false");
    Vec m(n, 0.0L); for (auto &v : xs) m = m + v; m = m * (1.0L / N); Mat C(n, n); for (auto &v : xs) { Vec d = v - m; C = C + outer(d, d); } C = C * (1.0L / N);
    for (int i = 0; i < n; i++) { check(fabsl(m[i] - mu[i]) <= 10 * sqrtl(S(i, i) / N) + 1e-9L * (mM + sqrtl(mS)), key + ":sample-mean"); for (int j = 0; j < n; j++) check(fabsl(C(i, j) - S(i, j)) <= 12 * sqrtl((S(i, i) * S(j, j) + S(i, j) * S(i, j)) / N) + 1e-9L * sc, key + ":sample-covariance"); }
    ev("sampler_moments");
  }
  D() = saved;
}
}
#endif
