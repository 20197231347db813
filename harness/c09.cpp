// C09: Gaussian and uniform densities and their samplers follow the current parameters.
#include "common.h"
#include "gsample.h"
#include <pdf/gaussian.h>
#include <pdf/uniform.h>
using namespace V; using namespace BFL; using MatrixWrapper::ColumnVector;

const char *H::rule =
  "A case is a history of 4-25 operations on Gaussian or uniform distributions of dimension 1-8: three ways of construction (including default construction followed by setting the parameters), changes of mean, covariance, box, "
  "interleaved with density queries (so that a stale cached inverse would show), copies, clones and assignments, singular covariances for sampling. Every density is compared with a long-double evaluation at random, central and "
  "far points; the sampler is observed by replacing the library's normal (uniform) draws: zero draws must give the mean, unit vectors recover a square root L of the covariance with L L' = covariance, and "
  "in lists every sample must consume fresh draws. Non-trivial: at least one density or sample checked after a parameter change. Distinct: hash of the reference values.";
long H::ncases(bool t) { return t ? 60000 : 4000; }

struct GM { Vec mu; Mat S; bool singular; };
static void density(Gaussian &x, GM &m, Rng &g) {
  if (m.singular) return;
  int n = m.mu.size(), k = n > 200 ? 1 : g.range(1, 3);
  for (int i = 0; i < k; i++) {
    Vec p = m.mu; double r = g.pick(std::vector<double>{0, 0.5, 2, 6});
    for (int a = 0; a < n; a++) p[a] = (double)(p[a] + g.uni(-r, r) * (r <= 2 ? sqrtl(m.S(a, a)) : 1));
    ld w = gaussdens(p, m.mu, m.S), kap = maxabs(m.S) * maxabs(inv(m.S)) * n;
    Vec d = p - m.mu; ld e = dot(d, inv(m.S) * d);
    bool dbl = fabsl(log10l(det(m.S))) < 280 && e < 1300; if (!dbl) { ev("exponential_or_determinant_out_of_range"); continue; } near("gaussian:density", (double)x.ProbabilityGet(cv(p)), w, 1e-280L, 1e-12L * (1 + e) * std::max<ld>(100, kap));
    ev("gaussian_densities");
  }
}
static void gauss(Ctx &c) {
  Rng &g = c.g; const bool huge = false; int n = huge ? g.range(256, 270) : g.flip(0.04) ? g.range(9, 24) : g.range(1, 8); double gs = !huge && g.flip(0.3) ? std::pow(10.0, g.range(-5, 4)) : 1.0, ms = g.flip(0.15) ? std::pow(10.0, g.range(-6, 6)) : 1.0;
  auto rnd = [&](bool sing) { GM m; m.mu = rd(rvec(g, n, -10, 10) * ms); m.singular = sing; m.S = huge ? rspd(g, n, 0.6, 1.6) : sing ? rsing(g, n) : rspd(g, n, g.pick(std::vector<double>{1e-4, 0.05, 0.5}), g.pick(std::vector<double>{0.6, 10, 1000}));
    if (!sing && g.flip(0.2)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) m.S(i, j) = 0; if (!sing) m.S = rd(m.S * ((ld)gs * gs)); return m; };
  std::vector<std::unique_ptr<Gaussian>> P; std::vector<GM> M;
  auto make = [&]() {
    GM m = rnd(!huge && g.flip(0.1));
    switch (g.below(3)) {
      case 0: P.emplace_back(new Gaussian(cv(m.mu), sm(m.S))); break;
      case 1: P.emplace_back(new Gaussian(n)); P.back()->ExpectedValueSet(cv(m.mu)); P.back()->CovarianceSet(sm(m.S)); break;
      default: P.emplace_back(new Gaussian()); if (g.flip()) { P.back()->CovarianceSet(sm(m.S)); P.back()->ExpectedValueSet(cv(m.mu)); } else { P.back()->ExpectedValueSet(cv(m.mu)); P.back()->CovarianceSet(sm(m.S)); } ev("default_constructed");
    }
    M.push_back(m); c.note("gaussian mu=" + str(m.mu) + " S=" + str(m.S));
  };
  make(); if (huge) ev("dimension_above_255");
  int ops = huge ? 2 : g.range(4, 25);
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()); int w = g.below(10);
    if (w == 0) { M[i].mu = g.flip() ? nudge(g, M[i].mu) : rd(rvec(g, n, -10, 10) * ms); P[i]->ExpectedValueSet(cv(M[i].mu)); c.note("set mean"); c.nontrivial = true; }
    else if (w <= 2) { GM m = rnd(!huge && g.flip(0.1)); if (g.flip() && !M[i].singular) { m = M[i]; m.S = nudgespd(g, m.S); } M[i].S = m.S; M[i].singular = m.singular; P[i]->CovarianceSet(sm(m.S)); c.note("set covariance " + str(m.S)); c.nontrivial = true; }
    else if (w == 3 && P.size() < 4) { GM m = M[i]; if (g.flip()) P.emplace_back(new Gaussian(*P[i])); else P.emplace_back(P[i]->Clone()); M.push_back(m); c.note("copy"); }
    else if (w == 4 && P.size() < 4) make();
    else if (w == 5 && P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; GM m = M[j]; M[i] = m; c.note("assign"); }
    else if (w <= 7) {
      SampleMthd me = g.flip() ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY;
      gaussian_sampler("gaussian", g, M[i].mu, M[i].S, M[i].singular,
        [&](Vec &out) { Sample<ColumnVector> s; if (g.flip()) s = Sample<ColumnVector>(n); bool ok = P[i]->SampleFrom(s, me, NULL); out = fv(s.ValueGet()); return ok; },
        [&](std::vector<Vec> &out, int k) { std::vector<Sample<ColumnVector>> l(g.range(0, 3)); bool ok = P[i]->SampleFrom(l, (unsigned)k, me, NULL); for (auto &s : l) out.push_back(fv(s.ValueGet())); return ok; });
      ev("gaussian_samplers");
    }
    for (size_t j = 0; j < P.size(); j++) if (j == (size_t)i || g.flip(0.3)) {
      density(*P[j], M[j], g);
      same("gaussian:mean", fv(P[j]->ExpectedValueGet()), M[j].mu); same("gaussian:covariance", fm(P[j]->CovarianceGet()), M[j].S);
      check(P[j]->DimensionGet() == (unsigned)n, "gaussian:dimension");
    }
  }
}
static void large(Ctx &c) {   // more than 255 dimensions, independent coordinates
  Rng &g = c.g; int n = g.range(256, 300); Vec mu = rd(rvec(g, n, -10, 10)); Mat S(n, n); for (int i = 0; i < n; i++) S(i, i) = g.uni(0.1, 4); Gaussian x(cv(mu), sm(S)); check(x.DimensionGet() == (unsigned)n, "gaussian:dimension"); same("gaussian:mean", fv(x.ExpectedValueGet()), mu); same("gaussian:covariance", fm(x.CovarianceGet()), S);
  D().reset(Draws::CASE, g.next()); D().record = true; Sample<ColumnVector> s; check(x.SampleFrom(s, SampleMthd::CHOLESKY, NULL), "gaussian:sample-returned-false"); std::vector<double> e = D().seen_n; D().record = false; Vec v = fv(s.ValueGet()); check((int)v.size() == n, "gaussian:sample-size");
  if ((int)e.size() == n) { std::vector<double> b; for (int i = 0; i < n; i++) b.push_back((double)((v[i] - mu[i]) / sqrtl(S(i, i)))); std::sort(b.begin(), b.end()); std::sort(e.begin(), e.end()); for (int i = 0; i < n; i++) check(std::fabs(b[i] - e[i]) < 1e-9, "gaussian:sample-coordinates"); } ev("dimension_above_255"); c.nontrivial = true;
}
static void unif(Ctx &c) {
  Rng &g = c.g; bool huge = c.id % 1000 == 300; int n = huge ? g.range(256, 300) : g.flip(0.05) ? g.range(7, 15) : g.range(1, 6); double us = huge ? 1 : g.flip(0.2) ? std::pow(10.0, g.range(-5, 6)) : 1.0; struct B { Vec c, w; };
  auto rnd = [&]() { B b; b.c = rd(rvec(g, n, -10, 10)); b.w = Vec(n); for (auto &x : b.w) x = std::pow(10.0, g.uni(-2, 2)) * us; if (huge) { for (auto &x : b.w) x = std::pow(2.0, g.range(-1, 1)); } else if (g.flip(0.4)) { for (auto &x : b.c) x = g.range(-40, 40) / 4.0; for (auto &x : b.w) x = std::pow(2.0, g.range(-3, 4)); } return b; };
  std::vector<std::unique_ptr<Uniform>> P; std::vector<B> M;
  auto make = [&]() {
    B b = rnd();
    switch (g.below(3)) { case 0: P.emplace_back(new Uniform(cv(b.c), cv(b.w))); break; case 1: P.emplace_back(new Uniform(n)); P.back()->UniformSet(cv(b.c), cv(b.w)); break; default: P.emplace_back(new Uniform()); P.back()->UniformSet(cv(b.c), cv(b.w)); ev("default_constructed"); }
    M.push_back(b); c.note("uniform centre=" + str(b.c) + " width=" + str(b.w));
  };
  make(); if (huge) ev("dimension_above_255"); int ops = huge ? 3 : g.range(4, 20);
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()), w = g.below(8); 
    if (w <= 1) { if (g.flip()) { if (g.flip()) M[i].c = nudge(g, M[i].c); else { M[i].w = nudge(g, M[i].w); for (auto &x : M[i].w) x = fabsl(x); for (auto &x : M[i].w) if (x < 1e-3L) x = 1; } } else M[i] = rnd(); P[i]->UniformSet(cv(M[i].c), cv(M[i].w)); c.note("set box"); c.nontrivial = true; }
    else if (w == 2 && P.size() < 4) { B b = M[i]; if (g.flip()) P.emplace_back(new Uniform(*P[i])); else P.emplace_back(P[i]->Clone()); M.push_back(b); c.note("copy"); }
    else if (w == 3 && P.size() < 4) make();
    else if (w == 4 && P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; B b = M[j]; M[i] = b; c.note("assign"); }
    for (size_t j = 0; j < P.size(); j++) {
      Uniform &u = *P[j]; B &b = M[j]; ld sc = 0, h = 1; for (int k = 0; k < n; k++) { sc = std::max(sc, fabsl(b.c[k]) + b.w[k]); h /= b.w[k]; }
      check(u.DimensionGet() == (unsigned)n, "uniform:dimension");
      near("uniform:centre", fv(u.CenterGet()), b.c, sc, 1e-13L); near("uniform:width", fv(u.WidthGet()), b.w, sc, 1e-13L);
      Vec x(n); bool in = true; int out = g.flip() ? g.below(n) : -1;
      for (int k = 0; k < n; k++) { double f = g.uni(-0.499, 0.499); if (k == out) { f = (g.flip() ? 1 : -1) * g.uni(0.5001, 3); in = false; } x[k] = (double)(b.c[k] + f * b.w[k]); }
      near("uniform:density", (double)u.ProbabilityGet(cv(x)), in ? h : 0, 0, 1e-12L); ev("uniform_densities");
      bool dy = true; for (int k = 0; k < n; k++) if (b.c[k] * 4 != roundl(b.c[k] * 4) || b.w[k] * 8 != roundl(b.w[k] * 8)) dy = false;
      if (dy) {   // bounds that are exact in double: the box is closed, the next number outside is outside
        for (int k = 0; k < n; k++) x[k] = b.c[k] + (ld)(g.flip(0.3) ? 0 : g.flip() ? 0.5 : -0.5) * b.w[k];
        near("uniform:density-on-the-boundary", (double)u.ProbabilityGet(cv(x)), h, 0, 1e-12L); ev("uniform_boundary_points");
        int k = g.below(n); bool up = g.flip(); double e = (double)(b.c[k] + (up ? 0.5L : -0.5L) * b.w[k]); x[k] = std::nextafter(e, up ? 1e300 : -1e300); near("uniform:density-just-outside", (double)u.ProbabilityGet(cv(x)), 0, 0, 0);
      }
    }
    if (w >= 5) {
      Uniform &u = *P[i]; B &b = M[i]; int k = g.range(1, 6); bool list = g.flip(); D().reset(Draws::CASE, g.next()); D().hostile = g.pick(std::vector<double>{0, 0, 0.5}); D().record = true;
      std::vector<Vec> xs;
      if (list) { std::vector<Sample<ColumnVector>> l(g.range(0, 3)); check(u.SampleFrom(l, (unsigned)k, SampleMthd::DEFAULT, NULL), "uniform:sample-returned-false"); check((int)l.size() == k, "uniform:number-of-samples"); for (auto &s : l) xs.push_back(fv(s.ValueGet())); }
      else for (int q = 0; q < k; q++) { Sample<ColumnVector> s; check(u.SampleFrom(s, SampleMthd::DEFAULT, NULL), "uniform:sample-returned-false"); xs.push_back(fv(s.ValueGet())); }
      std::vector<double> seen = D().seen_u, back; ld worst = 0; for (int q = 0; q < n; q++) worst = std::max(worst, fabsl(b.c[q]) / b.w[q]); bool enough = (long)seen.size() == (long)k * n; D().record = false;
      for (auto &x : xs) {
        check(x.size() == (size_t)n, "uniform:sample-size");
        for (int q = 0; q < n; q++) { ld lo = b.c[q] - b.w[q] / 2, tol = 1e-13L * (fabsl(b.c[q]) + b.w[q]); check(x[q] >= lo - tol && x[q] <= lo + b.w[q] + tol, "uniform:sample-outside-box", str(x)); back.push_back((double)((x[q] - lo) / b.w[q])); }
        check((double)u.ProbabilityGet(cv(x)) > 0, "uniform:sample-has-zero-density", str(x));
      }
      if (enough) { std::sort(seen.begin(), seen.end()); std::sort(back.begin(), back.end()); for (size_t q = 0; q < seen.size(); q++) check(std::fabs(seen[q] - back[q]) < 1e-9 + 1e-15 * (double)worst, "uniform:sample-not-uniform-in-box", fmt("relative position %g instead of %g", back[q], seen[q])); ev("uniform_affine_samples"); }
    }
  }
  if (c.g.flip(0.05)) {   // frequencies, whatever the way the draws are used
    B b = rnd(); Uniform u(cv(b.c), cv(b.w)); D().reset(Draws::CASE, g.next()); std::vector<Sample<ColumnVector>> l; u.SampleFrom(l, 4000u, SampleMthd::DEFAULT, NULL);
    for (int k = 0; k < n; k++) { std::vector<long> cnt(10, 0); for (auto &s : l) { int q = (int)(((ld)s.ValueGet()(k + 1) - (b.c[k] - b.w[k] / 2)) / b.w[k] * 10); cnt[std::min(9, std::max(0, q))]++; } check(!incredible(cnt, std::vector<double>(10, 0.1)), "uniform:frequency"); ev("chi_square_tests"); }
  }
}
void H::run(Ctx &c) { if (c.id % 1500 == 700) return large(c); bool k = c.g.flip(0.65); if ((k && c.id % 1000 != 300)) gauss(c); else unif(c); }
