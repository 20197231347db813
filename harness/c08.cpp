// C08: mixtures through histories of adding, deleting and re-weighting components.
#include "common.h"
#include <pdf/mixture.h>
#include <pdf/gaussian.h>
#include <pdf/discretepdf.h>
using namespace V; using namespace BFL; using MatrixWrapper::ColumnVector;

const char *H::rule =
  "A case is a history of 3-30 operations on mixtures of Gaussians (dimension 1-3) or of discrete distributions: construct from a vector or empty, add with and without weight, delete, set one weight (0, 1, tiny), set all weights (unnormalised, all-zero), "
  "copy, clone, assign, and edit or destroy the original components (the mixture must own copies). After every operation the weights, their sum, the most probable component, the density at random points "
  "and the expected value are compared with a long-double model. Non-trivial: at some moment at least two components with different weights. "
  "Distinct: hash of the reference weights and densities.";
long H::ncases(bool t) { return t ? 60000 : 4000; }

struct Comp { Vec mu; Mat S; Vec p; };
struct Model { std::vector<Comp> c; Vec w; };

template <class T> struct K;
template <> struct K<ColumnVector> {
  int d; Pdf<ColumnVector> *make(Rng &g, Comp &c) { c.mu = rd(rvec(g, d)); c.S = rspd(g, d, 0.2, 5); return new Gaussian(cv(c.mu), sm(c.S)); }
  void spoil(Rng &g, Pdf<ColumnVector> *p) { static_cast<Gaussian *>(p)->ExpectedValueSet(cv(rvec(g, d, 100, 200))); }
  ld dens(const Comp &c, const ColumnVector &x) { return gaussdens(fv(x), c.mu, c.S); }
  ColumnVector pt(Rng &g, const Model &m) { Vec v = m.c[g.below(m.c.size())].mu; for (auto &x : v) x = (double)(x + g.uni(-2, 2)); return cv(v); }
  void mean(Mixture<ColumnVector> &m, const Model &M, const std::string &k) { Vec e(d, 0.0L); ld sc = 0; for (size_t i = 0; i < M.c.size(); i++) { e = e + M.c[i].mu * M.w[i]; sc = std::max(sc, maxabs(M.c[i].mu)); } near(k + ":expected-value", fv(m.ExpectedValueGet()), e, sc, 1e-10L); }
};
template <> struct K<int> {
  int d; Pdf<int> *make(Rng &g, Comp &c) { DiscretePdf *p = new DiscretePdf(d); std::vector<Probability> v(d); c.p = Vec(d); for (int i = 0; i < d; i++) { double x = g.flip(0.2) ? 0 : g.u01() + 0.01; v[i] = x; } v[g.below(d)] = 0.5; p->ProbabilitiesSet(v); for (int i = 0; i < d; i++) c.p[i] = (double)p->ProbabilityGet(i); return p; }
  void spoil(Rng &g, Pdf<int> *p) { if (d > 1) static_cast<DiscretePdf *>(p)->ProbabilitySet(g.below(d), g.u01()); }
  ld dens(const Comp &c, const int &x) { return c.p[x]; }
  int pt(Rng &g, const Model &) { return g.below(d); }
  void mean(Mixture<int> &m, const Model &M, const std::string &k) { Vec e(d, 0.0L); for (size_t i = 0; i < M.c.size(); i++) e = e + M.c[i].p * M.w[i]; ld mx = *std::max_element(e.begin(), e.end()); int x = m.ExpectedValueGet(); check(x >= 0 && x < d && e[x] >= mx * (1 - 1e-9L), k + ":expected-value", fmt("state %d is not the most probable one", x)); }
};

template <class T> void compare(K<T> &k, Rng &g, Mixture<T> &m, const Model &M, const char *what) {
  std::string key = what; size_t n = M.c.size();
  check(m.NumComponentsGet() == n, key + ":number-of-components", fmt("%u instead of %zu", m.NumComponentsGet(), n));
  if (n == 0) return;
  std::vector<Probability> w = m.WeightsGet(); std::vector<Pdf<T> *> cs = m.ComponentsGet();
  check(w.size() == n && cs.size() == n, key + ":list-sizes");
  ld s = 0; size_t best = 0;
  for (size_t i = 0; i < n; i++) { near(key + ":weight", w[i].getValue(), M.w[i], 1e-290L, 1e-9L); check((double)m.WeightGet(i) == w[i].getValue(), key + ":single-weight"); s += w[i].getValue(); if (w[i].getValue() > w[best].getValue()) best = i; check(m.ComponentGet(i) == cs[i], key + ":component-pointer"); }
  near(key + ":weights-sum", s, 1, 1, 1e-9L);
  check(m.MostProbableComponentGet() == (int)best, key + ":most-probable", fmt("%d instead of %zu", m.MostProbableComponentGet(), best));
  for (int t = 0; t < 2; t++) { T x = k.pt(g, M); ld p = 0; for (size_t i = 0; i < n; i++) p += M.w[i] * k.dens(M.c[i], x); near(key + ":density", (double)m.ProbabilityGet(x), p, 1e-13L, 1e-8L); }
  size_t i = g.below(n); T x = k.pt(g, M); near(key + ":component-density", (double)cs[i]->ProbabilityGet(x), k.dens(M.c[i], x), 1e-200L, 1e-8L);
  k.mean(m, M, key);
}

template <class T> void go(Ctx &c, int d) {
  Rng &g = c.g; K<T> k; k.d = d; std::vector<std::unique_ptr<Mixture<T>>> P; std::vector<Model> M; c.note(fmt("dimension/states=%d", d));
  if (g.flip()) { P.emplace_back(new Mixture<T>((unsigned int)d)); M.push_back(Model()); }
  else {
    int n = g.flip(0.03) ? g.range(20, 60) : g.range(1, 5); std::vector<Pdf<T> *> v; Model m; for (int i = 0; i < n; i++) { Comp q; v.push_back(k.make(g, q)); m.c.push_back(q); m.w.push_back(1.0L / n); }
    P.emplace_back(new Mixture<T>(v)); M.push_back(m); for (auto *p : v) { k.spoil(g, p); delete p; }
    check(P[0]->DimensionGet() == v.size() * 0 + (std::is_same<T, int>::value ? 1u : (unsigned)d), "dimension");
    c.note(fmt("constructed from %d components", n));
  }
  int ops = g.range(3, 30);
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()); Mixture<T> &m = *P[i]; Model &q = M[i]; int n = q.c.size(); int w = n == 0 ? 0 : g.below(12); bool ok = true;
    if (w <= 2) {
      Comp cc; std::unique_ptr<Pdf<T>> p(k.make(g, cc));
      if (g.flip()) { ok = m.AddComponent(*p); q.w.push_back(n ? 0.0L : 1.0L); c.note("add"); }
      else { double a = g.pick(std::vector<double>{0, 1, 1e-6, std::pow(10.0, -g.uni(7, 100)), g.u01(), g.u01()}); ok = m.AddComponent(*p, a); c.note(fmt("add weight %.17g", a));
        if (n == 0) a = 1; else { ld oth = 0; for (ld x : q.w) oth += x; for (auto &x : q.w) x = oth > 0 ? x / oth * (1 - (ld)a) : (1 - (ld)a) / n; } q.w.push_back(a); }
      q.c.push_back(cc); k.spoil(g, p.get()); ev("op_add");
    } else if (w <= 4) {
      int j = g.below(n); ld rest = 0; for (int t = 0; t < n; t++) if (t != j) rest += q.w[t];
      if (n == 1 || rest > 0) { ok = m.DeleteComponent(j); q.c.erase(q.c.begin() + j); q.w.erase(q.w.begin() + j); for (auto &x : q.w) x /= rest; c.note(fmt("delete %d", j)); ev("op_delete"); }
    } else if (w <= 6) {
      int j = g.below(n); double a = n == 1 ? 1 : g.pick(std::vector<double>{0, 1, 1e-9, std::pow(10.0, -g.uni(7, 100)), 1 - 1e-9, 1 - std::pow(10.0, -g.uni(7, 15)), g.u01()}); ok = m.WeightSet(j, a); c.note(fmt("weight %d=%.17g", j, a));
      ld oth = 0; for (int t = 0; t < n; t++) if (t != j) oth += q.w[t];
      for (int t = 0; t < n; t++) if (t != j) q.w[t] = oth > 0 ? q.w[t] / oth * (1 - (ld)a) : (1 - (ld)a) / (n - 1);
      q.w[j] = a; ev("op_weight");
    } else if (w <= 8) {
      std::vector<Probability> v(n); ld s = 0; bool zero = g.flip(0.1), wide = g.flip(0.2), close = !zero && g.flip(0.2); int ca = g.below(n), cb = g.below(n); Vec wv(n); for (int t = 0; t < n; t++) { double x = zero || g.flip(0.2) ? 0 : wide ? std::pow(10.0, g.uni(-100, 20)) : g.uni(0, 4); if (close) x = (double)q.w[t == ca ? cb : t == cb ? ca : t]; if (!zero && t == n - 1 && s == 0) x = 2; v[t] = x; wv[t] = x; s += x; }
      ok = m.WeightsSet(v); c.note("weights " + str(wv));
      if (s == 0) { check(!ok, "all-zero-weights-accepted"); ok = true; std::vector<Probability> u(n, Probability(1.0)); check(m.WeightsSet(u), "recover"); for (auto &x : q.w) x = 1.0L / n; ev("op_all_zero"); }
      else for (int t = 0; t < n; t++) q.w[t] = wv[t] / s;
      ev("op_weights");
    } else if (w == 9 && P.size() < 4) { if (g.flip()) P.emplace_back(new Mixture<T>(m)); else P.emplace_back(m.Clone()); M.push_back(Model(M[i])); c.note("copy"); ev("op_copy"); }
    else if (w == 10 && P.size() < 4) { P.emplace_back(new Mixture<T>((unsigned int)d)); M.push_back(Model()); *P.back() = *P[i]; M.back() = Model(M[i]); c.note("assign to empty"); ev("op_assign"); }
    else if (P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; M[i] = Model(M[j]); c.note("assign"); ev("op_assign"); }
    check(ok, "operation-returned-false");
    for (size_t t = 0; t < P.size(); t++) { compare(k, g, *P[t], M[t], t == (size_t)i ? "edited" : "untouched"); if (M[t].c.size()) { std::vector<Probability> v = P[t]->WeightsGet(); for (size_t a = 0; a < v.size(); a++) M[t].w[a] = v[a].getValue(); } }
    if (M[i].w.size() > 1 && M[i].w[0] != M[i].w[1]) c.nontrivial = true;
  }
}
void H::run(Ctx &c) { if (c.g.flip(0.6)) go<ColumnVector>(c, c.g.range(1, 3)); else go<int>(c, c.g.range(1, 8)); }
