// C07: weighted sample sets (Monte Carlo pdfs) keep normalised weights and report weighted moments.
#include "common.h"
#include <pdf/mcpdf.h>
using namespace V; using namespace BFL; using MatrixWrapper::ColumnVector;

const char *H::rule =
  "A case is a history of 2-15 operations on Monte Carlo pdfs over vectors (dimension 1-5) and unsigned integers: replace the samples by weighted or unweighted lists of other lengths (growing and shrinking), "
  "update with lists of the same length, all-zero weights (must be rejected), copies, clones, assignments. After every operation number, values and "
  "order of the samples, normalised weights, cumulative table, mean and covariance are compared with a long-double model. Non-trivial: at least two samples "
  "with different weights. Distinct: hash of the reference weights and moments.";
long H::ncases(bool t) { return t ? 60000 : 4000; }

template <class T> struct Ops;
static double vscale = 1;
template <> struct Ops<ColumnVector> {
  static ColumnVector make(Rng &g, int d, double off) { Vec v = rd(rvec(g, d, -10, 10)); for (auto &x : v) x = (double)(x * vscale + off); return cv(v); }
  static Vec get(const ColumnVector &v) { return fv(v); }
};
template <> struct Ops<unsigned int> {
  static unsigned make(Rng &g, int, double) { return g.below(g.flip(0.3) ? 1000000 : 50); }
  static Vec get(const unsigned &v) { return Vec(1, v); }
};
struct Model { std::vector<Vec> x; Vec w; };

template <class T> void compare(MCPdf<T> &m, const Model &M, int d, double off, const char *what) {
  std::string k = what; size_t n = M.x.size();
  check(m.NumSamplesGet() == n && m.ListOfSamplesGet().size() == n, k + ":number-of-samples", fmt("%u instead of %zu", m.NumSamplesGet(), n));
  ld s = 0;
  for (size_t i = 0; i < n; i++) {
    same(k + ":sample-value", Ops<T>::get(m.ListOfSamplesGet()[i].ValueGet()), M.x[i]); same(k + ":sample-value", Ops<T>::get(m.SampleGet(i).ValueGet()), M.x[i]);
    near(k + ":weight", m.ListOfSamplesGet()[i].WeightGet(), M.w[i], 1e-290L, 1e-10L); s += m.SampleGet(i).WeightGet();
  }
  near(k + ":weights-sum", s, 1, 1, 1e-10L);
  std::vector<double> &cum = m.CumulativePDFGet(); check(cum.size() == n + 1 && cum[0] == 0, k + ":cumulative-size");
  ld a = 0; for (size_t i = 0; i < n; i++) { a += M.w[i]; near(k + ":cumulative", cum[i + 1], a, 1, 1e-10L); }
  if (d == 0) return;
  Vec mean(d, 0.0L); for (size_t i = 0; i < n; i++) mean = mean + M.x[i] * M.w[i];
  ld scale = 0; for (auto &x : M.x) scale = std::max(scale, maxabs(x));
  Mat cov(d, d);
  Vec got = Ops<T>::get(m.ExpectedValueGet());
  if (std::is_same<T, unsigned int>::value) {
    check(fabsl(got[0] - mean[0]) <= 0.5L + 1e-6L * (1 + scale), k + ":mean", fmt("rounded mean %Lg, weighted mean %Lg", got[0], mean[0]));
    mean[0] = got[0];   // its covariance is taken around the rounded mean
    for (size_t i = 0; i < n; i++) cov(0, 0) += (M.x[i][0] - mean[0]) * (M.x[i][0] - mean[0]) * M.w[i];
  } else {
    near(k + ":mean", got, mean, scale, 1e-11L);
    for (size_t i = 0; i < n; i++) cov = cov + outer(M.x[i] - mean, M.x[i] - mean) * M.w[i];
  }
  if (d > 200) { check(m.DimensionGet() == (unsigned)d, k + ":dimension"); return; }
  Mat gc = fm(m.CovarianceGet());
  ld dev = 0; for (auto &x : M.x) dev = std::max(dev, maxabs(x - mean)); near(k + ":covariance", gc, cov, dev * dev + 1e-3L * scale * scale, 1e-9L);
  for (int i = 0; i < d; i++) for (int j = 0; j < i; j++) check(gc(i, j) == gc(j, i), k + ":covariance-not-symmetric");
}

template <class T> void go(Ctx &c, int d) {
  Rng &g = c.g; std::vector<std::unique_ptr<MCPdf<T>>> P; std::vector<Model> M; double off = g.flip(0.1) ? 1e5 : 0; vscale = g.flip(0.25) ? std::pow(10.0, g.range(-9, 9)) : 1; if (vscale != 1 && off) off = vscale * 100;
  P.emplace_back(new MCPdf<T>(g.range(0, d > 200 ? 2 : 20), d)); if (d > 200) ev("dimension_above_255"); M.push_back(Model()); c.note(fmt("dimension=%d", d));
  int ops = d > 200 ? 2 : g.range(2, 15);
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()); MCPdf<T> &m = *P[i]; Model &q = M[i];
    int w = q.x.empty() ? 0 : g.below(10);
    if (w <= 5) {
      bool upd = !q.x.empty() && g.flip(), weighted = g.flip(0.7), zero = weighted && g.flip(0.07); int n = upd ? q.x.size() : d > 200 ? g.range(1, 3) : g.flip(0.02) ? g.range(100, 1500) : g.range(1, 40);
      std::vector<WeightedSample<T>> ws(n, WeightedSample<T>(d)); std::vector<Sample<T>> us(n, Sample<T>(d)); Model nm; ld s = 0; double dec = g.flip(0.2) ? 150 : 2;
      for (int k = 0; k < n; k++) {
        T v = Ops<T>::make(g, d, off); double wt = zero ? 0 : g.flip(0.2) ? 0 : std::pow(10.0, g.uni(-dec, 1)); if (k == n - 1 && s == 0 && !zero) wt = 0.7;
        ws[k].ValueSet(v); ws[k].WeightSet(wt); us[k].ValueSet(v); nm.x.push_back(Ops<T>::get(v)); nm.w.push_back(wt); s += wt;
      }
      int der = zero ? 0 : g.below(8); size_t on = q.x.size();
      if (der == 1) {   // weights that sum to exactly one
        ld left = 1; for (int k = 0; k < n; k++) { ld x = k == n - 1 ? left : g.flip(0.3) ? 0 : left * powl(2, -(ld)g.range(1, 3)); if (left < 1e-9L && k < n - 1) x = 0; nm.w[k] = x; left -= x; } for (int k = n - 1; k > 0; k--) std::swap(nm.w[k], nm.w[g.below(k + 1)]);
        for (int k = 0; k < n; k++) ws[k].WeightSet((double)nm.w[k]); ev("op_weights_sum_to_exactly_one");
      } else if (der == 2 && on) {   // derived from the present list: some samples or weights exchanged, changed or kept
        int n0 = n; n = upd ? on : g.flip() ? on : g.range(1, on); bool kv = g.flip(0.7), kw = !kv || g.flip(0.7); ws.resize(n, WeightedSample<T>(d)); us.resize(n, Sample<T>(d)); nm.x.resize(n); nm.w.resize(n); const std::vector<WeightedSample<T>> &old = m.ListOfSamplesGet(); int rot = g.below(n + 1);
        for (int k = 0; k < n; k++) { int f = (k + rot) % (int)on; T v = kv ? old[g.flip(0.5) ? k : f].ValueGet() : k < (int)us.size() && nm.x[k].size() ? us[k].ValueGet() : Ops<T>::make(g, d, off); double wt = kw ? old[f].WeightGet() : k < n0 ? ws[k].WeightGet() : 0.5; ws[k].ValueSet(v); ws[k].WeightSet(wt); us[k].ValueSet(v); nm.x[k] = Ops<T>::get(v); nm.w[k] = wt; }
        ld t = 0; for (auto &x : nm.w) t += x; if (!(t > 0)) { nm.w[0] = 1; ws[0].WeightSet(1); } ev("op_derived_list");
      }
      s = 0; for (auto &x : nm.w) s += x;
      bool ok;
      if (weighted) ok = upd ? m.ListOfSamplesUpdate(ws) : m.ListOfSamplesSet(ws); else ok = upd ? m.ListOfSamplesUpdate(us) : m.ListOfSamplesSet(us);
      c.note(fmt("%s %s n=%d ", upd ? "update" : "set", weighted ? "weighted" : "unweighted", n) + str(nm.w));
      if (zero && g.flip(0.3)) { std::vector<WeightedSample<T>> none; check(!m.ListOfSamplesSet(none), "empty-list-accepted"); check(m.NumSamplesGet() == 0, "empty-list-kept-samples"); ev("op_empty_list"); }
      if (zero) { check(!ok, "all-zero-weights-accepted", "weights that cannot be normalised were accepted"); ev("op_all_zero"); check(m.ListOfSamplesSet(us), "recover"); weighted = false; }
      else check(ok, "set-samples-returned-false");
      for (auto &x : nm.w) x = weighted ? x / s : 1.0L / n;
      if (n > 1 && weighted) c.nontrivial = true;
      q = nm; ev(upd ? "op_update" : "op_set");
    } else if (w == 6 && P.size() < 4) { P.emplace_back(new MCPdf<T>(*P[i])); M.push_back(Model(M[i])); c.note("copy"); ev("op_copy"); }
    else if (w == 7 && P.size() < 4) { P.emplace_back(P[i]->Clone()); M.push_back(Model(M[i])); c.note("clone"); ev("op_clone"); }
    else if (w == 8 && P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; M[i] = Model(M[j]); c.note("assign"); ev("op_assign"); }
    else { std::unique_ptr<MCPdf<T>> t(P[i]->Clone()); compare(*t, M[i], d, off, "temporary-copy"); }
    for (size_t k = 0; k < P.size(); k++) { if (!M[k].x.empty()) compare(*P[k], M[k], d, off, k == (size_t)i ? "edited" : "untouched"); }
    for (size_t k = 0; k < P.size(); k++) for (size_t a = 0; a < M[k].w.size(); a++) M[k].w[a] = P[k]->SampleGet(a).WeightGet();
  }
}
void H::run(Ctx &c) { if (c.g.flip(0.7) || c.id % 4000 == 777) go<ColumnVector>(c, c.id % 4000 == 777 ? c.g.range(256, 270) : c.g.range(1, 5)); else go<unsigned int>(c, 1); }
