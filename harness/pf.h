// User-defined continuous models for the particle filters, with a log of what the filter asked them.
#ifndef VERIF_PF_H
#define VERIF_PF_H
#include "common.h"
#include <pdf/conditionalpdf.h>
#include <pdf/mcpdf.h>
#include <model/systemmodel.h>
#include <model/measurementmodel.h>

namespace V {

// p(y|x[,u]) = product over the components of a kernel around A x + B u:  kind 0 Laplace, 1 Gaussian, 2 uniform box (zero outside)
struct Kern {
  Mat A, B; Vec off; double b; int kind; bool two; double gain = 1;   // gain: likelihoods of any magnitude (narrow or wide densities)
  double hole = 0;   // a (proposal) density that reports zero to one side although it samples there
  void random(Rng &g, int o, int n, int k, bool two_, int kind_, double b_) { two = two_; kind = kind_; b = b_; A = rd(rmat(g, o, n, -1, 1)); B = rd(rmat(g, o, two ? k : 0, -1, 1)); off = rd(rvec(g, o, -1, 1)); gain = g.flip(0.15) ? std::pow(10.0, g.range(-120, 120)) : 1; }
  Vec centre(const Vec &x, const Vec &u) const { Vec c = A * x + off; if (two) c = c + B * u; return c; }
  ld dens(const Vec &y, const Vec &x, const Vec &u) const {
    Vec c = centre(x, u); ld p = gain; if (hole > 0 && y[0] - c[0] > hole * b) return 0;
    for (size_t i = 0; i < y.size(); i++) { ld d = fabsl(y[i] - c[i]); if (kind == 0) p *= expl(-d / b) / (2 * b); else if (kind == 1) p *= expl(-d * d / (2 * b * b)) / (b * sqrtl(2 * M_PIl)); else p *= d <= b ? 1 / (2 * b) : 0; }
    return p;
  }
  Vec sample(Rng &g, const Vec &x, const Vec &u) const {
    Vec y = centre(x, u);
    for (auto &v : y) { double q = kind == 0 ? (g.flip() ? 1 : -1) * -std::log(1 - g.u01()) * b : kind == 1 ? g.normal() * b : g.uni(-0.999, 0.999) * b; v = (double)(v + q); }
    return y;
  }
  std::string desc() const { return fmt("kernel %d b=%.17g gain=%g hole=%g", kind, b, gain, hole) + " A=" + str(A) + " B=" + str(B) + " off=" + str(off); }
};
struct Call { Vec x, u, y; };
struct KernPdf : public BFL::ConditionalPdf<CV, CV> {
  const Kern *k; Rng *rng; mutable std::vector<Call> samples, queries; 
  KernPdf(const Kern *k_, Rng *r) : BFL::ConditionalPdf<CV, CV>(k_->A.r, k_->two ? 2 : 1), k(k_), rng(r) {}
  virtual KernPdf *Clone() const { return new KernPdf(*this); }
  Vec x() const { return fv(ConditionalArgumentGet(0)); }
  Vec u() const { return k->two ? fv(ConditionalArgumentGet(1)) : Vec(); }
  void clear() { samples.clear(); queries.clear(); }
  virtual BFL::Probability ProbabilityGet(const CV &y) const { Call c; c.x = x(); c.u = u(); c.y = fv(y); queries.push_back(c); ev("model_evaluations"); return BFL::Probability((double)k->dens(c.y, c.x, c.u)); }
  using BFL::Pdf<CV>::SampleFrom;
  virtual bool SampleFrom(BFL::Sample<CV> &s, const BFL::SampleMthd, void *) const { Call c; c.x = x(); c.u = u(); c.y = k->sample(*rng, c.x, c.u); s.ValueSet(cv(c.y)); samples.push_back(c); ev("model_samples"); return true; }
};

struct Parts { std::vector<Vec> x; Vec w; };
inline Parts parts(BFL::MCPdf<CV> *p) { Parts r; for (auto &s : p->ListOfSamplesGet()) { r.x.push_back(fv(s.ValueGet())); r.w.push_back(s.WeightGet()); } return r; }
inline void normal(const std::string &k, const Parts &p, size_t n) {
  check(p.x.size() == n, k + ":number-of-particles", fmt("%zu instead of %zu", p.x.size(), n)); ld s = 0; for (ld w : p.w) { check(w >= 0, k + ":negative-weight"); s += w; } near(k + ":weights-sum", s, 1, 1, 1e-9L);
}
// no product of the given factors, in any order, leaves the range of normal doubles
inline bool inrange(std::initializer_list<ld> f) { ld lo = 0, hi = 0; for (ld x : f) { if (x == 0) return true; ld l = log10l(x); (l < 0 ? lo : hi) += l; } return lo > -285 && hi < 290; }
inline Vec norml(Vec w) { ld s = 0; for (ld x : w) s += x; for (auto &x : w) x /= s; return w; }
inline void fillprior(Rng &g, BFL::MCPdf<CV> &p, int N, int n, bool eq) {
  std::vector<BFL::WeightedSample<CV>> l(N, BFL::WeightedSample<CV>(n)); for (auto &s : l) { Vec v(n); for (auto &q : v) q = g.uni(-2, 2);  /* pairwise different: the monitors tell particles by their value */ s.ValueSet(cv(v)); s.WeightSet(eq ? 1.0 : g.uni(0.05, 1)); } p.ListOfSamplesSet(l);
}
// some particles of weight zero or very small weight
inline void oddweights(Rng &g, BFL::MCPdf<CV> &p) { std::vector<BFL::WeightedSample<CV>> l = p.ListOfSamplesGet(); size_t k = g.below(l.size()); for (size_t i = 0; i < l.size(); i++) if (i != k && g.flip(0.4)) l[i].WeightSet(g.flip() ? 0.0 : l[i].WeightGet() * std::pow(10.0, -g.range(5, 60))); p.ListOfSamplesUpdate(l); }
}
#endif
