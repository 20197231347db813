// Random programs of documented API calls over the whole library, used by the memory monitor (C16) and the
// determinism monitor (C24).  Every program reports all results a caller can see through Obs.
#ifndef VERIF_PROGRAMS_H
#define VERIF_PROGRAMS_H
#include "nonlin.h"
#include "pf.h"
#include <filter/SRiteratedextendedkalmanfilter.h>
#include <filter/innovationCheck.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h>
#include <filter/histogramfilter.h>
#include <filter/particlefilter.h>
#include <filter/bootstrapfilter.h>
#include <filter/EKparticlefilter.h>
#include <filter/mixtureParticleFilter.h>
#include <filter/mixtureBootstrapFilter.h>
#include <smoother/rauchtungstriebel.h>
#include <smoother/particlesmoother.h>
#include <model/discretesystemmodel.h>
#include <pdf/discreteconditionalpdf.h>
#include <pdf/discretepdf.h>
#include <pdf/uniform.h>
#include <pdf/mixture.h>

namespace P {
using namespace V; using namespace BFL;
template <class T> using Up = std::unique_ptr<T>;

struct Obs {
  uint64_t h = 1; std::vector<double> v; bool keep; long n = 0;
  explicit Obs(bool k = false) : keep(k) { if (k) v.reserve(20000); }
  void d(double x) { if (x == 0) x = 0; h = mixd(h, x); n++; if (keep && v.size() < 20000) v.push_back(x); }
  void operator()(const Vec &x) { d(x.size()); for (ld y : x) d((double)y); }
  void operator()(const Mat &x) { d(x.r); for (ld y : x.d) d((double)y); }
  void operator()(Gaussian *g) { (*this)(fv(g->ExpectedValueGet())); (*this)(fm(g->CovarianceGet())); }
  void operator()(MCPdf<CV> *m) { d(m->NumSamplesGet()); for (auto &s : m->ListOfSamplesGet()) { (*this)(fv(s.ValueGet())); d(s.WeightGet()); } for (double x : m->CumulativePDFGet()) d(x); }
  void operator()(MCPdf<int> *m) { d(m->NumSamplesGet()); for (auto &s : m->ListOfSamplesGet()) { d(s.ValueGet()); d(s.WeightGet()); } }
  void operator()(DiscretePdf *m) { for (auto &p : m->ProbabilitiesGet()) d(p.getValue()); }
  void operator()(Mixture<CV> *m) { d(m->NumComponentsGet()); for (auto &w : m->WeightsGet()) d(w.getValue()); for (unsigned i = 0; i < m->NumComponentsGet(); i++) (*this)(dynamic_cast<MCPdf<CV> *>(m->ComponentGet(i))); }
};
// objects that belong to the caller: their contents when handed over, compared when the caller gets rid of them
struct Owned { std::vector<std::pair<std::function<uint64_t()>, uint64_t>> v; template <class T> void add(T *p) { auto f = [p]() { Obs o; o(p); return o.h; }; v.push_back(std::make_pair(std::function<uint64_t()>(f), f())); } void verify() { for (auto &x : v) check(x.first() == x.second, "callers-object-changed"); v.clear(); } };

// ---- analytic models on the heap: linear or nonlinear, with or without a second argument
struct Sys {
  Lin L; NL N; Up<NLPdf> np; Up<AnalyticSystemModelGaussianUncertainty> nm; bool lin; int k;
  Sys(Rng &g, int n) { lin = g.flip(); k = g.range(1, 3); bool two = g.flip(); if (lin) { L.random(g, n, n, k, two, 0.1, 2, 0); L.makesys(); } else { N.random(g, n, n, k, two, 1); np.reset(new NLPdf(&N)); nm.reset(new AnalyticSystemModelGaussianUncertainty(np.get())); } }
  AnalyticSystemModelGaussianUncertainty *m() { return lin ? L.sys.get() : nm.get(); }
  bool two() const { return lin ? L.two : N.two; }
  CV u(Rng &g) { return cv(rd(rvec(g, k, -1, 1))); }
};
struct Mea {
  Lin L; NL N; Up<NLPdf> np; Up<AnalyticMeasurementModelGaussianUncertainty> nm; bool lin; int k, d;
  Mea(Rng &g, int n) { lin = g.flip(); k = g.range(1, 3); d = g.range(1, 4); bool two = g.flip(); if (lin) { L.random(g, d, n, k, two, 0.1, 2, 0); L.makemeas(); } else { N.random(g, d, n, k, two, 1); np.reset(new NLPdf(&N)); nm.reset(new AnalyticMeasurementModelGaussianUncertainty(np.get())); } }
  AnalyticMeasurementModelGaussianUncertainty *m() { return lin ? L.meas.get() : nm.get(); }
  bool two() const { return lin ? L.two : N.two; }
  CV s(Rng &g) { return cv(rd(rvec(g, k, -1, 1))); }
  CV z(Rng &g) { return cv(rd(rvec(g, d, -2, 2))); }
};
template <class F, class S, class M> bool update(Rng &g, F *f, S *s, bool two1, const CV &u, M *m, bool two2, const CV &z, const CV &sp) {
  ev("updates");
  if (s && m) { if (two1 && two2) return f->Update(s, u, m, z, sp); if (two1) return f->Update(s, u, m, z); if (two2) return f->Update(s, m, z, sp); return f->Update(s, m, z); }
  if (s) return two1 ? f->Update(s, u) : f->Update(s);
  return two2 ? f->Update(m, z, sp) : f->Update(m, z);
}
// unstable models blow up rounding errors: such filters are restarted
inline bool ill(Gaussian *p) { Mat P = fm(p->CovarianceGet()); ld b = maxabs(P), lo = b; for (int i = 0; i < P.r; i++) lo = std::min(lo, fabsl(P(i, i))); return !(b < 1e4L) || !(maxabs(fv(p->ExpectedValueGet())) < 1e4L) || lo < 1e-6L * b; }
inline Gaussian *gauss(Rng &g, int n) { return new Gaussian(cv(rd(rvec(g, n, -2, 2))), sm(rspd(g, n, 0.1, 2))); }

inline void kalman(Rng &g, Obs &o) {
  int n = g.range(1, 6); Owned own; std::vector<Up<Gaussian>> pr; pr.emplace_back(gauss(g, n)); own.add(pr[0].get());
  std::vector<Up<Sys>> S; std::vector<Up<Mea>> M; Up<InnovationCheck> ic(g.flip() ? new InnovationCheck(0.01) : 0); Up<KalmanFilter> f; ExtendedKalmanFilter *e = 0; IteratedExtendedKalmanFilter *ie = 0;
  if (g.flip()) f.reset(e = new ExtendedKalmanFilter(pr[0].get())); else f.reset(ie = new IteratedExtendedKalmanFilter(pr[0].get(), g.range(1, 5), ic.get()));
  int ops = g.range(3, 20);
  for (int i = 0; i < ops; i++) {
    int w = g.below(14);
    if (w == 0 && !S.empty()) S.erase(S.begin() + g.below(S.size()));
    else if (w == 1 && !M.empty()) M.erase(M.begin() + g.below(M.size()));
    else if (w == 2) { pr.emplace_back(gauss(g, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); if (g.flip()) { own.verify(); while (pr.size() > 1) pr.erase(pr.begin()); own.add(pr[0].get()); } ev("resets"); }
    else if (w == 3) { unsigned d = g.range(1, 6); if (e && g.flip()) e->AllocateMeasModelExt(d); else if (ie && g.flip()) ie->AllocateMeasModelIExt(d); else f->AllocateMeasModel(d); if (g.flip()) { std::vector<unsigned> ds(g.range(0, 3)); for (auto &x : ds) x = g.range(1, 6); f->AllocateMeasModel(ds); if (e) e->AllocateMeasModelExt(ds); if (ie) ie->AllocateMeasModelIExt(ds); } }
    else if (w == 4) { Up<Gaussian> q(f->PostGet()->Clone()); Gaussian r(*f->PostGet()); r = *q; o(&r); }
    else {
      if (S.empty() || g.flip(0.2)) S.emplace_back(new Sys(g, n)); if (M.empty() || g.flip(0.2)) M.emplace_back(new Mea(g, n));
      Sys *s = g.flip(0.7) ? S[g.below(S.size())].get() : 0; Mea *m = !s || g.flip() ? M[g.below(M.size())].get() : 0; CV u = s ? s->u(g) : CV(0), z = m ? m->z(g) : CV(0), sp = m ? m->s(g) : CV(0);
      if (s && s->lin && g.flip(0.2)) s->L.sys->ASet(bm(rd(rmat(g, n, n)))); if (m && m->lin && g.flip(0.2)) m->L.meas->HSet(bm(rd(rmat(g, m->d, n))));
      o.d(update(g, f.get(), s ? s->m() : 0, s && s->two(), u, m ? m->m() : 0, m && m->two(), z, sp));
      if (e && m && !m->two() && g.flip(0.2)) o.d(e->NisGet(m->m(), z));
    }
    o(f->PostGet());
    if (ill(f->PostGet())) { pr.emplace_back(gauss(g, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); ev("resets"); }
  }
  own.verify(); if (g.flip()) { M.clear(); S.clear(); pr.clear(); f.reset(); } ev("kalman_programs");
}

struct Impl : public LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
  NL m; ColumnVector f; Matrix df, sr; SymmetricMatrix R; int ident; Vec x;
  Impl(Rng &g, int n, int d) : sr(d, d), R(d) { m.random(g, d, n, 0, false, 0.5); df = bm(m.A); ident = g.flip(); Mat r = rspd(g, d, 0.1, 2); if (ident) for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) if (i != j) r(i, j) = 0; R = sm(r); sr = 0.0; for (int i = 0; i < d; i++) sr(i + 1, i + 1) = sqrt((double)r(i, i)); }
  const ColumnVector &fGet() const { return f; } const int TypeGet() const { return 1; } Matrix &dfGet(int) { return df; }
  Matrix df_dxGet(const ColumnVector &, const ColumnVector &xx) { x = fv(xx); return bm(m.F(x)); } Matrix &df_dzGet(const ColumnVector &, const ColumnVector &) { return df; }
  ColumnVector PredictionGet(const ColumnVector &, const ColumnVector &xx) { return cv(m.f(fv(xx), Vec())); } ColumnVector ExpectedValueGet() { return cv(m.f(x, Vec())); }
  SymmetricMatrix &CovarianceGet() { return R; } SymmetricMatrix CovarianceGet(const ColumnVector &, const ColumnVector &) { return R; } void Calculate(const ColumnVector &, const ColumnVector &, const Matrix &) {}
  const Matrix &SRCovariance() const { return sr; } const int &Is_Identity() const { return ident; }
};
inline void squareroot(Rng &g, Obs &o) {
  int n = g.range(1, 4); Owned own; std::vector<Up<Gaussian>> pr; pr.emplace_back(gauss(g, n)); own.add(pr[0].get()); std::vector<Up<Sys>> S; std::vector<Up<Impl>> M; std::vector<int> D_;
  Up<SRIteratedExtendedKalmanFilter> f(new SRIteratedExtendedKalmanFilter(pr[0].get(), g.range(1, 4))); int ops = g.range(2, 10);
  for (int i = 0; i < ops; i++) {
    int w = g.below(8);
    if (w == 0) { pr.emplace_back(gauss(g, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); }
    else if (w == 1 && !S.empty()) S.clear();
    else if (w == 2 && !M.empty()) { M.clear(); D_.clear(); }
    else {
      if (S.empty()) S.emplace_back(new Sys(g, n)); if (M.empty() || g.flip(0.3)) { D_.push_back(g.range(1, 3)); M.emplace_back(new Impl(g, n, D_.back())); }
      Sys *s = g.flip(0.7) ? S[0].get() : 0; int k = g.below(M.size()); Impl *m = !s || g.flip() ? M[k].get() : 0; CV u = s ? s->u(g) : CV(0), z = m ? cv(rd(rvec(g, D_[k], -2, 2))) : CV(0);
      o.d(update(g, f.get(), s ? s->m() : 0, s && s->two(), u, m, false, z, CV(0)));
    }
    o(f->PostGet()); o(fm(f->SRCovarianceGet() * f->SRCovarianceGet().transpose()));
    if (ill(f->PostGet())) { pr.emplace_back(gauss(g, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); ev("resets"); }
  }
  own.verify(); ev("square_root_programs");
}

inline void table(Rng &g, DiscreteConditionalPdf &p, int n, int a, int b) {
  for (int i = 0; i < a; i++) for (int j = 0; j < std::max(1, b); j++) { std::vector<double> t(n); double s = 0; for (auto &x : t) { x = g.uni(0.05, 1); s += x; } std::vector<int> c(1, i); if (b) c.push_back(j); for (int k = 0; k < n; k++) p.ProbabilitySet(t[k] / s, k, c); }
}
inline DiscreteConditionalPdf *dpdf(Rng &g, int n, int a, int b) { int dims[2] = {a, b}; DiscreteConditionalPdf *p = new DiscreteConditionalPdf(n, b ? 2 : 1, dims); table(g, *p, n, a, b); return p; }
inline DiscretePdf *dprior(Rng &g, int n) { DiscretePdf *p = new DiscretePdf(n); std::vector<Probability> v; for (int i = 0; i < n; i++) v.push_back(g.uni(0.05, 1)); p->ProbabilitiesSet(v); return p; }
struct DS { Up<DiscreteConditionalPdf> p; Up<DiscreteSystemModel> m; int b; DS(Rng &g, int n) : b(g.flip() ? g.range(1, 3) : 0) { p.reset(dpdf(g, n, n, b)); m.reset(new DiscreteSystemModel(p.get())); if (g.flip(0.3)) { Up<DiscreteSystemModel> c(new DiscreteSystemModel(*m)); m.swap(c); } } };
struct DM { Up<DiscreteConditionalPdf> p; Up<MeasurementModel<int, int>> m; int b, k; DM(Rng &g, int n) : b(g.flip() ? g.range(1, 3) : 0), k(g.range(1, 5)) { p.reset(dpdf(g, k, n, b)); m.reset(new MeasurementModel<int, int>(p.get())); } };
template <class F> bool dupdate(Rng &g, F *f, DS *s, DM *m) {
  ev("updates"); int u = s && s->b ? g.below(s->b) : 0, z = m ? g.below(m->k) : 0, sp = m && m->b ? g.below(m->b) : 0; SystemModel<int> *S = s ? s->m.get() : 0; MeasurementModel<int, int> *M = m ? m->m.get() : 0;
  if (s && m) { if (s->b && m->b) return f->Update(S, u, M, z, sp); if (s->b) return f->Update(S, u, M, z); if (m->b) return f->Update(S, M, z, sp); return f->Update(S, M, z); }
  if (s) return s->b ? f->Update(S, u) : f->Update(S); return m->b ? f->Update(M, z, sp) : f->Update(M, z);
}
inline void histogram(Rng &g, Obs &o) {
  int n = g.range(1, 8); Owned own; std::vector<Up<DiscretePdf>> pr; pr.emplace_back(dprior(g, n)); own.add(pr[0].get()); Up<HistogramFilter<int>> f(new HistogramFilter<int>(pr[0].get())); std::vector<Up<DS>> S; std::vector<Up<DM>> M;
  for (int i = g.range(2, 15); i--;) {
    int w = g.below(9);
    if (w == 0) S.clear(); else if (w == 1) M.clear();
    else if (w == 2) { pr.emplace_back(dprior(g, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); if (g.flip()) { own.verify(); while (pr.size() > 1) pr.erase(pr.begin()); own.add(pr[0].get()); } ev("resets"); }
    else { if (S.empty() || g.flip(0.2)) S.emplace_back(new DS(g, n)); if (M.empty() || g.flip(0.2)) M.emplace_back(new DM(g, n)); DS *s = g.flip(0.7) ? S[g.below(S.size())].get() : 0; DM *m = !s || g.flip() ? M[g.below(M.size())].get() : 0; o.d(dupdate(g, f.get(), s, m)); }
    o(f->PostGet()); o.d(f->PostGet()->MostProbableStateGet());
  }
  own.verify(); if (g.flip()) { pr.clear(); S.clear(); M.clear(); f.reset(); } ev("histogram_programs");
}
inline MCPdf<int> *mcint(Rng &g, int N, int n) { MCPdf<int> *p = new MCPdf<int>(N, 1); std::vector<WeightedSample<int>> l(N, WeightedSample<int>(1)); for (auto &s : l) { s.ValueSet(g.below(n)); s.WeightSet(g.uni(0.1, 1)); } p->ListOfSamplesSet(l); return p; }
inline void discretepf(Rng &g, Obs &o) {
  int n = g.range(1, 6), N = g.range(1, 30); Owned own; std::vector<Up<MCPdf<int>>> pr; pr.emplace_back(mcint(g, N, n)); own.add(pr[0].get()); bool dyn = g.flip();
  Up<BootstrapFilter<int, int>> f(new BootstrapFilter<int, int>(pr[0].get(), dyn ? 0 : g.range(1, 4), dyn ? g.uni(0.3, N + 1.0) : 0.0)); std::vector<Up<DS>> S; std::vector<Up<DM>> M;
  for (int i = g.range(2, 12); i--;) {
    int w = g.below(9);
    if (w == 0) S.clear(); else if (w == 1) M.clear();
    else if (w == 2) { N = g.range(1, 30); pr.emplace_back(mcint(g, N, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); if (g.flip()) { own.verify(); while (pr.size() > 1) pr.erase(pr.begin()); own.add(pr[0].get()); } ev("resets"); }
    else { if (S.empty() || g.flip(0.2)) S.emplace_back(new DS(g, n)); if (M.empty() || g.flip(0.2)) M.emplace_back(new DM(g, n)); DS *s = g.flip(0.7) ? S[g.below(S.size())].get() : 0; DM *m = !s || g.flip() ? M[g.below(M.size())].get() : 0; o.d(dupdate(g, f.get(), s, m)); }
    o(f->PostGet()); o.d(f->TimeStepGet());
  }
  own.verify(); if (g.flip()) { pr.clear(); S.clear(); M.clear(); f.reset(); } ev("discrete_particle_programs");
}

inline MCPdf<CV> *mc(Rng &g, int N, int n) { MCPdf<CV> *p = new MCPdf<CV>(N, n); fillprior(g, *p, N, n, g.flip()); return p; }
inline void particle(Rng &g, Obs &o) {
  int kind = g.below(3), n = g.range(1, 3), N = g.range(kind == 2 ? 2 : 1, 20); Owned own; std::vector<Up<MCPdf<CV>>> pr; pr.emplace_back(mc(g, N, n)); own.add(pr[0].get());
  bool dyn = g.flip(); int per = dyn ? 0 : g.range(1, 4); double th = dyn ? g.uni(0.3, N + 1.0) : 0; std::vector<Up<Sys>> S; std::vector<Up<Mea>> M; Up<MCPdf<CV>> post; Up<ParticleFilter<CV, CV>> f; Up<Sys> prop(new Sys(g, n));
  ConditionalPdf<CV, CV> *pp = prop->m()->SystemPdfGet();
  if (kind == 0) f.reset(new ParticleFilter<CV, CV>(pr[0].get(), pp, per, th)); else if (kind == 1) { if (g.flip()) { post.reset(mc(g, N, n)); f.reset(new BootstrapFilter<CV, CV>(pr[0].get(), post.get(), per, th)); } else f.reset(new BootstrapFilter<CV, CV>(pr[0].get(), per, th)); } else f.reset(new EKParticleFilter(pr[0].get(), per, th));
  for (int i = g.range(2, 10); i--;) {
    int w = g.below(10); ld sum = 0; for (auto &s : f->PostGet()->ListOfSamplesGet()) sum += s.WeightGet();
    if (w == 0) S.clear(); else if (w == 1) M.clear();
    else if (w == 2 || !(sum > 0.5)) { if (g.flip()) N = g.range(kind == 2 ? 2 : 1, 20); pr.emplace_back(mc(g, N, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); if (g.flip()) { own.verify(); while (pr.size() > 1) pr.erase(pr.begin()); own.add(pr[0].get()); } ev("resets"); }
    else if (w == 3 && kind == 0) { Up<Sys> np(new Sys(g, n)); f->ProposalSet(np->m()->SystemPdfGet()); prop.swap(np); }
    else {
      if (S.empty() || g.flip(0.2)) S.emplace_back(new Sys(g, n)); if (M.empty() || g.flip(0.2)) M.emplace_back(new Mea(g, n));
      Sys *s = kind == 2 || g.flip(0.7) ? S[g.below(S.size())].get() : 0; if (s && kind == 0) { s = S[g.below(S.size())].get(); if (s->two() != prop->two() || s->k != prop->k) { f->ProposalSet(s->m()->SystemPdfGet()); } else f->ProposalSet(prop->m()->SystemPdfGet()); }
      Mea *m = kind == 2 || !s || g.flip() ? M[g.below(M.size())].get() : 0; CV u = s ? s->u(g) : CV(0), z = m ? m->z(g) : CV(0), sp = m ? m->s(g) : CV(0);
      o.d(update(g, f.get(), s ? (SystemModel<CV> *)s->m() : 0, s && s->two(), u, m ? (MeasurementModel<CV, CV> *)m->m() : 0, m && m->two(), z, sp));
      if (s && kind == 0) f->ProposalSet(prop->m()->SystemPdfGet());
    }
    sum = 0; for (auto &s : f->PostGet()->ListOfSamplesGet()) sum += s.WeightGet(); if (sum > 0.5) { o(f->PostGet()); o(fv(f->PostGet()->ExpectedValueGet())); o(fm(f->PostGet()->CovarianceGet())); } o.d(f->TimeStepGet());
  }
  own.verify(); if (g.flip()) { pr.clear(); S.clear(); M.clear(); prop.reset(); f.reset(); } ev(kind == 2 ? "ekf_particle_programs" : "particle_programs");
}
inline Mixture<CV> *mixp(Rng &g, int n) { Mixture<CV> *m = new Mixture<CV>((unsigned)n); int K = g.range(1, 4); std::vector<Probability> w; for (int k = 0; k < K; k++) { Up<MCPdf<CV>> p(mc(g, g.range(1, 12), n)); m->AddComponent(*p); w.push_back(g.uni(0.1, 1)); } m->WeightsSet(w); return m; }
inline void mixture(Rng &g, Obs &o) {
  int n = g.range(1, 3); bool boot = g.flip(); Owned own; std::vector<Up<Mixture<CV>>> pr; pr.emplace_back(mixp(g, n)); own.add(pr[0].get()); std::vector<Up<Sys>> S; std::vector<Up<Mea>> M; bool dyn = g.flip(); int per = dyn ? 0 : g.range(1, 4); double th = dyn ? g.uni(0.3, 8) : 0; Up<Sys> prop(new Sys(g, n)); Up<MixtureParticleFilter<CV, CV>> f;
  int mp = g.range(0, 3); if (boot) f.reset(new MixtureBootstrapFilter<CV, CV>(pr[0].get(), per, th, MULTINOMIAL_RS, mp)); else f.reset(new MixtureParticleFilter<CV, CV>(pr[0].get(), prop->m()->SystemPdfGet(), per, th, MULTINOMIAL_RS, mp));
  for (int i = g.range(2, 8); i--;) {
    Mixture<CV> *P_ = f->PostGet(); bool bad = false; for (unsigned k = 0; k < P_->NumComponentsGet(); k++) { ld s = 0; for (auto &x : dynamic_cast<MCPdf<CV> *>(P_->ComponentGet(k))->ListOfSamplesGet()) s += x.WeightGet(); if (!(s > 0.5)) bad = true; if ((double)P_->WeightGet(k) < 1e-200) bad = true; }
    int w = g.below(9);
    if (w == 0) S.clear(); else if (w == 1) M.clear();
    else if (w == 2 || bad) { pr.emplace_back(mixp(g, n)); own.add(pr.back().get()); f->Reset(pr.back().get()); if (g.flip()) { own.verify(); while (pr.size() > 1) pr.erase(pr.begin()); own.add(pr[0].get()); } ev("resets"); }
    else {
      if (S.empty() || g.flip(0.2)) S.emplace_back(new Sys(g, n)); if (M.empty() || g.flip(0.2)) M.emplace_back(new Mea(g, n)); Sys *s = g.flip(0.7) ? S[g.below(S.size())].get() : 0; if (s && !boot) f->ProposalSet(s->m()->SystemPdfGet());
      Mea *m = !s || g.flip() ? M[g.below(M.size())].get() : 0; CV u = s ? s->u(g) : CV(0), z = m ? m->z(g) : CV(0), sp = m ? m->s(g) : CV(0);
      o.d(update(g, f.get(), s ? (SystemModel<CV> *)s->m() : 0, s && s->two(), u, m ? (MeasurementModel<CV, CV> *)m->m() : 0, m && m->two(), z, sp)); if (s && !boot) f->ProposalSet(prop->m()->SystemPdfGet());
    }
    o(f->PostGet()); o.d(f->TimeStepGet());
  }
  own.verify(); if (g.flip()) { pr.clear(); S.clear(); M.clear(); prop.reset(); f.reset(); } ev("mixture_programs");
}
inline void smoothers(Rng &g, Obs &o) {
  int n = g.range(1, 4); Owned own;
  if (g.flip()) {
    Up<Gaussian> last(gauss(g, n)); own.add(last.get()); Up<RauchTungStriebel> s(new RauchTungStriebel(last.get())); std::vector<Up<Gaussian>> fl; std::vector<Up<Sys>> S;
    for (int i = g.range(1, 8); i--;) { if (g.flip(0.2)) S.clear(); if (S.empty() || g.flip(0.2)) S.emplace_back(new Sys(g, n)); if (g.flip(0.1)) { Up<Gaussian> l2(gauss(g, n)); s->Reset(l2.get()); own.verify(); last.swap(l2); own.add(last.get()); }
      fl.emplace_back(gauss(g, n)); own.add(fl.back().get()); Sys *m = S[g.below(S.size())].get(); ev("updates"); o.d(m->two() ? s->Update(m->m(), m->u(g), fl.back().get()) : s->Update(m->m(), fl.back().get())); o((Gaussian *)s->PostGet()); if (g.flip(0.3)) { own.verify(); fl.clear(); own.add(last.get()); } }
    own.verify();
  } else {
    Up<MCPdf<CV>> last(mc(g, g.range(1, 12), n)); own.add(last.get()); Up<ParticleSmoother<CV>> s(new ParticleSmoother<CV>(last.get())); std::vector<Up<MCPdf<CV>>> fl; std::vector<Up<Sys>> S;
    for (int i = g.range(1, 5); i--;) {
      if (g.flip(0.2)) S.clear(); if (S.empty() || g.flip(0.2)) S.emplace_back(new Sys(g, n)); fl.emplace_back(mc(g, g.range(1, 12), n)); own.add(fl.back().get()); Sys *m = S[g.below(S.size())].get(); CV u = m->u(g); MCPdf<CV> *post = (MCPdf<CV> *)s->PostGet();
      ld tot = 0; for (auto &a : post->ListOfSamplesGet()) for (auto &b : fl.back()->ListOfSamplesGet()) tot += a.WeightGet() * b.WeightGet() * (double)(m->two() ? m->m()->ProbabilityGet(a.ValueGet(), b.ValueGet(), u) : m->m()->ProbabilityGet(a.ValueGet(), b.ValueGet()));
      if (!(tot > 1e-200L)) { s->Reset(fl.back().get()); own.verify(); last = std::move(fl.back()); fl.clear(); own.add(last.get()); continue; }
      ev("updates"); o.d(m->two() ? s->Update(m->m(), u, fl.back().get()) : s->Update(m->m(), fl.back().get())); o((MCPdf<CV> *)s->PostGet()); if (g.flip(0.3)) { own.verify(); fl.clear(); own.add(last.get()); } }
    own.verify();
  }
  ev("smoother_programs");
}

// ---- a pool of distributions: created, copied, assigned, edited, sampled and destroyed in any order
struct Any { virtual ~Any() {} virtual Any *copy(Rng &) = 0; virtual void assign(Any *, Rng &) = 0; virtual void edit(Rng &) = 0; virtual void use(Rng &, Obs &) = 0; virtual void look(Obs &o) { Rng r(7); D().reset(Draws::CASE, 7); use(r, o); } /* without changing it */ virtual const std::type_info &type() = 0; };
inline void draw(Rng &g, Obs &o, Pdf<CV> *p, SampleMthd m = SampleMthd::DEFAULT) { Sample<CV> s(p->DimensionGet()); if (p->SampleFrom(s, m, NULL)) o(fv(s.ValueGet())); std::vector<Sample<CV>> l(g.below(4), Sample<CV>(p->DimensionGet())); if (p->SampleFrom(l, g.range(0, 5), m, NULL)) for (auto &x : l) o(fv(x.ValueGet())); }
template <class T> struct Box : public Any { Up<T> p; typedef T type_; const std::type_info &type() { return typeid(T); } explicit Box(T *q) : p(q) {} virtual Box *wrap(T *q) = 0; Any *copy(Rng &g) { return wrap(g.flip() ? p->Clone() : new T(*p)); } void assign(Any *a, Rng &) { Box *b = dynamic_cast<Box *>(a); if (b) { *p = *b->p; ev("assignments"); } } };
struct BG : public Box<Gaussian> { BG(Gaussian *q) : Box<Gaussian>(q) {} Box<Gaussian> *wrap(Gaussian *q) { return new BG(q); }
  void edit(Rng &g) { int n = p->DimensionGet(); int w = g.below(3); if (w == 0) p->ExpectedValueSet(cv(rd(rvec(g, n)))); else if (w == 1) p->CovarianceSet(sm(rspd(g, n, 0.1, 2))); else { n = g.range(1, 5); p->DimensionSet(n); p->ExpectedValueSet(cv(rd(rvec(g, n)))); p->CovarianceSet(sm(rspd(g, n, 0.1, 2))); } }
  void use(Rng &g, Obs &o) { int n = p->DimensionGet(); o.d(p->ProbabilityGet(cv(rd(rvec(g, n, -1, 1))))); o(p.get()); draw(g, o, p.get(), g.flip() ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY); } };
struct BU : public Box<Uniform> { BU(Uniform *q) : Box<Uniform>(q) {} Box<Uniform> *wrap(Uniform *q) { return new BU(q); }
  void edit(Rng &g) { int n = p->DimensionGet(); p->UniformSet(cv(rd(rvec(g, n))), cv(rd(rvec(g, n, 0.1, 3)))); } void use(Rng &g, Obs &o) { int n = p->DimensionGet(); o.d(p->ProbabilityGet(cv(rd(rvec(g, n, -1, 1))))); o(fv(p->CenterGet())); o(fv(p->WidthGet())); draw(g, o, p.get()); } };
struct BD : public Box<DiscretePdf> { BD(DiscretePdf *q) : Box<DiscretePdf>(q) {} Box<DiscretePdf> *wrap(DiscretePdf *q) { return new BD(q); }
  void edit(Rng &g) { int n = p->NumStatesGet(); if (g.flip()) { std::vector<Probability> v; for (int i = 0; i < n; i++) v.push_back(g.uni(0.1, 1)); p->ProbabilitiesSet(v); } else if (n > 1) p->ProbabilitySet(g.below(n), g.uni(0, 1)); }
  void use(Rng &g, Obs &o) { o(p.get()); o.d(p->MostProbableStateGet()); Sample<int> s(1); p->SampleFrom(s); o.d(s.ValueGet()); std::vector<Sample<int>> l; p->SampleFrom(l, g.range(0, 5), g.flip() ? SampleMthd::DEFAULT : SampleMthd::RIPLEY); for (auto &x : l) o.d(x.ValueGet()); } };
struct BM_ : public Box<MCPdf<CV>> { BM_(MCPdf<CV> *q) : Box<MCPdf<CV>>(q) {} Box<MCPdf<CV>> *wrap(MCPdf<CV> *q) { return new BM_(q); }
  void edit(Rng &g) { int n = p->DimensionGet(); Up<MCPdf<CV>> q(mc(g, g.flip() ? p->NumSamplesGet() : g.range(1, 15), n)); std::vector<WeightedSample<CV>> l = q->ListOfSamplesGet(); std::vector<Sample<CV>> u(l.begin(), l.end()); bool same = q->NumSamplesGet() == p->NumSamplesGet(); if (same && g.flip()) { if (g.flip()) p->ListOfSamplesUpdate(l); else p->ListOfSamplesUpdate(u); } else if (g.flip()) p->ListOfSamplesSet(l); else p->ListOfSamplesSet(u); }
  void use(Rng &g, Obs &o) { o(p.get()); o(fv(p->ExpectedValueGet())); o(fm(p->CovarianceGet())); draw(g, o, p.get(), g.flip() ? SampleMthd::DEFAULT : SampleMthd::RIPLEY); } };
struct BX : public Box<Mixture<CV>> { BX(Mixture<CV> *q) : Box<Mixture<CV>>(q) {} Box<Mixture<CV>> *wrap(Mixture<CV> *q) { return new BX(q); }
  void edit(Rng &g) { int n = p->DimensionGet(), K = p->NumComponentsGet(); Up<Gaussian> q(gauss(g, n)); int w = g.below(5); if (w == 0 || K == 0) { if (g.flip()) p->AddComponent(*q); else p->AddComponent(*q, g.uni(0.1, 1)); } else if (w == 1 && K > 1) { int k = g.below(K); if ((double)p->WeightGet(k) < 0.999) p->DeleteComponent(k); } else if (w == 2) { std::vector<Probability> v; for (int i = 0; i < K; i++) v.push_back(g.uni(0.1, 1)); p->WeightsSet(v); } else if (w == 3 && K > 1) p->WeightSet(g.below(K), g.uni(0, 1)); else dynamic_cast<Gaussian *>(p->ComponentGet(g.below(K)))->ExpectedValueSet(cv(rd(rvec(g, n)))); }
  void use(Rng &g, Obs &o) { int n = p->DimensionGet(); if (p->NumComponentsGet() == 0) return; o.d(p->ProbabilityGet(cv(rd(rvec(g, n, -1, 1))))); o(fv(p->ExpectedValueGet())); for (auto &x : p->WeightsGet()) o.d(x.getValue()); o.d(p->MostProbableComponentGet()); draw(g, o, p.get(), g.flip() ? SampleMthd::DEFAULT : SampleMthd::RIPLEY); std::vector<Pdf<CV> *> c = p->ComponentsGet(); o.d(c.size()); } };
struct BL : public Box<LinearAnalyticConditionalGaussian> { typedef LinearAnalyticConditionalGaussian L; BL(L *q) : Box<L>(q) {} Box<L> *wrap(L *q) { return new BL(q); }
  void edit(Rng &g) { int na = p->NumConditionalArgumentsGet(), n = p->DimensionGet(); int w = g.below(4), i = g.below(na); if (w == 0) p->MatrixSet(i, bm(rd(rmat(g, n, p->MatrixGet(i).columns())))); else if (w == 1) p->AdditiveNoiseMuSet(cv(rd(rvec(g, n)))); else if (w == 2) p->AdditiveNoiseSigmaSet(sm(rspd(g, n, 0.1, 2))); else for (i = 0; i < na; i++) p->ConditionalArgumentSet(i, cv(rd(rvec(g, p->MatrixGet(i).columns())))); }
  void look(Obs &o) { int na = p->NumConditionalArgumentsGet(), n = p->DimensionGet(); o.d(na); for (int i = 0; i < na; i++) { o(fv(p->ConditionalArgumentGet(i))); o(fm(p->MatrixGet(i))); o(fm(p->dfGet(i))); } o(fv(p->AdditiveNoiseMuGet())); o(fm(p->AdditiveNoiseSigmaGet())); o(fv(p->ExpectedValueGet())); o(fm(p->CovarianceGet())); Rng r(7); D().reset(Draws::CASE, 7); o.d(p->ProbabilityGet(cv(rd(rvec(r, n, -1, 1))))); draw(r, o, p.get()); }
  void use(Rng &g, Obs &o) { int na = p->NumConditionalArgumentsGet(), n = p->DimensionGet(); for (int i = 0; i < na; i++) p->ConditionalArgumentSet(i, cv(rd(rvec(g, p->MatrixGet(i).columns(), -1, 1)))); o(fv(p->ExpectedValueGet())); o(fm(p->CovarianceGet())); o.d(p->ProbabilityGet(cv(rd(rvec(g, n, -1, 1))))); o(fm(p->dfGet(g.below(na)))); draw(g, o, p.get(), g.flip() ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY); } };
struct BC : public Box<DiscreteConditionalPdf> { typedef DiscreteConditionalPdf L; std::vector<int> dims; BC(L *q, const std::vector<int> &d) : Box<L>(q), dims(d) {} Box<L> *wrap(L *q) { return new BC(q, dims); }
  void assign(Any *a, Rng &g) { BC *b = dynamic_cast<BC *>(a); if (b) { *p = *b->p; dims = b->dims; ev("assignments"); } }
  void edit(Rng &g) { std::vector<int> c; for (int d : dims) c.push_back(g.below(d)); int n = p->NumStatesGet(); std::vector<double> t(n); double s = 0; for (auto &x : t) { x = g.uni(0.1, 1); s += x; } for (int i = 0; i < n; i++) p->ProbabilitySet(t[i] / s, i, c); }
  void look(Obs &o) { o.d(p->NumStatesGet()); o.d(p->NumConditionalArgumentsGet()); for (size_t i = 0; i < dims.size(); i++) o.d(p->ConditionalArgumentGet(i)); for (unsigned i = 0; i < p->NumStatesGet(); i++) o.d(p->ProbabilityGet(i)); Rng r(7); D().reset(Draws::CASE, 7); std::vector<Sample<int>> l; p->SampleFrom(l, 6, SampleMthd::DEFAULT, NULL); for (auto &x : l) o.d(x.ValueGet()); std::vector<int> save; for (size_t i = 0; i < dims.size(); i++) save.push_back(p->ConditionalArgumentGet(i)); int tot = 1; for (int x : dims) tot *= x; for (int t = 0; t < tot; t++) { int q = t; for (size_t i = 0; i < dims.size(); i++) { p->ConditionalArgumentSet(i, q % dims[i]); q /= dims[i]; } for (unsigned i = 0; i < p->NumStatesGet(); i++) o.d(p->ProbabilityGet(i)); } for (size_t i = 0; i < dims.size(); i++) p->ConditionalArgumentSet(i, save[i]); }
  void use(Rng &g, Obs &o) { for (size_t i = 0; i < dims.size(); i++) p->ConditionalArgumentSet(i, g.below(dims[i])); for (unsigned i = 0; i < p->NumStatesGet(); i++) o.d(p->ProbabilityGet(i)); std::vector<Sample<int>> l; p->SampleFrom(l, g.range(0, 4), SampleMthd::DEFAULT, NULL); for (auto &x : l) o.d(x.ValueGet()); } };
inline Any *fresh(Rng &g) {
  int n = g.range(1, 4);
  switch (g.below(7)) {
    case 0: return new BG(gauss(g, n)); case 1: return new BU(new Uniform(cv(rd(rvec(g, n))), cv(rd(rvec(g, n, 0.1, 3))))); case 2: return new BD(dprior(g, n + 1)); case 3: return new BM_(mc(g, g.range(1, 12), n));
    case 4: { Mixture<CV> *m = new Mixture<CV>((unsigned)n); for (int k = g.range(1, 3); k--;) { Up<Gaussian> q(gauss(g, n)); m->AddComponent(*q); } return new BX(m); }
    case 5: { Lin L; L.random(g, n, g.range(1, 3), g.range(1, 3), g.flip(), 0.1, 2, 0); L.make(); return new BL(L.pdf.release()); }
    default: { std::vector<int> d; for (int i = g.range(1, 3); i--;) d.push_back(g.range(1, 3)); DiscreteConditionalPdf *p = new DiscreteConditionalPdf(n, d.size(), d.data()); BC *b = new BC(p, d); int tot = 1; for (int x : d) tot *= x; for (int t = 0; t < tot; t++) { std::vector<int> c; int q = t; for (int x : d) { c.push_back(q % x); q /= x; } for (int i = 0; i < n; i++) p->ProbabilitySet(1.0 / n, i, c); } return b; }
  }
}
inline void pool(Rng &g, Obs &o) {
  std::vector<Up<Any>> v; v.emplace_back(fresh(g));
  for (int i = g.range(4, 30); i--;) {
    int w = g.below(8); size_t k = v.empty() ? 0 : g.below(v.size());
    if (v.empty() || (w == 0 && v.size() < 12)) v.emplace_back(fresh(g)); else if (w == 1 && v.size() < 12) v.emplace_back(v[k]->copy(g)); else if (w == 2) v.erase(v.begin() + k);
    else if (w == 3) { size_t a = g.below(v.size()); for (size_t t = 0; t < v.size(); t++) if (v[(a + t) % v.size()]->type() == v[k]->type()) { v[k]->assign(v[(a + t) % v.size()].get(), g); break; } } else if (w <= 5) v[k]->edit(g); else v[k]->use(g, o);
  }
  for (auto &x : v) x->use(g, o);
  while (!v.empty()) v.erase(v.begin() + g.below(v.size())); ev("pool_programs");
}
inline void algebra(Rng &g, Obs &o) {
  std::vector<BM> m; for (int i = 0; i < 3; i++) { int n = g.range(1, 5); m.push_back(bm(rinv(g, n, 0.3, 3))); }
  for (int i = g.range(3, 15); i--;) {
    BM &a = m[g.below(3)]; int n = a.rows(); BM &b = m[g.below(3)];
    switch (g.below(10)) {
      case 0: o(fm(a.inverse())); break; case 1: o.d(a.determinant()); break; case 2: { CV w; BM U, W; BM c = bm(rd(rmat(g, n + g.below(3), n))); c.SVD(w, U, W); Vec s = fv(w); std::sort(s.begin(), s.end()); o(s); break; }
      case 3: { SM s = sm(rspd(g, n, 0.2, 3)); BM L; s.cholesky_semidefinite(L); o(fm(L)); o(fm(s.inverse())); o.d(s.determinant()); break; } case 4: { BM c = bm(rd(rmat(g, n + g.below(3), n))); o(fm(c.pseudoinverse())); break; }
      case 5: if (b.rows() == a.columns()) { BM c = a * b; o(fm(c)); m[g.below(3)] = bm(rinv(g, n, 0.3, 3)); } break; case 6: b = a; break; case 7: { BM c = a; c.resize(g.range(1, 6), g.range(1, 6), true, true); c = 0.0; o(fm(c)); break; }
      case 8: { CV x = a * cv(rd(rvec(g, n))); o(fv(x)); RV r = a.rowCopy(g.range(1, n)); o(fv(r)); CV c = a.columnCopy(g.range(1, n)); o(fv(c)); o.d(r * c); o(fm(c * r)); o(fv(x.vectorAdd(c))); o(fv(x.sub(1, g.range(1, n)))); o(fm(a.sub(1, g.range(1, n), 1, g.range(1, n)))); break; }
      default: { SM s; a = (BM)(a.transpose()); BM sq = a * a.transpose(); sq.convertToSymmetricMatrix(s); o(fm(s)); break; }
    }
  }
  ev("algebra_programs");
}
static const int kinds = 10;
inline void program(int kind, Rng g, uint64_t draws, Obs &o) {
  D().reset(Draws::CASE, draws);
  switch (kind) { case 0: kalman(g, o); break; case 1: squareroot(g, o); break; case 2: histogram(g, o); break; case 3: discretepf(g, o); break; case 4: case 5: particle(g, o); break; case 6: mixture(g, o); break; case 7: smoothers(g, o); break; case 8: pool(g, o); break; default: algebra(g, o); }
}
// library diagnostics must not count as memory of the library
struct Null : public std::streambuf { int overflow(int c) { return c; } std::streamsize xsputn(const char *, std::streamsize n) { return n; } };
struct Silence { Null n; std::streambuf *a, *b; Silence() : a(std::cout.rdbuf(&n)), b(std::cerr.rdbuf(&n)) {} ~Silence() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
}
#endif
