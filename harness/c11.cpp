// C11: system and measurement models answer for the pdf and the arguments they are asked about.
#include "gsample.h"
#include "nonlin.h"
#include <model/discretesystemmodel.h>
#include <pdf/discreteconditionalpdf.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a history of 5-30 queries and edits on a linear, nonlinear or discrete system model and a measurement model, with and without inputs or sensor parameters: prediction, covariance, derivative, probability of a transition or measurement, simulation, "
  "model sizes and flags, replacement of model matrices and of the whole pdf. The arguments of every query are fresh, so an answer computed from a former query's arguments shows. Arguments are at times repeated or close to the former ones. A recording distribution checks that Simulate draws once, with the given state, input, sampling method and sampling arguments. Answers are compared with a long-double evaluation; "
  "simulation is observed through replaced draws. Non-trivial: at least three queries. Distinct: hash of the reference answers.";
long H::ncases(bool t) { return t ? 60000 : 4000; }

template <class F> static void dens(const std::string &k, Rng &g, const Vec &mu, const Mat &S, F get) {
  int n = mu.size(); Vec z = outlier(g, mu, S);
  Vec d = z - mu; ld e = dot(d, inv(S) * d), sc = 20 + maxabs(mu);
  near(k, get(cv(z)), gaussdens(z, mu, S), 1e-280L, 1e-10L * (1 + e + maxabs(inv(S) * d) * n * sc) * std::max<ld>(1, condest(S)));
}
static void continuous(Ctx &c) {
  Rng &g = c.g; bool linear = g.flip(), sys = g.flip(); int n = g.range(1, 4), o = sys ? n : g.range(1, 4), k = g.range(1, 3); bool two = g.flip();
  Lin L, L2; NL N, N2; std::unique_ptr<NLPdf> np, np2; 
  L.random(g, o, n, k, two, 0.1, 5, 0); N.random(g, o, n, k, two, 2);
  bool two2 = g.flip(); L2.random(g, o, n, k, two2, 0.1, 5, 0); N2.random(g, o, n, k, two2, 2); L2.make(); np2.reset(new NLPdf(&N2));
  std::unique_ptr<AnalyticSystemModelGaussianUncertainty> S; std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty> M;
  if (linear) { L.make(); if (sys) S.reset(new LinearAnalyticSystemModelGaussianUncertainty(L.pdf.get())); else M.reset(new LinearAnalyticMeasurementModelGaussianUncertainty(L.pdf.get())); }
  else { np.reset(new NLPdf(&N)); if (sys) S.reset(new AnalyticSystemModelGaussianUncertainty(np.get())); else M.reset(new AnalyticMeasurementModelGaussianUncertainty(np.get())); }
  Lin *cl = &L; NL *cn = &N; bool ct = two; c.note(fmt("%s %s state=%d out=%d two=%d ", linear ? "linear" : "nonlinear", sys ? "system" : "measurement", n, o, two) + (linear ? L.desc() : N.desc()));
  int ops = g.range(5, 30), q = 0;
  for (int i = 0; i < ops; i++) {
    Vec x = rd(rvec(g, n)), u = rd(rvec(g, ct ? k : 0)); CV xb = cv(x), ub = cv(u); 
    Vec mu = linear ? cl->f(x, u) : cn->f(x, u); Mat C = linear ? cl->Q : cn->cov(x), F = linear ? cl->A : cn->F(x); ld sc = 10 + maxabs(mu);
    std::string pre = sys ? "system" : "measurement"; int w = g.below(10); q++;
    // what the model says about itself
    if (sys) { check(S->SystemWithoutInputs() == !ct, pre + ":without-inputs"); check(S->StateSizeGet() == o, pre + ":state-size"); check(S->SystemPdfGet() == (linear ? (ConditionalPdf<CV, CV> *)cl->pdf.get() : cn == &N ? (ConditionalPdf<CV, CV> *)np.get() : np2.get()), pre + ":pdf"); }
    else { check(M->SystemWithoutSensorParams() == !ct, pre + ":without-parameters"); check(M->MeasurementSizeGet() == o, pre + ":measurement-size"); check(M->MeasurementPdfGet() == (linear ? (ConditionalPdf<CV, CV> *)cl->pdf.get() : cn == &N ? (ConditionalPdf<CV, CV> *)np.get() : np2.get()), pre + ":pdf"); }
    if (w == 0) near(pre + ":prediction", fv(sys ? S->PredictionGet(ub, xb) : M->PredictionGet(ub, xb)), mu, sc, 1e-11L);
    else if (w == 1) near(pre + ":covariance", fm(sys ? S->CovarianceGet(ub, xb) : M->CovarianceGet(ub, xb)), C, 1, 1e-12L);
    else if (w == 2) near(pre + ":derivative", fm(sys ? S->df_dxGet(ub, xb) : M->df_dxGet(ub, xb)), F, 1, 1e-12L);
    else if (w <= 5) { dens(pre + ":probability", g, mu, C, [&](const CV &z) { return (double)(sys ? (ct ? S->ProbabilityGet(z, xb, ub) : S->ProbabilityGet(z, xb)) : (ct ? M->ProbabilityGet(z, xb, ub) : M->ProbabilityGet(z, xb))); }); ev("probabilities"); }
    else if (w <= 7) {
      SampleMthd me = g.flip() ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY; bool def = g.flip(0.3);
      auto one = [&]() -> Vec { if (sys) return fv(ct ? (def ? S->Simulate(xb, ub) : S->Simulate(xb, ub, me)) : (def ? S->Simulate(xb) : S->Simulate(xb, me))); return fv(ct ? (def ? M->Simulate(xb, ub) : M->Simulate(xb, ub, me)) : (def ? M->Simulate(xb) : M->Simulate(xb, me))); };
      gaussian_sampler(pre + ":simulate", g, mu, C, false, [&](Vec &v) { v = one(); return true; }, [&](std::vector<Vec> &v, int kk) { for (int j = 0; j < kk; j++) v.push_back(one()); return true; }); ev("simulations");
    } else if (w == 8 && linear) {
      if (g.flip() || !ct) { cl->A = newmat(g, cl->A, rd(rmat(g, o, n))); if (sys) { auto *m = static_cast<LinearAnalyticSystemModelGaussianUncertainty *>(S.get()); m->ASet(bm(cl->A)); same(pre + ":matrix-get", fm(m->AGet()), cl->A); } else { auto *m = static_cast<LinearAnalyticMeasurementModelGaussianUncertainty *>(M.get()); m->HSet(bm(cl->A)); same(pre + ":matrix-get", fm(m->HGet()), cl->A); } }
      else { cl->B = newmat(g, cl->B, rd(rmat(g, o, k))); if (sys) { auto *m = static_cast<LinearAnalyticSystemModelGaussianUncertainty *>(S.get()); m->BSet(bm(cl->B)); same(pre + ":matrix-get", fm(m->BGet()), cl->B); same(pre + ":matrix-get", fm(m->AGet()), cl->A); } else { auto *m = static_cast<LinearAnalyticMeasurementModelGaussianUncertainty *>(M.get()); m->JSet(bm(cl->B)); same(pre + ":matrix-get", fm(m->JGet()), cl->B); same(pre + ":matrix-get", fm(m->HGet()), cl->A); } }
      c.note("edit"); ev("edits");
    } else if (w == 9) {   // replace the whole pdf
      cl = cl == &L ? &L2 : &L; cn = cn == &N ? &N2 : &N; ct = linear ? cl->two : cn->two;
      ConditionalPdf<CV, CV> *p = linear ? (ConditionalPdf<CV, CV> *)cl->pdf.get() : cn == &N ? (ConditionalPdf<CV, CV> *)np.get() : np2.get();
      if (sys) S->SystemPdfSet(p); else M->MeasurementPdfSet(p); c.note("replace pdf"); ev("pdf_replacements");
    }
    c.note("x=" + str(x) + " u=" + str(u));
  }
  c.nontrivial = q >= 3; ev(sys ? "system_models" : "measurement_models");
}
// what Simulate asks of the distribution: its arguments, the sampling method and the sampling arguments, exactly once
struct Rec : public ConditionalPdf<CV, CV> {
  mutable int n; mutable int me; mutable void *ar; mutable Vec x, u; Vec out; int na; Rec(int d, int na_) : ConditionalPdf<CV, CV>(d, na_), n(0), me(-1), ar(0), na(na_) {} Rec *Clone() const { return new Rec(*this); }
  bool SampleFrom(Sample<CV> &s, const SampleMthd m, void *a) const { n++; me = (int)m; ar = a; x = fv(ConditionalArgumentGet(0)); u = na > 1 ? fv(ConditionalArgumentGet(1)) : Vec(); s.ValueSet(cv(out)); return true; }
};
static void relay(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 4), k = g.range(1, 3); bool sys = g.flip(); Rec r1(n, 1), r2(n, 2); int tag[3]; Rec *r = g.flip() ? &r1 : &r2; std::unique_ptr<SystemModel<CV>> S; std::unique_ptr<MeasurementModel<CV, CV>> M;
  if (g.flip()) { if (sys) S.reset(new SystemModel<CV>(r)); else M.reset(new MeasurementModel<CV, CV>(r)); } else { if (sys) { S.reset(new SystemModel<CV>()); S->SystemPdfSet(r); } else { M.reset(new MeasurementModel<CV, CV>()); M->MeasurementPdfSet(r); } }
  std::string pre = sys ? "system" : "measurement"; Vec x = rd(rvec(g, n)), u = rd(rvec(g, k));
  for (int o = g.range(3, 12); o--;) {
    if (g.flip(0.15)) { r = r == &r1 ? &r2 : &r1; if (sys) S->SystemPdfSet(r); else M->MeasurementPdfSet(r); ev("pdf_replacements"); }
    check(sys ? S->SystemWithoutInputs() == (r == &r1) : M->SystemWithoutSensorParams() == (r == &r1), pre + ":relay:arity"); check(sys ? S->StateSizeGet() == n : M->MeasurementSizeGet() == n, pre + ":relay:size");
    if (g.flip(0.7)) x = newvec(g, x, rd(rvec(g, n))); if (g.flip(0.7)) u = newvec(g, u, rd(rvec(g, k))); int before = r->n; r->out = rd(rvec(g, n)); int me = g.below(4); void *a = g.flip() ? &tag[g.below(3)] : NULL; bool def = g.flip(0.2); bool two = r == &r2; CV xb = cv(x), ub = cv(u); SampleMthd sm_ = (SampleMthd)me; Vec got;
    if (sys) got = fv(two ? (def ? S->Simulate(xb, ub) : S->Simulate(xb, ub, sm_, a)) : (def ? S->Simulate(xb) : S->Simulate(xb, sm_, a))); else got = fv(two ? (def ? M->Simulate(xb, ub) : M->Simulate(xb, ub, sm_, a)) : (def ? M->Simulate(xb) : M->Simulate(xb, sm_, a)));
    same(pre + ":relay:result", got, r->out); check(r->n == before + 1, pre + ":relay:number-of-draws", fmt("%d", r->n - before)); check(r->me == (def ? (int)SampleMthd::DEFAULT : me), pre + ":relay:sampling-method", fmt("%d instead of %d", r->me, me)); check(r->ar == (def ? NULL : a), pre + ":relay:sampling-arguments"); same(pre + ":relay:state", r->x, x); if (two) same(pre + ":relay:input", r->u, u); ev("relayed_simulations"); c.h = mixd(c.h, x[0]);
  }
  c.nontrivial = true;
}
static void discrete(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 6), k = g.range(1, 4); bool two = g.flip(); int dims[2] = {n, k}; DiscreteConditionalPdf p(n, two ? 2 : 1, dims); std::vector<std::vector<double>> T(n * (two ? k : 1));
  for (int u = 0; u < (two ? k : 1); u++) for (int x = 0; x < n; x++) { std::vector<double> &t = T[u * n + x]; double s = 0; for (int y = 0; y < n; y++) { t.push_back(g.flip(0.3) ? 0 : g.u01()); s += t.back(); } if (s == 0) { t[x] = 1; s = 1; } for (auto &v : t) v /= s; std::vector<int> a(1, x); if (two) a.push_back(u); for (int y = 0; y < n; y++) p.ProbabilitySet(t[y], y, a); }
  DiscreteSystemModel m0(&p); DiscreteSystemModel m(m0); c.note(fmt("discrete states=%d inputs=%d", n, two ? k : 0)); check(m.NumStatesGet() == (unsigned)n, "discrete:number-of-states"); check(m.SystemWithoutInputs() == !two, "discrete:without-inputs"); check(m.SystemPdfGet() == &p, "discrete:pdf");
  int ops = g.range(5, 40);
  for (int o = 0; o < ops; o++) {
    int x = g.below(n), u = two ? g.below(k) : 0, y = g.below(n); std::vector<double> &t = T[u * n + x];
    near("discrete:probability", (double)(two ? m.ProbabilityGet(y, x, u) : m.ProbabilityGet(y, x)), t[y], 0, 0);
    if (g.flip(0.3)) {
      int N = 40; std::vector<double> us(N); double off = g.uni(0.05, 0.95); for (int i = 0; i < N; i++) us[i] = (i + off) / N; D().reset(Draws::CASE, g.next()); D().script(us, std::vector<double>()); std::vector<long> cnt(n, 0);
      for (int i = 0; i < N; i++) { int r = two ? m.Simulate(x, u) : m.Simulate(x); check(r >= 0 && r < n && t[r] > 0, "discrete:simulate-outside-support", fmt("state %d", r)); cnt[r]++; }
      if (D().nu == N) for (int i = 0; i < n; i++) check(std::fabs(cnt[i] - N * t[i]) <= 3, "discrete:simulate-frequency", fmt("state %d: %ld of %d, expected %g", i, cnt[i], N, N * t[i])); ev("simulations");
    }
  }
  ev("discrete_models"); c.nontrivial = n > 1;
}
void H::run(Ctx &c) { int k = c.g.below(20); if (k < 14) continuous(c); else if (k < 18) discrete(c); else relay(c); }
