// C03: the square-root iterated extended Kalman filter on implicit (virtual) measurement models.
#include "nonlin.h"
#include <filter/SRiteratedextendedkalmanfilter.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty_implicit.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a random history (3-15 system, measurement and joint updates, Resets, explicit restarts) of the square-root filter with a user-defined implicit measurement "
  "model, linear or nonlinear, correlated or uncorrelated measurement noise, state dimension 1-5 (at times up to 10), measurement dimension 1-3 (at times up to 6), 1-5 (at times up to 25) iterations, covariances of different magnitudes. After every update mean and covariance "
  "are compared with a long-double Kalman reference and the square root must satisfy J J' = P. Non-trivial: a measurement update happened on a state of "
  "dimension >= 2. Distinct: hash of the reference posteriors.";
long H::ncases(bool t) { return t ? 150000 : 10000; }

struct Impl : public LinearAnalyticMeasurementModelGaussianUncertainty_Implicit {
  const NL *m; ColumnVector f, e; Matrix df, sr; SymmetricMatrix R; int ident; Vec x;
  Impl(const NL *m_, const Mat &R_, const Mat &sr_, int ident_) : m(m_), df(bm(m_->A)), sr(bm(sr_)), R(sm(R_)), ident(ident_) {}
  virtual const ColumnVector &fGet() const { return f; }
  virtual const int TypeGet() const { return 1; }
  virtual Matrix &dfGet(int) { return df; }
  virtual Matrix df_dxGet(const ColumnVector &, const ColumnVector &xx) { x = fv(xx); ev("model_evaluations"); return bm(m->F(x)); }
  virtual Matrix &df_dzGet(const ColumnVector &, const ColumnVector &) { return df; }
  virtual ColumnVector PredictionGet(const ColumnVector &, const ColumnVector &xx) { return cv(m->f(fv(xx), Vec())); }
  virtual ColumnVector ExpectedValueGet() { return cv(m->f(x, Vec())); }
  virtual SymmetricMatrix &CovarianceGet() { return R; }
  virtual SymmetricMatrix CovarianceGet(const ColumnVector &, const ColumnVector &) { return R; }
  virtual void Calculate(const ColumnVector &, const ColumnVector &, const Matrix &) {}
  virtual const Matrix &SRCovariance() const { return sr; }
  virtual const int &Is_Identity() const { return ident; }
};

void H::run(Ctx &c) {
  Rng &g = c.g;
  int n = g.flip(0.04) ? g.range(6, 10) : g.range(1, 5), iters = g.flip(0.04) ? g.range(6, 25) : g.range(1, 5);
  double s2 = g.flip(0.2) ? std::pow(10.0, 2 * g.range(-4, -1)) : 1.0, s1 = std::sqrt(s2);   // precise models: small covariances
  Gaussian prior(cv(rd(rvec(g, n, -3, 3))), sm(rspd(g, n, 0.05 * s2, 3 * s2)));
  SRIteratedExtendedKalmanFilter f(&prior, iters);
  int nsys = g.range(1, 2), nmeas = g.range(1, 2);
  std::vector<NL> S(nsys), M(nmeas);
  std::vector<std::unique_ptr<NLPdf>> ps; std::vector<std::unique_ptr<AnalyticSystemModelGaussianUncertainty>> sysm; std::vector<std::unique_ptr<Impl>> mm;
  std::vector<Mat> R;
  for (auto &s : S) { s.random(g, n, n, g.range(1, 3), g.flip(), g.flip() ? 0 : 1, s2); ps.emplace_back(new NLPdf(&s)); sysm.emplace_back(new AnalyticSystemModelGaussianUncertainty(ps.back().get())); }
  for (auto &m : M) {
    int d = g.flip(0.04) ? g.range(4, 6) : g.range(1, 3); m.random(g, d, n, 0, false, g.flip() ? 0 : 1);
    int ident = g.flip(0.4); Mat r = rspd(g, d, 0.1 * s2, 3 * s2);
    Mat q(d, d); if (ident && g.flip()) { for (int i = 0; i < d; i++) q(i, i) = r(i, i); r = q; for (int i = 0; i < d; i++) q(i, i) = sqrtl(q(i, i)); }
    else if (ident) { q = rspd(g, d, 0.3 * s1, 1.7 * s1); r = rd(q * q); }   // a symmetric square root
    R.push_back(r); mm.emplace_back(new Impl(&m, r, q, ident));
  }
  c.note(fmt("n=%d iterations=%d", n, iters) + " mu=" + str(fg(prior).mu) + " P=" + str(fg(prior).P));
  std::vector<std::unique_ptr<Gaussian>> keep;
  int ops = g.flip(0.03) ? 60 : g.range(3, 15);
  for (int o = 0; o < ops; o++) {
    GState before = fg(*f.PostGet());
    Mat J0 = fm(f.SRCovarianceGet());
    near("square-root", J0 * T(J0), before.P, maxabs(before.P) + 1e-3 * s2, 1e-8);
    int w = g.below(12);
    if (w == 0) {
      if (keep.size() && g.flip(0.3)) { if (g.flip()) { keep.back()->ExpectedValueSet(cv(rd(rvec(g, n, -3, 3)))); if (g.flip()) keep.back()->CovarianceSet(sm(rspd(g, n, 0.05 * s2, 3 * s2))); } ev("op_reset_same_object"); }
      else if (g.flip(0.3)) keep.emplace_back(new Gaussian(cv(before.mu), sm(rspd(g, n, 0.05 * s2, 3 * s2)))); else keep.emplace_back(new Gaussian(cv(rd(rvec(g, n, -3, 3))), sm(rspd(g, n, 0.05 * s2, 3 * s2))));
      f.Reset(keep.back().get()); cmpg("reset", fg(*f.PostGet()), fg(*keep.back()), 0, 0, 0); ev("op_reset"); c.note("Reset mu=" + str(fg(*keep.back()).mu) + " P=" + str(fg(*keep.back()).P));
      continue;
    }
    if (w == 1) {   // explicit restart: state estimate and its square root
      Mat P = rspd(g, n, 0.05 * s2, 3 * s2); ColumnVector x = cv(rd(rvec(g, n, -3, 3))); SymmetricMatrix Pb = sm(P); Matrix L(n, n);
      Pb.cholesky_semidefinite(L);
      f.PriorSet(x, Pb); f.SRCovarianceSet(L); ev("op_priorset"); c.note("PriorSet " + str(fv(x)) + str(P));
      same("prior-set", fv(f.PostGet()->ExpectedValueGet()), fv(x)); same("prior-set", fm(f.PostGet()->CovarianceGet()), P);
      continue;
    }
    int si = g.below(nsys), mi = g.below(nmeas); NL &s = S[si], &m = M[mi];
    bool dos = w <= 5 || w >= 9, dom = w >= 6;
    Vec u = rd(rvec(g, s.two ? s.B.c : 0)), z;
    if (dom) { z = m.f(dos ? s.f(before.mu, u) : before.mu, Vec()); for (auto &v : z) v = (double)(v + g.uni(-1, 1) * s1); }
    ld kappa = 1;
    auto step = [&](const GState &b4) {
      GState r = b4; if (dos) r = kfpredict(b4, s.f(b4.mu, u), s.F(b4.mu), s.cov(b4.mu));
      if (!dom) return r;
      GState st = r; Vec xi = st.mu;
      for (int i = 0; i < iters; i++) { Mat Hi = m.F(xi); kappa = std::max(kappa, condest(sym(Hi * st.P * T(Hi) + R[mi]))); r = kfupdate(st, z - (m.f(xi, Vec()) + Hi * (st.mu - xi)), Hi, R[mi]); xi = r.mu; }
      return r;
    };
    Sens sens = sensitivity(before, step); GState want = step(before);
    if (sens.wild || kappa > 1e5L || maxabs(before.P) > 1e5L * s2) { ev("ill_conditioned_steps_replaced"); f.Reset(&prior); c.note("Reset to the first prior"); continue; }
    ColumnVector ub = cv(u), zb = cv(z), sb(1); sb = 0.0; bool ok;
    SystemModel<ColumnVector> *a = sysm[si].get(); MeasurementModel<ColumnVector, ColumnVector> *b = mm[mi].get();
    bool direct = g.flip(0.3);
    if (dos && dom) { if (s.two) ok = f.Update(a, ub, b, zb, sb); else ok = f.Update(a, b, zb, sb); }
    else if (dos) { if (direct) { if (s.two) f.SysUpdate(a, ub); else f.SysUpdate(a); ok = true; } else ok = s.two ? f.Update(a, ub) : f.Update(a); }
    else { if (direct) { f.MeasUpdate(b, zb); ok = true; } else ok = g.flip() ? f.Update(b, zb, sb) : f.Update(b, zb); }
    if (dos) c.note("predict " + s.desc() + " u=" + str(u));
    if (dom) c.note("measure " + m.desc() + " R=" + str(R[mi]) + " z=" + str(z));
    check(ok, "update-returned-false");
    cmpg(dom ? "square-root-measurement-update" : "square-root-prediction", fg(*f.PostGet()), want, s1 + 1e-3L * s1 * maxabs(before.mu) + 1e-6L * (1 + maxabs(before.mu)) + 1e4L * sens.mu, s2 + maxabs(before.P) + 1e4L * sens.P, 1e-6L);
    ev(dom ? "op_measurement" : "op_prediction");
    if (dom && n > 1) c.nontrivial = true;
  }
}
