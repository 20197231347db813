// A family of nonlinear analytic conditional Gaussians written by a "user" of the library:
//   mean = A x + B u + a .* sin(W x + phi),  covariance = C + diag(d .* (1 + cos(V x))^2/4)   (state dependent)
#ifndef VERIF_NONLIN_H
#define VERIF_NONLIN_H
#include "kalman.h"
#include <pdf/analyticconditionalgaussian.h>
#include <model/analyticsystemmodel_gaussianuncertainty.h>
#include <model/analyticmeasurementmodel_gaussianuncertainty.h>

namespace V {

struct NL {
  Mat A, B, W, Vm, C; Vec a, phi, d; bool two;
  void random(Rng &g, int o, int n, int k, bool two_, double amp, double s2 = 1) {
    two = two_; A = rd(rmat(g, o, n, -1, 1)); B = rd(rmat(g, o, two ? k : 0, -1, 1)); W = rd(rmat(g, o, n, -1, 1)); Vm = rd(rmat(g, o, n, -0.5, 0.5));
    a = rd(rvec(g, o, -amp, amp)); phi = rd(rvec(g, o, -3, 3)); d = rd(rvec(g, o, 0, 2)); C = rspd(g, o, 0.2, 2); if (s2 != 1) { C = rd(C * (ld)s2); d = rd(d * (ld)s2); }
  }
  Vec f(const Vec &x, const Vec &u) const {
    Vec r = A * x; if (two) r = r + B * u;
    Vec w = W * x;
    for (size_t i = 0; i < r.size(); i++) r[i] += a[i] * sinl(w[i] + phi[i]);
    return r;
  }
  Mat F(const Vec &x) const {
    Mat r = A; Vec w = W * x;
    for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r(i, j) += a[i] * cosl(w[i] + phi[i]) * W(i, j);
    return r;
  }
  Mat cov(const Vec &x) const {
    Mat r = C; Vec w = Vm * x;
    for (int i = 0; i < r.r; i++) { ld q = (1 + cosl(w[i])) / 2; r(i, i) += d[i] * q * q; }
    return r;
  }
  std::string desc() const { return "A=" + str(A) + " B=" + str(B) + " W=" + str(W) + " V=" + str(Vm) + " C=" + str(C) + " a=" + str(a) + " phi=" + str(phi) + " d=" + str(d); }
};

struct NLPdf : public BFL::AnalyticConditionalGaussian {
  const NL *m;
  NLPdf(const NL *m_) : BFL::AnalyticConditionalGaussian(m_->A.r, m_->two ? 2 : 1), m(m_) {}
  virtual NLPdf *Clone() const { return new NLPdf(*this); }
  Vec x() const { return fv(ConditionalArgumentGet(0)); }
  Vec u() const { return m->two ? fv(ConditionalArgumentGet(1)) : Vec(); }
  virtual CV ExpectedValueGet() const { ev("model_evaluations"); return cv(m->f(x(), u())); }
  virtual SM CovarianceGet() const { ev("model_evaluations"); return sm(m->cov(x())); }
  virtual BM dfGet(unsigned int i) const { ev("model_evaluations"); if (i == 0) return bm(m->F(x())); return bm(m->B); }
};

}
#endif
