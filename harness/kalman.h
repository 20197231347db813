// Linear-Gaussian models and the reference recursion (long double), shared by several monitors.
#ifndef VERIF_KALMAN_H
#define VERIF_KALMAN_H
#include "common.h"
#include <filter/extendedkalmanfilter.h>
#include <filter/iteratedextendedkalmanfilter.h>
#include <model/linearanalyticsystemmodel_gaussianuncertainty.h>
#include <model/linearanalyticmeasurementmodel_gaussianuncertainty.h>
#include <pdf/linearanalyticconditionalgaussian.h>
#include <pdf/gaussian.h>

namespace V {

struct GState { Vec mu; Mat P; };
inline GState fg(const BFL::Gaussian &g) { GState s; s.mu = fv(g.ExpectedValueGet()); s.P = fm(g.CovarianceGet()); return s; }

// x' = A x + B u + N(mu,Q)   or   z = H x + J s + N(mu,R)
struct Lin {
  Mat A, B; Vec mu; Mat Q;
  bool two;                           // a second conditional argument
  std::unique_ptr<BFL::LinearAnalyticConditionalGaussian> pdf;
  std::unique_ptr<BFL::LinearAnalyticSystemModelGaussianUncertainty> sys;
  std::unique_ptr<BFL::LinearAnalyticMeasurementModelGaussianUncertainty> meas;
  int out() const { return A.r; }
  int insize() const { return B.c; }
  void make() {
    BFL::Gaussian noise(cv(mu), sm(Q));
    if (two) { std::vector<BM> r; r.push_back(bm(A)); r.push_back(bm(B)); pdf.reset(new BFL::LinearAnalyticConditionalGaussian(r, noise)); }
    else pdf.reset(new BFL::LinearAnalyticConditionalGaussian(bm(A), noise));
  }
  void makesys() { make(); sys.reset(new BFL::LinearAnalyticSystemModelGaussianUncertainty(pdf.get())); }
  void makemeas() { make(); meas.reset(new BFL::LinearAnalyticMeasurementModelGaussianUncertainty(pdf.get())); }
  Vec f(const Vec &x, const Vec &u) const { Vec r = A * x + mu; if (two) r = r + B * u; return r; }
  void random(Rng &g, int o, int n, int k, bool two_, double qlo, double qhi, int zeros) {
    two = two_; A = rmat(g, o, n); if (g.flip()) A = A * (1 / sqrtl((ld)n)); A = rd(A); B = rd(rmat(g, o, two ? k : 0)); mu = rd(rvec(g, o, -2, 2));
    Q = rspd(g, o, qlo, qhi, zeros);
  }
  std::string desc() const { return "A=" + str(A) + (two ? " B=" + str(B) : "") + " mu=" + str(mu) + " Q=" + str(Q); }
};

inline GState kfpredict(const GState &s, const Vec &m, const Mat &F, const Mat &Q) { GState o; o.mu = m; o.P = sym(F * s.P * T(F) + Q); return o; }
inline GState kfupdate(const GState &s, const Vec &innov, const Mat &H, const Mat &R, ld *nis = 0) {
  Mat S = sym(H * s.P * T(H) + R), Si = inv(S), K = s.P * T(H) * Si;
  GState o; o.mu = s.mu + K * innov;
  Mat IKH = eye(s.P.r) - K * H;
  o.P = sym(IKH * s.P * T(IKH) + K * R * T(K));   // Joseph form: independent of the library's formula
  if (nis) *nis = dot(innov, Si * innov);
  return o;
}
// how much the numerical error of the innovation inverse can be amplified
inline ld condest(const Mat &S) { return maxabs(S) * maxabs(inv(S)) * S.r; }

// How much a relative error of 1e-10 in the state before an update changes the reference result (largest of three perturbations).
// A hundredth of it is allowed on top of the rounding tolerance; a step that is too sensitive to be judged is not run.
struct Sens { ld mu = 0, P = 0; bool wild = false; };
template <class F> Sens sensitivity(const GState &s, F step) {
  GState r = step(s); Sens o; Rng g(12345);
  for (int k = 0; k < 3; k++) {
    GState p = s; ld m = maxabs(s.mu), q = maxabs(s.P);
    for (auto &x : p.mu) x += 1e-10L * m * g.uni(-1, 1);
    for (int i = 0; i < p.P.r; i++) for (int j = 0; j <= i; j++) { ld e = 1e-10L * q * g.uni(-1, 1); p.P(i, j) += e; if (i != j) p.P(j, i) += e; }
    GState t = step(p); o.mu = std::max(o.mu, maxabs(t.mu - r.mu)); o.P = std::max(o.P, maxabs(t.P - r.P));
  }
  o.wild = !(o.mu <= 1e-4L * (1e-9L + maxabs(r.mu) + maxabs(s.mu) + sqrtl(maxabs(s.P))) && o.P <= 1e-4L * (maxabs(r.P) + maxabs(s.P)));
  return o;
}

inline void cmpg(const std::string &key, const GState &got, const GState &want, ld smu, ld sP, ld tol) {
  near(key + ":mean", got.mu, want.mu, smu, tol);
  near(key + ":covariance", got.P, want.P, sP, tol);
  for (int i = 0; i < got.P.r; i++) for (int j = 0; j < i; j++) check(fabsl(got.P(i, j) - got.P(j, i)) <= 1e-12L * (maxabs(got.P) + sP), key + ":covariance-not-symmetric", str(got.P));
}

}
#endif
