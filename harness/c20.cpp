// C20: Rauch-Tung-Striebel smoother.
#include "nonlin.h"
#include <smoother/rauchtungstriebel.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is (a) a linear-Gaussian history of 1-12 steps (state dimension 1-5 (at times up to 10), time-varying models with and without inputs, missing measurements, covariances scaled by 1e-8 to 1e4), filtered by the library's Kalman filter and smoothed backwards; every smoothed mean and covariance is compared with the marginals of the joint Gaussian over all states given all measurements, solved as one "
  "long-double system of equations; or (b) 1-10 smoother steps with user-defined nonlinear models and arbitrary filtered estimates, compared with the step equations linearised at the filtered estimate. Resets are interleaved; filtered estimates, priors and models must stay unchanged. "
  "Non-trivial: at least one backward step. Distinct: hash of the reference posteriors.";
long H::ncases(bool t) { return t ? 150000 : 10000; }

static void cmps(const std::string &k, const GState &got, const GState &want, ld tol, ld sm, ld sp) { cmpg(k, got, want, sm, sp, tol); }

static void batch(Ctx &c) {
  Rng &g = c.g; int n = g.flip(0.03) ? g.range(6, 10) : g.range(1, 5), Tn = g.range(1, 12), nm = g.range(1, 3); if (n * Tn > 40) Tn = 40 / n; double s2 = g.flip(0.2) ? std::pow(10.0, 2 * g.range(-4, 2)) : 1.0, s1 = std::sqrt(s2);
  std::vector<Lin> S(g.range(1, 2)), M(nm); for (auto &s : S) { s.random(g, n, n, 2, g.flip(), 0.1 * s2, 3 * s2, 0); s.A = rd(s.A * 0.6L); s.makesys(); } for (auto &m : M) { m.random(g, g.range(1, 3), n, 2, g.flip(0.3), 0.2 * s2, 3 * s2, 0); m.makemeas(); }
  GState p0; p0.mu = rd(rvec(g, n)); p0.P = rspd(g, n, 0.2 * s2, 5 * s2); Gaussian prior(cv(p0.mu), sm(p0.P)); ExtendedKalmanFilter f(&prior); int d = n * (Tn + 1);
  Mat L(d, d); Vec h(d, 0.0L); auto add = [&](const Mat &J, const Mat &W, const Vec &r, const std::vector<int> &at) {   // residual r - J x_at with information W
    Mat JW = T(J) * W; Mat A = JW * J; Vec b = JW * r; int nb = at.size(); for (int p = 0; p < nb * n; p++) { h[at[p / n] * n + p % n] += b[p]; for (int q = 0; q < nb * n; q++) L(at[p / n] * n + p % n, at[q / n] * n + q % n) += A(p, q); } };
  add(eye(n), inv(p0.P), p0.mu, {0}); std::vector<std::unique_ptr<Gaussian>> filt; std::vector<int> si; std::vector<Vec> us; filt.emplace_back(new Gaussian(*f.PostGet())); c.note(fmt("n=%d T=%d prior ", n, Tn) + str(p0.mu) + str(p0.P));
  for (int t = 0; t < Tn; t++) {
    int k = g.below(S.size()); Lin &s = S[k]; Vec u = rd(rvec(g, s.two ? 2 : 0)); si.push_back(k); us.push_back(u); check(s.two ? f.Update(s.sys.get(), cv(u)) : f.Update(s.sys.get()), "filter-update");
    Mat J(n, 2 * n); for (int i = 0; i < n; i++) { J(i, n + i) = 1; for (int j = 0; j < n; j++) J(i, j) = -s.A(i, j); } Vec r = s.mu; if (s.two) r = r + s.B * u; add(J, inv(s.Q), r, {t, t + 1}); c.note("system " + s.desc() + " u=" + str(u));
    if (g.flip(0.7)) { Lin &m = M[g.below(nm)]; Vec sp = rd(rvec(g, m.two ? 2 : 0)); Vec z = m.f(fg(*f.PostGet()).mu, sp); for (auto &v : z) v = (double)(v + g.uni(-2, 2) * s1); check(m.two ? f.Update(m.meas.get(), cv(z), cv(sp)) : f.Update(m.meas.get(), cv(z)), "filter-update"); Vec q = z - m.mu; if (m.two) q = q - m.B * sp; add(m.A, inv(m.Q), q, {t + 1}); c.note("measurement " + m.desc() + " z=" + str(z) + " s=" + str(sp)); }
    filt.emplace_back(new Gaussian(*f.PostGet()));
  }
  Mat C = inv(L); Vec x = C * h; auto marg = [&](int t) { GState s; s.mu = Vec(x.begin() + t * n, x.begin() + (t + 1) * n); s.P = Mat(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s.P(i, j) = C(t * n + i, t * n + j); return s; };
  std::vector<GState> fv0; for (auto &p : filt) fv0.push_back(fg(*p)); Gaussian last(*filt[Tn]); GState lv = fg(last); std::unique_ptr<Gaussian> other(new Gaussian(cv(rvec(g, n)), sm(rspd(g, n)))); bool viareset = g.flip(0.3);
  RauchTungStriebel rts(viareset ? other.get() : &last); if (viareset) { if (g.flip()) rts.Update(S[si[Tn - 1]].sys.get(), cv(us[Tn - 1]), filt[Tn - 1].get()); rts.Reset(&last); other.reset(); ev("op_reset"); }
  auto get = [&]() { return fg(*dynamic_cast<Gaussian *>(rts.PostGet())); }; ld sm_ = 1, sp_ = s2; for (auto &q : fv0) { sm_ = std::max(sm_, maxabs(q.mu)); sp_ = std::max(sp_, maxabs(q.P)); } ld cond = 1; for (auto &s : S) cond = std::max(cond, condest(s.Q));
  cmps("smoothed-last", get(), marg(Tn), 1e-8L * cond, sm_, sp_);
  for (int t = Tn - 1; t >= 0; t--) {
    Lin &s = S[si[t]]; bool ok = s.two ? rts.Update(s.sys.get(), cv(us[t]), filt[t].get()) : rts.Update(s.sys.get(), filt[t].get()); check(ok, "update-returned-false"); cmps("smoothed", get(), marg(t), 1e-7L * cond, sm_, sp_); c.nontrivial = true; ev("linear_backward_steps");
    Vec v = rvec(g, n, -1, 1); check(dot(v, get().P * v) >= -1e-9L * sp_ * cond, "negative-variance");
    check(dot(v, get().P * v) <= dot(v, fv0[t].P * v) + 1e-8L * sp_ * cond, "smoothing-increased-the-variance");
  }
  for (size_t i = 0; i < filt.size(); i++) { same("filtered-estimate-modified", fv(filt[i]->ExpectedValueGet()), fv0[i].mu); same("filtered-estimate-modified", fm(filt[i]->CovarianceGet()), fv0[i].P); } same("prior-modified", fv(last.ExpectedValueGet()), lv.mu); same("prior-modified", fm(last.CovarianceGet()), lv.P);
  for (auto &s : S) { same("model-modified", fm(s.sys->AGet()), s.A); same("model-modified", fm(s.pdf->AdditiveNoiseSigmaGet()), s.Q); }
}
static void nonlin(Ctx &c) {
  Rng &g = c.g; int n = g.flip(0.04) ? g.range(5, 9) : g.range(1, 4), Tn = g.range(1, 10); double s2 = g.flip(0.2) ? std::pow(10.0, 2 * g.range(-4, 2)) : 1.0; std::vector<NL> S(2); std::vector<std::unique_ptr<NLPdf>> pd; std::vector<std::unique_ptr<AnalyticSystemModelGaussianUncertainty>> sy; for (auto &s : S) { s.random(g, n, n, 2, g.flip(), g.uni(0, 2), s2); pd.emplace_back(new NLPdf(&s)); sy.emplace_back(new AnalyticSystemModelGaussianUncertainty(pd.back().get())); c.note("system " + s.desc()); }
  GState lg; Vec lu; auto rg = [&]() { bool again = !lg.mu.empty() && g.flip(0.3); lg.mu = again ? g.flip() ? lg.mu : nudge(g, lg.mu) : rd(rvec(g, n, -3, 3)); lg.P = again && g.flip(0.7) ? nudgespd(g, lg.P) : rspd(g, n, 0.1 * s2, 3 * s2); return std::unique_ptr<Gaussian>(new Gaussian(cv(lg.mu), sm(lg.P))); }; std::vector<std::unique_ptr<Gaussian>> keep; keep.push_back(rg()); RauchTungStriebel rts(keep[0].get());
  for (int t = 0; t < Tn; t++) {
    GState cur = fg(*dynamic_cast<Gaussian *>(rts.PostGet())); int w = g.below(10);
    if (w == 0) { if (g.flip(0.4)) { if (g.flip()) { std::unique_ptr<Gaussian> q = rg(); keep.back()->ExpectedValueSet(q->ExpectedValueGet()); if (g.flip()) keep.back()->CovarianceSet(q->CovarianceGet()); } ev("op_reset_same_object"); } else keep.push_back(rg()); rts.Reset(keep.back().get()); cmpg("reset", fg(*dynamic_cast<Gaussian *>(rts.PostGet())), fg(*keep.back()), 0, 0, 0); ev("op_reset"); continue; }
    int k = g.below(2); NL &s = S[k]; Vec u = rd(rvec(g, s.two ? 2 : 0)); if (s.two) { if (lu.size() && g.flip(0.3)) u = g.flip() ? lu : nudge(g, lu); lu = u; } std::unique_ptr<Gaussian> f = rg(); GState fl = fg(*f); c.note("step filtered=" + str(fl.mu) + str(fl.P) + " u=" + str(u));
    Mat F = s.F(fl.mu), Pp = sym(F * fl.P * T(F) + s.cov(fl.mu)), K = fl.P * T(F) * inv(Pp); GState want; want.mu = fl.mu + K * (cur.mu - s.f(fl.mu, u)); want.P = sym(fl.P - K * (Pp - cur.P) * T(K));
    check(s.two ? rts.Update(sy[k].get(), cv(u), f.get()) : rts.Update(sy[k].get(), f.get()), "update-returned-false"); cmpg("nonlinear-step", fg(*dynamic_cast<Gaussian *>(rts.PostGet())), want, 1 + maxabs(cur.mu) + maxabs(fl.mu), s2 + maxabs(cur.P) + maxabs(fl.P), 1e-8L); same("filtered-estimate-modified", fv(f->ExpectedValueGet()), fl.mu); same("filtered-estimate-modified", fm(f->CovarianceGet()), fl.P); c.nontrivial = true; ev("nonlinear_backward_steps");
  }
}
void H::run(Ctx &c) { if (c.g.flip(0.6)) batch(c); else nonlin(c); }
