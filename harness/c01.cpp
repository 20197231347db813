// C01: linear-Gaussian filtering is the exact Bayesian posterior, whatever the history of updates.
#include "kalman.h"
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a random history on one filter (extended or iterated extended Kalman filter): state dimension 1-12, 1-2 system models with "
  "and without inputs, 1-3 measurement models of different dimensions with and without sensor parameters, singular process noise and "
  "singular priors included, covariances of ordinary size or scaled by 1e-10 to 1e6, 4-30 operations (now and then 80-200) chosen from the eight Update overloads, model edits (system/measurement matrices, noise mean, noise "
  "covariance), copying the posterior and Reset to another prior. After every operation the posterior is compared with a long-double Joseph-form recursion "
  "started from the posterior before it, and with the recursion over the whole history. Non-trivial: the history holds at least one prediction "
  "and one measurement update. Distinct: hash of the reference posteriors.";
long H::ncases(bool t) { return t ? 120000 : 6000; }

void H::run(Ctx &c) {
  Rng &g = c.g;
  int n = g.flip(0.1) ? g.range(7, 12) : g.range(1, 6);
  double sc = g.flip(0.2) ? std::pow(10.0, g.range(-3, 3)) : 1.0;
  GState ref; ref.mu = rd(rvec(g, n, -10 * sc, 10 * sc));
  int z0 = g.flip(0.15) ? g.range(1, n) : 0;
  // the units of the noise: tiny, ordinary or huge covariances
  double s2 = g.flip(0.2) ? std::pow(10.0, 2 * g.range(-5, 3)) : 1.0, s1 = std::sqrt(s2);
  ref.P = rspd(g, n, 0.05 * s2, 20 * s2, z0);
  Gaussian prior(cv(ref.mu), sm(ref.P));
  std::unique_ptr<InnovationCheck> ic;
  int kind = g.range(0, 2);
  std::unique_ptr<KalmanFilter> f;
  if (kind == 0) { f.reset(new ExtendedKalmanFilter(&prior)); ev("filters_EKF"); }
  else {
    if (kind == 2) ic.reset(new InnovationCheck(std::pow(10.0, g.range(-8, 2))));
    f.reset(new IteratedExtendedKalmanFilter(&prior, g.range(1, 6), ic.get())); ev("filters_IEKF");
  }
  int nsys = g.range(1, 2), nmeas = g.range(1, 3), k = g.range(1, 3);
  std::vector<Lin> S(nsys), M(nmeas);
  std::set<int> dims;
  for (auto &s : S) { s.random(g, n, n, k, g.flip(), 0.01 * s2, 3 * s2, g.flip(0.2) ? g.range(1, n) : 0); s.makesys(); }
  for (auto &m : M) { int d = g.flip(0.05) ? g.range(6, 12) : g.range(1, 5); dims.insert(d); m.random(g, d, n, g.range(1, 3), g.flip(0.4), 0.2 * s2, 5 * s2, 0); m.makemeas(); }
  if (g.flip(0.2)) {   // announce the measurement dimensions beforehand, as real-time users do
    std::vector<unsigned> v; for (int d : dims) v.push_back(d);
    f->AllocateMeasModel(v);
    if (kind == 0) static_cast<ExtendedKalmanFilter *>(f.get())->AllocateMeasModelExt(v); else static_cast<IteratedExtendedKalmanFilter *>(f.get())->AllocateMeasModelIExt(v);
    ev("op_allocate_ahead");
  }
  c.note(fmt("n=%d kind=%d", n, kind) + " prior mu=" + str(ref.mu) + " P=" + str(ref.P));
  cmpg("initial-posterior-is-prior", fg(*f->PostGet()), ref, 0, 0, 0);
  GState whole = ref; ld amp = 1; bool wholeok = true;
  std::vector<std::unique_ptr<Gaussian>> priors;
  std::vector<GState> priorvals;
  int ops = g.flip(0.03) ? g.range(80, 200) : g.range(4, 30), np = 0, nm = 0;
  bool force = false; Vec lu, ls;
  for (int o = 0; o < ops; o++) {
    GState before = fg(*f->PostGet());
    int w = g.below(12);
    if (w == 0 || force || maxabs(before.P) > 1e8L * s2 || maxabs(before.mu) > 1e9L) {   // diverged: an unstable system without measurements
      GState last = priorvals.empty() ? ref : priorvals.back(); bool near_ = g.flip(0.3);   // also a prior close to the one before
      int re = priors.size() && g.flip(0.3) ? g.below(priors.size()) : -1; if (re >= 0) std::swap(priors[re], priors.back()), std::swap(priorvals[re], priorvals.back());   // the same object as an earlier prior, perhaps edited by the caller
      std::unique_ptr<Gaussian> p; if (re >= 0) { p = std::move(priors.back()); priors.pop_back(); priorvals.pop_back(); last = fg(*p); if (g.flip()) { p->ExpectedValueSet(cv(near_ ? nudge(g, last.mu) : rd(rvec(g, n, -10, 10)))); if (g.flip()) p->CovarianceSet(sm(near_ ? nudgespd(g, last.P) : rspd(g, n, 0.05 * s2, 20 * s2))); } ev("op_reset_same_object"); }
      else p.reset(new Gaussian(cv(near_ ? g.flip() ? last.mu : nudge(g, last.mu) : rd(rvec(g, n, -10, 10))), sm(near_ ? nudgespd(g, last.P) : rspd(g, n, 0.05 * s2, 20 * s2))));
      f->Reset(p.get()); force = false; whole = fg(*p); amp = 1; wholeok = true;
      cmpg("reset-posterior-is-new-prior", fg(*f->PostGet()), whole, 0, 0, 0);
      priorvals.push_back(whole); priors.push_back(std::move(p));
      c.note("Reset mu=" + str(whole.mu) + " P=" + str(whole.P)); ev("op_reset"); continue;
    }
    if (w == 1) {
      bool sy = g.flip(); Lin &l = sy ? S[g.below(nsys)] : M[g.below(nmeas)];
      switch (g.below(4)) {
        case 0: l.A = newmat(g, l.A, rd(rmat(g, l.A.r, l.A.c))); if (sy) l.sys->ASet(bm(l.A)); else l.meas->HSet(bm(l.A)); break;
        case 1: if (l.two) { l.B = newmat(g, l.B, rd(rmat(g, l.B.r, l.B.c))); if (sy) l.sys->BSet(bm(l.B)); else l.meas->JSet(bm(l.B)); } break;
        case 2: l.mu = newvec(g, l.mu, rd(rvec(g, l.A.r, -2, 2))); l.pdf->AdditiveNoiseMuSet(cv(l.mu)); break;
        case 3: l.Q = newspd(g, l.Q, rspd(g, l.A.r, 0.2 * s2, 5 * s2)); l.pdf->AdditiveNoiseSigmaSet(sm(l.Q)); break;
      }
      c.note("edit model"); ev("op_edit_model");
      cmpg("posterior-changed-by-model-edit", fg(*f->PostGet()), before, 0, 0, 0);
      continue;
    }
    Lin &s = S[g.below(nsys)], &m = M[g.below(nmeas)];
    bool dos = w <= 4 || w >= 8, dom = w >= 5;
    Vec u = rd(rvec(g, s.two ? s.insize() : 0)), sp = rd(rvec(g, m.two ? m.insize() : 0));
    if (dos && s.two) { if (lu.size() == u.size() && g.flip(0.3)) u = g.flip() ? lu : nudge(g, lu); lu = u; }
    if (dom && m.two) { if (ls.size() == sp.size() && g.flip(0.3)) sp = g.flip() ? ls : nudge(g, ls); ls = sp; }
    GState want = before; ld smu = maxabs(before.mu), sP = maxabs(before.P), kappa = 1;
    GState pred = before, whole0 = whole;
    if (dos) {
      Vec x = s.f(before.mu, u);
      smu = std::max(smu * maxabs(s.A) * n + maxabs(s.mu) + (s.two ? maxabs(s.B) * maxabs(u) * s.insize() : 0), maxabs(x));
      sP = std::max(sP * maxabs(s.A) * maxabs(s.A) * n * n, maxabs(s.Q));
      want = kfpredict(before, x, s.A, s.Q); pred = want;
      whole = kfpredict(whole, s.f(whole.mu, u), s.A, s.Q); amp *= 1 + maxabs(s.A) * n;
      np++;
    }
    Vec z;
    if (dom) {
      Vec zh = m.f(want.mu, sp);
      z = zh; for (auto &q : z) q = (double)(q + g.uni(-5, 5) * s1 * (g.flip(0.1) ? 100 : 1));
      // now and then the measurement is exactly what the model predicts, or close to it
      int zs = g.below(12); bool exact = zs == 0 && !dos; if (exact) { z = fv(m.meas->PredictionGet(cv(sp), cv(want.mu))); ev("measurement_equals_prediction"); } else if (zs == 1) { z = zh; for (auto &q : z) q = (double)(q + g.uni(-1, 1) * std::pow(10.0, -g.range(3, 12))); }
      ld hs = maxabs(m.A) * n;
      Mat Sx = sym(m.A * want.P * T(m.A) + m.Q);
      kappa = condest(Sx);
      if (kappa > 1e6L) { force = true; whole = whole0; ev("ill_conditioned_steps_replaced"); continue; }
      ld gain = maxabs(want.P * T(m.A) * inv(Sx)) * m.out();
      smu = (smu * (1 + gain * hs) + gain * (maxabs(z) + maxabs(zh)) ) ;
      sP = sP * (1 + gain * hs) * (1 + gain * hs);
      want = kfupdate(want, z - zh, m.A, m.Q);
      whole = kfupdate(whole, z - m.f(whole.mu, sp), m.A, m.Q); amp *= (1 + gain * hs) * kappa;
      nm++;
    }
    Sens sens = sensitivity(before, [&](GState q) { if (dos) q = kfpredict(q, s.f(q.mu, u), s.A, s.Q); if (dom) q = kfupdate(q, z - m.f(q.mu, sp), m.A, m.Q); return q; });
    if (sens.wild) { force = true; whole = whole0; ev("ill_conditioned_steps_replaced"); continue; }
    ColumnVector ub = cv(u), sb = cv(sp), zb = cv(z); bool ok;
    SystemModel<ColumnVector> *ps = s.sys.get(); MeasurementModel<ColumnVector, ColumnVector> *pm = m.meas.get();
    if (dos && dom) {
      if (s.two && m.two) { ok = f->Update(ps, ub, pm, zb, sb); ev("op_sys_u_meas_s"); }
      else if (m.two) { ok = f->Update(ps, pm, zb, sb); ev("op_sys_meas_s"); }
      else if (s.two) { ok = f->Update(ps, ub, pm, zb); ev("op_sys_u_meas"); }
      else { ok = f->Update(ps, pm, zb); ev("op_sys_meas"); }
    } else if (dos) {
      if (s.two) { ok = f->Update(ps, ub); ev("op_sys_u"); } else { ok = f->Update(ps); ev("op_sys"); }
    } else {
      if (m.two) { ok = f->Update(pm, zb, sb); ev("op_meas_s"); } else { ok = f->Update(pm, zb); ev("op_meas"); }
    }
    if (dos) c.note("predict " + s.desc() + (s.two ? " u=" + str(u) : ""));
    if (dom) c.note("measure " + m.desc() + " z=" + str(z) + (m.two ? " s=" + str(sp) : ""));
    check(ok, "update-returned-false");
    GState got = fg(*f->PostGet());
    ld tol = 1e-11L * std::max<ld>(100, kappa * n);
    cmpg(dom ? "step-posterior" : "step-prediction", got, want, smu + 0.01L * sens.mu / tol, sP + 0.01L * sens.P / tol, tol);
    // the posterior stays a covariance: no direction of negative variance
    if (o % 5 == 0) {
      Vec d = rvec(g, n, -1, 1);
      check(dot(d, got.P * d) >= -1e-9L * (sP + maxabs(got.P)) * std::max<ld>(1, kappa), "negative-variance", str(got.P));
    }
    if (amp > 1e5L) wholeok = false;
    if (wholeok && maxabs(whole.P) < 1e6 * std::max(1.0, s2)) { cmpg("history-posterior", got, whole, smu + 10, sP, 1e-8L * amp); ev("history_comparisons"); }
  }
  same("prior-modified", fv(prior.ExpectedValueGet()), ref.mu);
  same("prior-modified", fm(prior.CovarianceGet()), ref.P);
  for (size_t i = 0; i < priors.size(); i++) { same("prior-modified", fv(priors[i]->ExpectedValueGet()), priorvals[i].mu); same("prior-modified", fm(priors[i]->CovarianceGet()), priorvals[i].P); }
  for (auto &s : S) { same("system-model-modified", fm(s.sys->AGet()), s.A); if (s.two) same("system-model-modified", fm(s.sys->BGet()), s.B); same("system-model-modified", fv(s.pdf->AdditiveNoiseMuGet()), s.mu); same("system-model-modified", fm(s.pdf->AdditiveNoiseSigmaGet()), s.Q); }
  for (auto &m : M) { same("measurement-model-modified", fm(m.meas->HGet()), m.A); if (m.two) same("measurement-model-modified", fm(m.meas->JGet()), m.B); same("measurement-model-modified", fv(m.pdf->AdditiveNoiseMuGet()), m.mu); same("measurement-model-modified", fm(m.pdf->AdditiveNoiseSigmaGet()), m.Q); }
  c.nontrivial = np && nm;
}
