// C02: extended and iterated extended Kalman filters on nonlinear models.
#include "nonlin.h"
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a random history (3-15 updates through all Update overloads, some Resets) of an extended or iterated extended Kalman filter on user-defined nonlinear system and "
  "measurement models (mean A x + B u + a sin(Wx+phi), state-dependent covariance), state dimension 1-4 (at times up to 9), measurement dimensions 1-3 (at times up to 7), 1-8 (at times up to 40) iterations, noise covariances of ordinary size or scaled down to 1e-8, now and then long histories, "
  "with and without a minimal-innovation check. After every update the posterior is compared with a long-double reference of the (iterated) extended Kalman "
  "filter started from the posterior before it; the normalised innovation squared is queried between updates and must not disturb the posterior. "
  "Non-trivial: at least one nonlinear measurement update happened. Distinct: hash of the reference posteriors.";
long H::ncases(bool t) { return t ? 200000 : 10000; }

void H::run(Ctx &c) {
  Rng &g = c.g;
  int n = g.flip(0.04) ? g.range(5, 9) : g.range(1, 4);
  double s2 = g.flip(0.2) ? std::pow(10.0, 2 * g.range(-4, -1)) : 1.0, s1 = std::sqrt(s2);   // precise models: small covariances
  Gaussian prior(cv(rd(rvec(g, n, -3, 3))), sm(rspd(g, n, 0.05 * s2, 3 * s2)));
  int kind = g.range(0, 2), iters = g.flip(0.04) ? g.range(9, 40) : g.range(1, 8); double mininn = 0;
  std::unique_ptr<InnovationCheck> ic; std::unique_ptr<KalmanFilter> f;
  if (kind == 0) f.reset(new ExtendedKalmanFilter(&prior));
  else {
    if (kind == 2) { mininn = s2 * std::pow(10.0, g.uni(-6, 1)); ic.reset(new InnovationCheck(mininn)); }
    f.reset(new IteratedExtendedKalmanFilter(&prior, iters, ic.get()));
  }
  int nsys = g.range(1, 2), nmeas = g.range(1, 3);
  std::vector<NL> S(nsys), M(nmeas);
  for (auto &s : S) s.random(g, n, n, g.range(1, 3), g.flip(), g.uni(0, 2), s2);
  for (auto &m : M) m.random(g, g.flip(0.04) ? g.range(4, 7) : g.range(1, 3), n, g.range(1, 3), g.flip(0.4), g.uni(0, 1.5), s2);
  std::vector<std::unique_ptr<NLPdf>> ps, pm;
  std::vector<std::unique_ptr<AnalyticSystemModelGaussianUncertainty>> sysm;
  std::vector<std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty>> measm;
  for (auto &s : S) { ps.emplace_back(new NLPdf(&s)); sysm.emplace_back(new AnalyticSystemModelGaussianUncertainty(ps.back().get())); }
  for (auto &m : M) { pm.emplace_back(new NLPdf(&m)); measm.emplace_back(new AnalyticMeasurementModelGaussianUncertainty(pm.back().get())); }
  c.note(fmt("n=%d kind=%d iterations=%d mininn=%.17g", n, kind, iters, mininn) + " mu=" + str(fg(prior).mu) + " P=" + str(fg(prior).P));
  int ops = g.flip(0.03) ? 60 : g.range(3, 15); Vec lu, ls;
  for (int o = 0; o < ops; o++) {
    GState before = fg(*f->PostGet());
    int w = g.below(14);
    if (w == 0) {
      Gaussian p(cv(g.flip(0.3) ? nudge(g, fg(prior).mu) : rd(rvec(g, n, -3, 3))), sm(g.flip(0.3) ? nudgespd(g, fg(prior).P) : rspd(g, n, 0.05 * s2, 3 * s2)));
      f->Reset(&p); cmpg("reset", fg(*f->PostGet()), fg(p), 0, 0, 0); ev("op_reset");
      c.note("Reset mu=" + str(fg(p).mu) + " P=" + str(fg(p).P));
      if (g.flip()) { f->Reset(&p); prior.ExpectedValueSet(p.ExpectedValueGet()); f->Reset(&prior); cmpg("reset", fg(*f->PostGet()), fg(prior), 0, 0, 0); }
      f->Reset(&prior);  // p goes out of scope; the filter may keep a pointer to its prior
      continue;
    }
    int si = g.below(nsys), mi = g.below(nmeas);
    NL &s = S[si], &m = M[mi];
    if (kind == 0 && w == 1) {   // NIS: no sensor parameters in its interface
      for (int q = 0; q < nmeas; q++) if (!M[q].two) {
        Vec z = rd(M[q].f(before.mu, Vec())); for (auto &v : z) v = (double)(v + g.uni(-3, 3) * s1);
        ld nis; kfupdate(before, z - M[q].f(before.mu, Vec()), M[q].F(before.mu), M[q].cov(before.mu), &nis);
        double got = static_cast<ExtendedKalmanFilter *>(f.get())->NisGet(measm[q].get(), cv(z));
        c.note("NIS z=" + str(z)); near("nis", got, nis, 0.01, 1e-7); cmpg("nis-changed-posterior", fg(*f->PostGet()), before, 0, 0, 0); ev("op_nis");
      }
      continue;
    }
    bool dos = w <= 5 || w >= 10, dom = w >= 6;
    Vec u = rd(rvec(g, s.two ? s.B.c : 0)), sp = rd(rvec(g, m.two ? m.B.c : 0)), z;
    if (dos && s.two) { if (lu.size() == u.size() && g.flip(0.3)) u = g.flip() ? lu : nudge(g, lu); lu = u; }
    if (dom && m.two) { if (ls.size() == sp.size() && g.flip(0.3)) sp = g.flip() ? ls : nudge(g, ls); ls = sp; }
    if (dom) { z = m.f(dos ? s.f(before.mu, u) : before.mu, sp); double zr = s1 * (g.flip(0.1) ? 0 : g.flip(0.1) ? 1e-6 : 2); for (auto &v : z) v = (double)(v + g.uni(-zr, zr)); }
    int done = 0; ld kappa = 1;
    auto step = [&](const GState &b4) {
      GState r = b4; done = 0; kappa = 1;
      if (dos) r = kfpredict(b4, s.f(b4.mu, u), s.F(b4.mu), s.cov(b4.mu));
      if (!dom) return r;
      GState st = r; Vec xi = st.mu;
      for (int i = 0; i < (kind ? iters : 1); i++) {
        Vec prev = xi; Mat Hi = m.F(xi), Ri = m.cov(xi);
        kappa = std::max(kappa, condest(sym(Hi * st.P * T(Hi) + Ri)));
        r = kfupdate(st, z - (m.f(xi, sp) + Hi * (st.mu - xi)), Hi, Ri); xi = r.mu; done++;
        if (kind == 2) { Vec d = xi - prev; ld q = dot(d, d); if (fabsl(q - mininn) < 1e-5L * mininn) kappa = INFINITY; if (q < mininn) break; }   // too close to the threshold to call
      }
      return r;
    };
    Sens sens = sensitivity(before, step); GState want = step(before);
    // iterating can be a chaotic map, and a filter can diverge: such steps cannot be judged and are not run
    if (sens.wild || kappa > 1e6L || maxabs(before.P) > 1e6L * s2) { ev("ill_conditioned_steps_replaced"); f->Reset(&prior); c.note("Reset to the first prior"); continue; }
    if (dom) { ev(fmt("iterations_%d", done)); if (done < iters) ev("stopped_by_innovation_check"); }
    ColumnVector ub = cv(u), sb = cv(sp), zb = cv(z); bool ok;
    SystemModel<ColumnVector> *a = sysm[si].get(); MeasurementModel<ColumnVector, ColumnVector> *b = measm[mi].get();
    if (dos && dom) {
      if (s.two && m.two) ok = f->Update(a, ub, b, zb, sb); else if (m.two) ok = f->Update(a, b, zb, sb);
      else if (s.two) ok = f->Update(a, ub, b, zb); else ok = f->Update(a, b, zb);
    } else if (dos) ok = s.two ? f->Update(a, ub) : f->Update(a);
    else ok = m.two ? f->Update(b, zb, sb) : f->Update(b, zb);
    if (dos) c.note("predict " + s.desc() + " u=" + str(u));
    if (dom) c.note("measure " + m.desc() + " z=" + str(z) + " s=" + str(sp));
    check(ok, "update-returned-false");
    ld tol = kind == 0 ? 1e-8L : 1e-7L;
    cmpg(dom ? "nonlinear-measurement-update" : "nonlinear-prediction", fg(*f->PostGet()), want, s1 + 1e-6L * (1 + maxabs(before.mu)) + 0.01L * sens.mu / tol, s2 + maxabs(before.P) + 0.01L * sens.P / tol, tol);
    ev(dom ? "op_measurement" : "op_prediction"); if (dom) c.nontrivial = true;
  }
}
