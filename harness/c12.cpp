// C12: particle filters: propagation through the proposal, importance weights, time step.
#include "pf.h"
#include "nonlin.h"
#include <filter/particlefilter.h>
#include <filter/bootstrapfilter.h>
#include <filter/EKparticlefilter.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a history of 3-12 updates (all Update overloads, with and without inputs and sensor parameters, Resets to priors of other sizes) of a generic particle filter with a separate proposal, a bootstrap filter or an EKF-proposal particle filter; "
  "system, proposal and measurement densities are user-defined (Laplace, Gaussian, bounded support) and log what the filter asks. Resampling is kept off. After every update each particle must be the value its proposal returned for its predecessor, "
  "and its weight the long-double importance weight (old weight x likelihood x system/proposal); for the EKF proposal the reference runs one extended Kalman filter per particle. Impossible measurements must be reported. "
  "Non-trivial: at least one weight update with two or more particles. Distinct: hash of the reference weights.";
long H::ncases(bool t) { return t ? 40000 : 3000; }

static void weights(const std::string &k, const Vec &got, const Vec &raw, const std::vector<char> &safe) { Vec w = norml(raw); for (size_t i = 0; i < w.size(); i++) near(k, got[i], w[i], safe[i] ? 1e-290L : 1e-12L, 1e-7L); }

static void generic(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 3), N = g.flip(0.03) ? g.range(200, 600) : g.range(1, 40), d = g.range(1, 3), ku = g.range(1, 2), ks = g.range(1, 2); bool boot = g.flip(); Rng sr(g.next());
  std::vector<Kern> S(2), Q(2), M(2); std::vector<std::unique_ptr<KernPdf>> sp, qp, mp; std::vector<std::unique_ptr<SystemModel<CV>>> sm_; std::vector<std::unique_ptr<MeasurementModel<CV, CV>>> mm;
  for (int i = 0; i < 2; i++) {
    S[i].random(g, n, n, ku, g.flip(), g.below(3), g.uni(0.5, 2)); Q[i] = S[i]; Q[i].kind = g.below(3); Q[i].b = g.uni(0.5, 2); Q[i].off = rd(rvec(g, n, -1, 1)); if (g.flip(0.15)) Q[i].hole = g.uni(0.3, 1); M[i].random(g, d, n, ks, g.flip(0.4), g.flip(0.7) ? g.below(2) : 2, g.uni(0.3, 3));
    sp.emplace_back(new KernPdf(&S[i], &sr)); qp.emplace_back(new KernPdf(&Q[i], &sr)); mp.emplace_back(new KernPdf(&M[i], &sr)); sm_.emplace_back(new SystemModel<CV>(sp[i].get())); mm.emplace_back(new MeasurementModel<CV, CV>(mp[i].get()));
    c.note("system " + S[i].desc() + " proposal " + Q[i].desc() + " measurement " + M[i].desc());
  }
  MCPdf<CV> prior(N, n), post(g.flip() ? N : 3, n); fillprior(g, prior, N, n, g.flip()); if (g.flip(0.2)) oddweights(g, prior); Parts p0 = parts(&prior); bool own = g.flip(); double th = g.flip() ? 1e-6 : 0; int per = th == 0 ? 1000000 : 0;
  std::unique_ptr<ParticleFilter<CV, CV>> f; 
  if (boot) f.reset(own ? new BootstrapFilter<CV, CV>(&prior, &post, per, th) : new BootstrapFilter<CV, CV>(&prior, per, th)); else f.reset(own ? new ParticleFilter<CV, CV>(&prior, &post, qp[0].get(), per, th) : new ParticleFilter<CV, CV>(&prior, qp[0].get(), per, th));
  c.note(fmt("N=%d n=%d boot=%d own-post=%d", N, n, boot, own)); std::vector<std::unique_ptr<MCPdf<CV>>> keep; if (own) check(f->PostGet() == &post, "given-posterior-not-used");
  Parts cur = parts(f->PostGet()); for (int i = 0; i < N; i++) same("initial-particles", cur.x[i], p0.x[i]); near("initial-weights", cur.w, p0.w, 0, 1e-12L);
  int ops = g.flip(0.03) ? 60 : g.range(3, 12), step = 0; Vec lu, lz, ls; std::vector<std::unique_ptr<KernPdf>> old;
  for (int o = 0; o < ops; o++) {
    Parts b = parts(f->PostGet()); int w = g.below(12);
    if (w == 0) {
      bool re = keep.size() && g.flip(0.3); int N2 = re ? keep.back()->NumSamplesGet() : g.flip() ? N : g.range(1, 40); if (!re) keep.emplace_back(new MCPdf<CV>(N2, n)); else ev("op_reset_same_object"); if (!re || g.flip()) fillprior(g, *keep.back(), N2, n, false); Parts p = parts(keep.back().get()); f->Reset(keep.back().get()); N = N2; Parts q = parts(f->PostGet()); c.note(fmt("Reset N=%d", N));
      check(q.x.size() == p.x.size(), "reset:particles"); for (int i = 0; i < N; i++) same("reset:particles", q.x[i], p.x[i]); near("reset:weights", q.w, p.w, 0, 1e-12L); ev("op_reset"); continue;
    }
    if (g.flip(0.06)) {   // other distributions in the same models, with or without inputs
      int i = g.below(2); if (g.flip()) { std::unique_ptr<KernPdf> o1 = std::move(sp[i]); old.push_back(std::move(qp[i])); S[i].random(g, n, n, ku, g.flip(), g.below(3), g.uni(0.5, 2)); Q[i] = S[i]; Q[i].off = rd(rvec(g, n, -1, 1)); sp[i].reset(new KernPdf(&S[i], &sr)); qp[i].reset(new KernPdf(&Q[i], &sr)); sm_[i]->SystemPdfSet(sp[i].get()); if (boot) old.push_back(std::move(o1)); }
      else { std::unique_ptr<KernPdf> o1 = std::move(mp[i]); M[i].random(g, d, n, ks, g.flip(0.4), g.flip(0.7) ? g.below(2) : 2, g.uni(0.3, 3)); mp[i].reset(new KernPdf(&M[i], &sr)); mm[i]->MeasurementPdfSet(mp[i].get()); } c.note("replace pdf system " + S[i].desc() + " proposal " + Q[i].desc() + " measurement " + M[i].desc()); ev("op_replace_pdf"); lu.clear(); ls.clear();
    }
    int si = g.below(2), mi = g.below(2); bool dos = w <= 4 || w >= 8, dom = w >= 5;
    Kern &s = S[si], &m = M[mi]; KernPdf *prop = boot ? sp[si].get() : (dos && dom) ? qp[si].get() : sp[si].get(); const Kern *pk = prop->k; if (dos && !boot) { f->ProposalSet(prop); check(f->ProposalGet() == prop, "proposal-get"); }
    Vec u = rd(rvec(g, s.two ? ku : 0)), sv = rd(rvec(g, m.two ? ks : 0)), z;
    if (dom) { int j = g.below(N); Vec x = dos ? pk->centre(b.x[j], u) : b.x[j]; z = m.centre(x, sv); for (auto &v : z) v = (double)(v + g.uni(-1, 1) * (g.flip(0.1) ? 30 : 1)); if (lz.size() && g.flip(0.2)) { z = lz; ev("measurement_repeated"); } lz = z; }
    if (dos && s.two) { if (lu.size() && g.flip(0.3)) u = g.flip() ? lu : nudge(g, lu); lu = u; }
    if (dom && m.two) { if (ls.size() && g.flip(0.3)) sv = g.flip() ? ls : nudge(g, ls); ls = sv; }
    for (auto &p : sp) p->clear(); for (auto &p : qp) p->clear(); for (auto &p : mp) p->clear();
    CV ub = cv(u), sb = cv(sv), zb = cv(z); bool ok; SystemModel<CV> *ps = sm_[si].get(); MeasurementModel<CV, CV> *pm = mm[mi].get();
    if (dos && dom) { if (s.two && m.two) ok = f->Update(ps, ub, pm, zb, sb); else if (m.two) ok = f->Update(ps, pm, zb, sb); else if (s.two) ok = f->Update(ps, ub, pm, zb); else ok = f->Update(ps, pm, zb); ev("op_joint"); }
    else if (dos) { ok = s.two ? f->Update(ps, ub) : f->Update(ps); ev("op_system"); } else { ok = m.two ? f->Update(pm, zb, sb) : f->Update(pm, zb); ev("op_measurement"); }
    c.note(fmt("update sys=%d(%d) meas=%d(%d)", dos, si, dom, mi) + " u=" + str(u) + " z=" + str(z) + " s=" + str(sv));
    Parts a = parts(f->PostGet()); check((int)a.x.size() == N, "number-of-particles"); if (dos) step++; check(f->TimeStepGet() == step, "timestep", fmt("%d instead of %d", f->TimeStepGet(), step));
    if (dos) {
      check((int)prop->samples.size() == N, "number-of-proposals", fmt("%zu for %d particles", prop->samples.size(), N)); std::vector<char> used(N, 0);
      for (int i = 0; i < N; i++) { bool hit = false; for (int j = 0; j < N && !hit; j++) { const Call &q = prop->samples[j]; if (!used[j] && q.y == a.x[i] && q.x == b.x[i] && q.u == u) { used[j] = 1; hit = true; } } check(hit, "particle-not-from-its-proposal", "particle " + fmt("%d ", i) + str(b.x[i]) + " became " + str(a.x[i])); }
    } else for (int i = 0; i < N; i++) same("measurement-update-moved-particle", a.x[i], b.x[i]);
    Vec raw(N); ld tot = 0; std::vector<char> safe(N);
    for (int i = 0; i < N; i++) { raw[i] = b.w[i]; ld l = 1, q = 1, t = 1; if (dom) raw[i] *= l = m.dens(z, a.x[i], sv); if (dos && dom && !boot) { q = pk->dens(a.x[i], b.x[i], u); t = s.dens(a.x[i], b.x[i], u); if (q == 0) ev("proposal_density_zero"); raw[i] = q == 0 ? 0 : raw[i] * t / q; } tot += raw[i]; safe[i] = q == 0 || inrange({b.w[i], l, t, 1 / q}); }
    for (int i = 0; i < N; i++) if (!(tot > 0 && inrange({raw[i], 1 / tot}))) safe[i] = 0;
    if (tot < 1e-280L) { if (tot == 0) { check(!ok, "impossible-measurement-accepted"); ev("impossible_measurements"); } f->Reset(&prior); N = p0.x.size(); continue; }
    check(ok, "update-returned-false"); normal("posterior", a, N); weights(dos && dom ? "joint-weight" : dom ? "measurement-weight" : "system-weight", a.w, raw, safe); if (dom && N > 1) c.nontrivial = true;
  }
  Parts p1 = parts(&prior); for (size_t i = 0; i < p0.x.size(); i++) same("prior-modified", p1.x[i], p0.x[i]); same("prior-modified", p1.w, p0.w); ev(boot ? "bootstrap_filters" : "generic_filters");
}
static GState ekf(const GState &st, const NL &s, const Vec &u, const NL &m, const Vec &z, const Vec &sv) { GState p = kfpredict(st, s.f(st.mu, u), s.F(st.mu), s.cov(st.mu)); return kfupdate(p, z - m.f(p.mu, sv), m.F(p.mu), m.cov(p.mu)); }
static Mat cov(const Parts &p) { int n = p.x[0].size(); Vec mu(n, 0.0L); for (size_t i = 0; i < p.x.size(); i++) mu = mu + p.x[i] * p.w[i]; Mat C(n, n); for (size_t i = 0; i < p.x.size(); i++) { Vec d = p.x[i] - mu; C = C + outer(d, d) * p.w[i]; } return C; }
static void ekgo(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 3), N = g.range(n + 2, 15); std::vector<NL> S(2), M(2); std::vector<std::unique_ptr<NLPdf>> pd; std::vector<std::unique_ptr<AnalyticSystemModelGaussianUncertainty>> sm_; std::vector<std::unique_ptr<AnalyticMeasurementModelGaussianUncertainty>> mm;
  for (int i = 0; i < 2; i++) { S[i].random(g, n, n, 2, g.flip(), 1); M[i].random(g, g.range(1, 3), n, 2, g.flip(0.4), 1); pd.emplace_back(new NLPdf(&S[i])); sm_.emplace_back(new AnalyticSystemModelGaussianUncertainty(pd.back().get())); pd.emplace_back(new NLPdf(&M[i])); mm.emplace_back(new AnalyticMeasurementModelGaussianUncertainty(pd.back().get())); c.note("system " + S[i].desc() + " measurement " + M[i].desc()); }
  MCPdf<CV> prior(N, n); fillprior(g, prior, N, n, g.flip()); bool dyn = g.flip(); EKParticleFilter f(&prior, dyn ? 0 : 1000000, dyn ? 1e-6 : 0); c.note(fmt("EKPF N=%d n=%d", N, n));
  std::vector<std::unique_ptr<MCPdf<CV>>> keep; std::vector<Mat> P(N, cov(parts(f.PostGet()))); int step = 0, ops = g.range(2, 8);
  for (int o = 0; o < ops; o++) {
    Parts b = parts(f.PostGet());
    if (g.flip(0.1)) { bool re = keep.size() && g.flip(0.3); int N2 = re ? keep.back()->NumSamplesGet() : g.range(n + 2, 15); if (!re) keep.emplace_back(new MCPdf<CV>(N2, n)); else ev("op_reset_same_object"); if (!re || g.flip()) fillprior(g, *keep.back(), N2, n, false); f.Reset(keep.back().get()); N = N2; P.assign(N, cov(parts(f.PostGet()))); c.note(fmt("Reset N=%d", N)); ev("op_reset"); continue; }
    int si = g.below(2), mi = g.below(2); NL &s = S[si], &m = M[mi]; Vec u = rd(rvec(g, s.two ? 2 : 0)), sv = rd(rvec(g, m.two ? 2 : 0)); Vec z = m.f(s.f(b.x[g.below(N)], u), sv); for (auto &v : z) v = (double)(v + g.uni(-1, 1));
    CV ub = cv(u), sb = cv(sv), zb = cv(z); bool ok; SystemModel<CV> *ps = sm_[si].get(); MeasurementModel<CV, CV> *pm = mm[mi].get(); D().reset(Draws::CASE, g.next()); D().record = true;
    if (s.two && m.two) ok = f.Update(ps, ub, pm, zb, sb); else if (m.two) ok = f.Update(ps, pm, zb, sb); else if (s.two) ok = f.Update(ps, ub, pm, zb); else ok = f.Update(ps, pm, zb);
    c.note(fmt("EKPF update %d %d", si, mi) + " u=" + str(u) + " z=" + str(z) + " s=" + str(sv)); Parts a = parts(f.PostGet()); check((int)a.x.size() == N, "ekpf:number-of-particles"); step++; check(f.TimeStepGet() == step, "ekpf:timestep");
    Vec raw(N), dd; ld tot = 0; std::vector<Mat> P2;
    for (int i = 0; i < N; i++) {
      GState st; st.mu = b.x[i]; st.P = P[i]; GState q = ekf(st, s, u, m, z, sv); P2.push_back(q.P); Vec d = a.x[i] - q.mu; dd.push_back(dot(d, inv(q.P) * d));
      raw[i] = b.w[i] * gaussdens(z, m.f(a.x[i], sv), m.cov(a.x[i])) * gaussdens(a.x[i], s.f(b.x[i], u), s.cov(b.x[i])) / gaussdens(a.x[i], q.mu, q.P); tot += raw[i];
    }
    if (D().nn == (long)N * n) { std::vector<ld> e; for (int i = 0; i < N; i++) { ld q = 0; for (int j = 0; j < n; j++) { double v = D().seen_n[i * n + j]; q += (ld)v * v; } e.push_back(q); } std::vector<ld> r(dd.begin(), dd.end()); std::sort(e.begin(), e.end()); std::sort(r.begin(), r.end()); for (int i = 0; i < N; i++) near("ekpf:particle-not-from-its-proposal", r[i], e[i], 1, 1e-5L); }
    else for (int i = 0; i < N; i++) check(dd[i] < 100, "ekpf:particle-not-from-its-proposal", fmt("squared distance %Lg", dd[i]));
    D().record = false; P = P2; if (tot < 1e-250L) { f.Reset(&prior); N = parts(&prior).x.size(); P.assign(N, cov(parts(f.PostGet()))); continue; }
    check(ok, "ekpf:update-returned-false"); normal("ekpf:posterior", a, N); Vec w = norml(raw); for (int i = 0; i < N; i++) near("ekpf:weight", a.w[i], w[i], 1e-9L, 1e-5L); ev("op_ekpf"); c.nontrivial = true;
    near("ekpf:sample-weights", a.w, w, 0, 1e-5L);
  }
  ev("ekf_proposal_filters");
}
void H::run(Ctx &c) { if (c.g.flip(0.65)) generic(c); else ekgo(c); }
