// C13: when and how particle filters resample.
#include "pf.h"
#include "nonlin.h"
#include <filter/particlefilter.h>
#include <filter/bootstrapfilter.h>
#include <filter/EKparticlefilter.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a history of 3-14 updates (all Update overloads, Resets) of a generic, bootstrap or EKF-proposal particle filter with a resampling period 1-5 (at times up to 25, with up to 80 updates) or an effective-sample-size threshold, 1-40 particles (some cases 400-2500), "
  "unequal and zero weights, ordinary and extreme uniform draws. User-defined densities log which particles the filter propagates and weighs, which reveals the particle set between the steps of an update; the reference decides whether resampling is due and "
  "the monitor checks which particles survive, their weights, their multiplicities (chi-square in the large cases), and for the EKF proposal that each copy carries the covariance of its parent. Thresholds closer than 1e-6 to the effective sample size are skipped. "
  "Non-trivial: at least one resampling was due. Distinct: hash of the reference weights.";
long H::ncases(bool t) { return t ? 40000 : 3000; }

static ld ess(const Vec &w) { Vec q = norml(w); ld s = 0; for (ld x : q) s += x * x; return 1 / s; }
static int find(const std::vector<Vec> &v, const Vec &x) { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return i; return -1; }
// every element of `got` must be one of `from` with positive weight; large sets: multiplicities follow the weights
static void survivors(const std::string &k, const std::vector<Vec> &got, const std::vector<Vec> &from, const Vec &w, bool chi) {
  std::map<Vec, int> idx; for (size_t i = 0; i < from.size(); i++) idx.insert(std::make_pair(from[i], (int)i));
  Vec q = norml(w); std::vector<double> p(from.size(), 0); for (size_t i = 0; i < from.size(); i++) p[idx[from[i]]] += (double)q[i];
  std::vector<long> cnt(from.size(), 0);
  for (auto &x : got) { auto it = idx.find(x); check(it != idx.end(), k + ":not-an-existing-particle", str(x)); check(p[it->second] > 0, k + ":zero-weight-particle-survived", str(x)); cnt[it->second]++; }
  // drawing every one of 36 or more different particles exactly once has a probability below 1e-14
  if (from.size() >= 36 && idx.size() == from.size() && D().hostile == 0) { bool all = true; for (long n : cnt) if (n != 1) all = false; check(!all, k + ":due-but-not-done", fmt("all of %zu particles survived", from.size())); ev("resampling_really_done"); }
  if (chi) { check(!incredible(cnt, p), k + ":multiplicities", fmt("of %zu particles", got.size())); ev("multiplicity_tests"); }
}
static void equal(const std::string &k, const Vec &w) { for (ld x : w) near(k, x, 1.0L / w.size(), 0, 1e-9L); }
static void someweights(Rng &g, MCPdf<CV> &p) {   // unequal weights, some dominating, some zero
  std::vector<WeightedSample<CV>> l = p.ListOfSamplesGet(); int st = g.below(4);
  for (auto &s : l) s.WeightSet(st == 0 ? 1.0 : st == 1 ? g.uni(0.05, 1) : st == 2 ? std::pow(g.u01(), 6) + 1e-9 : (g.flip(0.4) ? 0.0 : g.u01() + 0.01));
  l[g.below(l.size())].WeightSet(g.uni(0.5, 3)); p.ListOfSamplesSet(l);
}

static void generic(Ctx &c) {
  Rng &g = c.g; bool big = g.flip(0.04); int n = g.range(1, 3), N = big ? g.range(400, 2500) : g.range(1, 40), d = g.range(1, 2); bool boot = g.flip(); Rng sr(g.next());
  Kern S, Q, M; S.random(g, n, n, 1, g.flip(), g.below(2), g.uni(0.5, 2)); Q = S; Q.kind = g.below(2); Q.b = g.uni(0.5, 2); M.random(g, d, n, 1, g.flip(0.4), g.flip(0.8) ? g.below(2) : 2, g.uni(0.3, 3));
  KernPdf sp(&S, &sr), qp(&Q, &sr), mp(&M, &sr); SystemModel<CV> sysm(&sp); MeasurementModel<CV, CV> mm(&mp);
  MCPdf<CV> prior(N, n); fillprior(g, prior, N, n, false); someweights(g, prior); Parts p0 = parts(&prior);
  bool dyn = g.flip(); bool lng = !big && g.flip(0.06); int per = dyn ? 0 : lng ? g.range(6, 25) : g.range(1, 5); double th = dyn ? (g.flip(0.15) ? N + 1.0 : g.flip(0.1) ? 0.5 : g.uni(0.6, N)) : 0; MCPdf<CV> post(N, n); bool own = g.flip(0.3);
  std::unique_ptr<ParticleFilter<CV, CV>> f;
  if (boot) f.reset(own ? new BootstrapFilter<CV, CV>(&prior, &post, per, th) : new BootstrapFilter<CV, CV>(&prior, per, th)); else f.reset(own ? new ParticleFilter<CV, CV>(&prior, &post, &qp, per, th) : new ParticleFilter<CV, CV>(&prior, &qp, per, th));
  c.note(fmt("N=%d n=%d boot=%d period=%d threshold=%.17g", N, n, boot, per, th) + " system " + S.desc() + " proposal " + Q.desc() + " measurement " + M.desc());
  if (g.flip(0.3)) D().hostile = g.flip() ? 1.0 : 0.3; if (big) D().hostile = 0;
  int step = 0, ops = big ? g.range(2, 6) : lng ? g.range(30, 80) : g.range(3, 14); std::vector<std::unique_ptr<MCPdf<CV>>> keep;
  for (int o = 0; o < ops; o++) {
    Parts b = parts(f->PostGet()); int w = g.below(12);
    if (w == 0) { bool re = keep.size() && g.flip(0.3); int N2 = re ? keep.back()->NumSamplesGet() : g.flip(0.7) ? N : g.range(1, 40); if (!re) keep.emplace_back(new MCPdf<CV>(N2, n)); else ev("op_reset_same_object"); if (!re || g.flip()) { fillprior(g, *keep.back(), N2, n, false); someweights(g, *keep.back()); } f->Reset(keep.back().get()); N = N2; c.note(fmt("Reset N=%d", N)); ev("op_reset"); continue; }
    bool dos = w <= 4 || w >= 8, dom = w >= 5; KernPdf *prop = boot ? &sp : (dos && dom) ? &qp : &sp; if (dos && !boot) f->ProposalSet(prop); const Kern *pk = prop->k;
    Vec u = rd(rvec(g, S.two ? 1 : 0)), sv = rd(rvec(g, M.two ? 1 : 0)), z;
    if (dom) { int j = g.below(N); for (int t = 0; t < 50 && b.w[j] == 0; t++) j = g.below(N); Vec x = dos ? pk->centre(b.x[j], u) : b.x[j]; z = M.centre(x, sv); for (auto &v : z) v = (double)(v + g.uni(-1, 1)); }
    sp.clear(); qp.clear(); mp.clear(); CV ub = cv(u), sb = cv(sv), zb = cv(z); bool ok; SystemModel<CV> *ps = &sysm; MeasurementModel<CV, CV> *pm = &mm;
    if (dos && dom) { if (S.two && M.two) ok = f->Update(ps, ub, pm, zb, sb); else if (M.two) ok = f->Update(ps, pm, zb, sb); else if (S.two) ok = f->Update(ps, ub, pm, zb); else ok = f->Update(ps, pm, zb); }
    else if (dos) ok = S.two ? f->Update(ps, ub) : f->Update(ps); else ok = M.two ? f->Update(pm, zb, sb) : f->Update(pm, zb);
    c.note(fmt("update sys=%d meas=%d step=%d", dos, dom, step) + " u=" + str(u) + " z=" + str(z) + " s=" + str(sv));
    Parts a = parts(f->PostGet()); check((int)a.x.size() == N, "number-of-particles", fmt("%zu instead of %d", a.x.size(), N));
    // 1. particles and weights before the weighting
    std::vector<Vec> y = b.x, from = b.x; Vec wt = b.w;
    if (dos) {
      check((int)prop->samples.size() == N, "number-of-proposals", fmt("%zu for %d particles", prop->samples.size(), N)); bool due = per && step > 0 && step % per == 0; from.clear(); y.clear(); for (auto &q : prop->samples) { from.push_back(q.x); y.push_back(q.y); }
      if (due) { survivors("periodic-resampling", from, b.x, b.w, big && D().hostile == 0); wt.assign(N, 1.0L / N); ev("periodic_resamplings"); c.nontrivial = true; }
      else { check(from == b.x, "resampled-when-not-due", fmt("period %d, %d completed steps", per, step)); if (per) ev("steps_without_periodic_resampling"); }
      step++;
    }
    Vec raw(N); ld tot = 0; std::vector<char> safe(N); for (int i = 0; i < N; i++) { raw[i] = wt[i]; ld l = 1, q = 1, t = 1; if (dom) raw[i] *= l = M.dens(z, y[i], sv); if (dos && dom && !boot) { q = pk->dens(y[i], from[i], u); t = S.dens(y[i], from[i], u); raw[i] = q == 0 ? 0 : raw[i] * t / q; } tot += raw[i]; safe[i] = q == 0 || inrange({wt[i], l, t, 1 / q}); }
    for (int i = 0; i < N; i++) if (!(tot > 0 && inrange({raw[i], 1 / tot}))) safe[i] = 0;
    if (tot < 1e-250L) { f->Reset(&prior); N = p0.x.size(); ev("impossible_measurements"); continue; }
    check(ok, "update-returned-false"); normal("posterior", a, N); Vec nw = norml(raw);
    // 2. after the weighting
    if (dom && th > 0) {
      ld e = ess(raw); if (fabsl(e - th) < 1e-6L * th) { ev("threshold_skips"); continue; }
      if (e < th) { survivors("threshold-resampling", a.x, y, nw, big && D().hostile == 0); equal("weights-after-resampling", a.w); ev("threshold_resamplings"); c.nontrivial = true; for (ld q : nw) c.h = mixd(c.h, (double)q); continue; }
      ev("weightings_above_threshold");
    }
    check(a.x == y, "particles-changed-without-resampling-due"); for (int i = 0; i < N; i++) near(per ? "weight-with-period" : "weight-with-threshold", a.w[i], nw[i], safe[i] ? 1e-290L : 1e-12L, 1e-7L);
  }
  check(f->TimeStepGet() == step, "timestep");
}

static GState ekf(const GState &st, const NL &s, const Vec &u, const NL &m, const Vec &z, const Vec &sv) { GState p = kfpredict(st, s.f(st.mu, u), s.F(st.mu), s.cov(st.mu)); return kfupdate(p, z - m.f(p.mu, sv), m.F(p.mu), m.cov(p.mu)); }
static Mat cov(const Parts &p) { int n = p.x[0].size(); Vec mu(n, 0.0L); for (size_t i = 0; i < p.x.size(); i++) mu = mu + p.x[i] * p.w[i]; Mat C(n, n); for (size_t i = 0; i < p.x.size(); i++) { Vec d = p.x[i] - mu; C = C + outer(d, d) * p.w[i]; } return C; }
static void ekgo(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 3); bool big = g.flip(0.04); int N = big ? g.range(200, 500) : g.range(n + 2, 15); NL S, M; S.random(g, n, n, 2, g.flip(), 1); M.random(g, g.range(1, 2), n, 2, g.flip(0.4), 1);
  NLPdf sp(&S), mp(&M); AnalyticSystemModelGaussianUncertainty sysm(&sp); AnalyticMeasurementModelGaussianUncertainty mm(&mp); SystemModel<CV> *ps = &sysm; MeasurementModel<CV, CV> *pm = &mm;
  MCPdf<CV> prior(N, n); fillprior(g, prior, N, n, g.flip()); bool dyn = g.flip(); bool lng = !big && !dyn && g.flip(0.05); int per = dyn ? 0 : lng ? g.range(4, 15) : g.range(1, 3); double th = dyn ? g.uni(0.8, N + 1) : 0; EKParticleFilter f(&prior, per, th);
  c.note(fmt("EKPF N=%d n=%d period=%d threshold=%.17g", N, n, per, th) + " system " + S.desc() + " measurement " + M.desc());
  std::vector<Mat> P(N, cov(parts(f.PostGet()))); int step = 0, ops = big ? 4 : lng ? g.range(16, 40) : g.range(3, 8); bool zero = dyn || g.flip(); std::vector<std::unique_ptr<MCPdf<CV>>> keep;
  for (int o = 0; o < ops; o++) {
    Parts b = parts(f.PostGet());
    if (g.flip(0.08)) { bool re = keep.size() && g.flip(0.3); int N2 = re ? keep.back()->NumSamplesGet() : g.range(n + 2, 15); if (!re) keep.emplace_back(new MCPdf<CV>(N2, n)); else ev("op_reset_same_object"); if (!re || g.flip()) fillprior(g, *keep.back(), N2, n, false); f.Reset(keep.back().get()); N = N2; P.assign(N, cov(parts(f.PostGet()))); c.note(fmt("Reset N=%d", N)); ev("op_reset"); big = false; continue; }
    Vec u = rd(rvec(g, S.two ? 2 : 0)), sv = rd(rvec(g, M.two ? 2 : 0)), z = M.f(S.f(b.x[g.below(N)], u), sv); for (auto &v : z) v = (double)(v + g.uni(-1, 1));
    std::vector<double> nr(N * n, 0.0); if (!zero) for (auto &q : nr) q = g.normal(); D().reset(Draws::CASE, g.next()); D().script(std::vector<double>(), nr); if (!big && g.flip(0.3)) D().hostile = 0.5;
    CV ub = cv(u), sb = cv(sv), zb = cv(z); bool ok;
    if (S.two && M.two) ok = f.Update(ps, ub, pm, zb, sb); else if (M.two) ok = f.Update(ps, pm, zb, sb); else if (S.two) ok = f.Update(ps, ub, pm, zb); else ok = f.Update(ps, pm, zb);
    c.note(fmt("EKPF update step=%d", step) + " u=" + str(u) + " z=" + str(z) + " s=" + str(sv)); Parts a = parts(f.PostGet()); check((int)a.x.size() == N, "ekpf:number-of-particles"); if (D().nn != (long)N * n) { ev("other_sampling_method"); return; }
    bool due = per && step > 0 && step % per == 0; step++; check(f.TimeStepGet() == step, "ekpf:timestep");
    std::vector<GState> E; for (int j = 0; j < N; j++) { GState st; st.mu = b.x[j]; st.P = P[j]; E.push_back(ekf(st, S, u, M, z, sv)); }
    if (dyn) {   // normal draws are zero: particle j moves to the mean of its own filter
      Vec raw(N); ld tot = 0; for (int j = 0; j < N; j++) { raw[j] = b.w[j] * gaussdens(z, M.f(E[j].mu, sv), M.cov(E[j].mu)) * gaussdens(E[j].mu, S.f(b.x[j], u), S.cov(b.x[j])) / gaussdens(E[j].mu, E[j].mu, E[j].P); tot += raw[j]; }
      if (tot < 1e-250L) return; check(ok, "ekpf:update-returned-false"); normal("ekpf:posterior", a, N); Vec nw = norml(raw); ld e = ess(raw); if (fabsl(e - th) < 1e-4L * th) return;
      if (!(e < th)) { for (int i = 0; i < N; i++) { near("ekpf:moved-without-resampling-due", a.x[i], E[i].mu, 1, 1e-6L); near("ekpf:weight-without-resampling", a.w[i], nw[i], 1e-9L, 1e-4L); P[i] = E[i].P; } ev("ekpf_weightings_above_threshold"); continue; }
      equal("ekpf:weights-after-resampling", a.w); std::vector<Mat> P2; std::vector<long> cnt(N, 0); std::vector<double> pr(N, 0.0); std::vector<int> rep(N); for (int j = 0; j < N; j++) { rep[j] = j; for (int i = 0; i < j; i++) if (maxabs(E[i].mu - E[j].mu) < 1e-7L) { rep[j] = rep[i]; break; } pr[rep[j]] += (double)nw[j]; }
      for (int i = 0; i < N; i++) { int best = 0; ld bd = 1e30L; for (int j = 0; j < N; j++) { ld q = maxabs(a.x[i] - E[j].mu); if (q < bd) { bd = q; best = j; } } check(bd <= 1e-6L * (1 + maxabs(a.x[i])), "ekpf:survivor-not-an-existing-particle", str(a.x[i])); check(pr[rep[best]] > 1e-300, "ekpf:zero-weight-particle-survived"); P2.push_back(E[best].P); cnt[rep[best]]++; }
      if (big) { check(!incredible(cnt, pr), "ekpf:multiplicities"); ev("multiplicity_tests"); } P = P2; ev("ekpf_threshold_resamplings"); c.nontrivial = true; for (ld q : nw) c.h = mixd(c.h, (double)q);
    } else {
      std::vector<Mat> P2; Vec raw(N); ld tot = 0; std::vector<long> cnt(N, 0); std::vector<double> pr(N, 0.0); for (int j = 0; j < N; j++) { int r = j; for (int i = 0; i < j; i++) if (b.x[i] == b.x[j]) { r = i; break; } pr[r] += (double)b.w[j]; }
      for (int i = 0; i < N; i++) {
        ld e = 0; for (int q = 0; q < n; q++) e += (ld)nr[i * n + q] * nr[i * n + q]; int hit = -1; bool amb = false;
        for (int j = 0; j < N; j++) { if (!due && j != i) continue; Vec dx = a.x[i] - E[j].mu; ld d = dot(dx, inv(E[j].P) * dx); if (fabsl(d - e) <= 1e-5L * (1 + e)) { if (hit >= 0 && !(b.x[hit] == b.x[j])) amb = true; if (hit < 0 || (b.w[hit] == 0 && b.w[j] > 0)) hit = j; } }
        check(hit >= 0, due ? "ekpf:copy-does-not-continue-its-parent" : "ekpf:resampled-when-not-due", fmt("particle %d step %d period %d", i, step, per)); if (amb) { ev("ambiguous_parents"); return; }
        check(!due || b.w[hit] > 0, "ekpf:zero-weight-particle-survived"); P2.push_back(E[hit].P); for (int q = 0; q < N; q++) if (b.x[q] == b.x[hit]) { cnt[q]++; break; }
        raw[i] = (due ? 1.0L / N : b.w[i]) * gaussdens(z, M.f(a.x[i], sv), M.cov(a.x[i])) * gaussdens(a.x[i], S.f(b.x[hit], u), S.cov(b.x[hit])) / gaussdens(a.x[i], E[hit].mu, E[hit].P); tot += raw[i];
      }
      if (due) { ev("ekpf_periodic_resamplings"); c.nontrivial = true; if (big) { check(!incredible(cnt, pr), "ekpf:multiplicities"); ev("multiplicity_tests"); } }
      P = P2; if (tot < 1e-250L) return; check(ok, "ekpf:update-returned-false"); normal("ekpf:posterior", a, N); Vec nw = norml(raw); for (int i = 0; i < N; i++) near("ekpf:weight-with-period", a.w[i], nw[i], 1e-9L, 1e-4L);
    }
  }
}
void H::run(Ctx &c) { if (c.g.flip(0.65)) generic(c); else ekgo(c); }
