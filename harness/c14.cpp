// C14: mixture particle filters.
#include "pf.h"
#include <pdf/mixture.h>
#include <filter/mixtureParticleFilter.h>
#include <filter/mixtureBootstrapFilter.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a history of 3-12 updates (all Update overloads, Resets to mixtures with other numbers of components) of a generic or bootstrap mixture particle filter with 1-5 components of 1-25 particles (some 300-900), a resampling period or threshold, a maintenance period 0-15, components without weight, "
  "ordinary and extreme uniform draws. The user-defined densities log every propagation; a subclass records the calls to the maintenance hook. After every update each component's particles and weights, the component weights, the time step and the maintenance calls are compared with a long-double "
  "reference per component. Non-trivial: two or more components and one weighting. Distinct: hash of the reference component weights.";
long H::ncases(bool t) { return t ? 40000 : 3000; }

template <class B> struct Maint : public B {
  int calls = 0, last = -1; using B::B;
  virtual bool MaintainMixture() { calls++; last = this->_timestep; ev("maintenance_calls"); return B::MaintainMixture(); }
};
typedef Mixture<CV> Mix;
static ld ess(const Vec &w) { Vec q = norml(w); ld s = 0; for (ld x : q) s += x * x; return 1 / s; }
struct St { std::vector<Parts> c; Vec w; };
static St state(Mix *m) { St s; for (int k = 0; k < m->NumComponentsGet(); k++) { s.c.push_back(parts(dynamic_cast<MCPdf<CV> *>(m->ComponentGet(k)))); s.w.push_back((double)m->WeightGet(k)); } return s; }
static void samestate(const std::string &k, const St &a, const St &b) { same(k + ":component-weights", a.w, b.w); for (size_t i = 0; i < a.c.size(); i++) { check(a.c[i].x == b.c[i].x, k + ":particles"); same(k + ":weights", a.c[i].w, b.c[i].w); } }
static Mix *mkprior(Rng &g, int K, int n, bool big) {
  Mix *m = new Mix((unsigned)n); std::vector<Probability> w;
  for (int k = 0; k < K; k++) { int N = big ? g.range(300, 900) : g.range(1, 25); MCPdf<CV> p(N, n); fillprior(g, p, N, n, g.flip()); if (g.flip(0.15)) oddweights(g, p); m->AddComponent(p); w.push_back(g.uni(0.1, 1)); }
  if (K > 1 && g.flip(0.15)) { w[g.below(K)] = 0; ev("components_without_weight"); }
  m->WeightsSet(w); return m;
}
template <class F> F *mk(Mix *p, KernPdf *q, int per, double th, int mper);
template <> Maint<MixtureParticleFilter<CV, CV>> *mk(Mix *p, KernPdf *q, int per, double th, int mper) { return new Maint<MixtureParticleFilter<CV, CV>>(p, q, per, th, MULTINOMIAL_RS, mper); }
template <> Maint<MixtureBootstrapFilter<CV, CV>> *mk(Mix *p, KernPdf *, int per, double th, int mper) { return new Maint<MixtureBootstrapFilter<CV, CV>>(p, per, th, MULTINOMIAL_RS, mper); }
template <class F> static void go(Ctx &c, bool boot) {
  Rng &g = c.g; bool big = g.flip(0.03); int n = g.range(1, 3), K = big ? 2 : g.range(1, 5), d = g.range(1, 2); Rng sr(g.next());
  Kern S, Q, M; S.random(g, n, n, 1, g.flip(), g.below(2), g.uni(0.5, 2)); Q = S; Q.kind = g.below(2); Q.b = g.uni(0.5, 2); Q.off = rd(rvec(g, n, -1, 1)); if (g.flip(0.15)) Q.hole = g.uni(0.2, 2); M.random(g, d, n, 1, g.flip(0.4), g.flip(0.7) ? g.below(2) : 2, g.uni(0.5, 3));
  KernPdf sp(&S, &sr), qp(&Q, &sr), mp(&M, &sr); SystemModel<CV> sysm(&sp); MeasurementModel<CV, CV> mm(&mp); SystemModel<CV> *ps = &sysm; MeasurementModel<CV, CV> *pm = &mm;
  std::vector<std::unique_ptr<Mix>> pr; std::vector<St> prv; pr.emplace_back(mkprior(g, K, n, big)); prv.push_back(state(pr[0].get()));
  bool dyn = g.flip(), lng = !big && g.flip(0.05); int per = dyn ? 0 : lng ? g.range(5, 12) : g.flip(0.3) ? 1000000 : g.range(1, 4); double th = dyn ? (g.flip(0.3) ? 1e-9 : g.uni(0.7, 15)) : 0; int mper = lng ? g.range(5, 15) : g.range(0, 4); if (big && dyn) th = 200;
  std::unique_ptr<F> f; if (boot) { f.reset(mk<F>(pr[0].get(), (KernPdf *)0, per, th, mper)); } else f.reset(mk<F>(pr[0].get(), &qp, per, th, mper));
  c.note(fmt("K=%d n=%d boot=%d period=%d threshold=%.17g maintenance=%d", K, n, boot, per, th, mper) + " system " + S.desc() + " proposal " + Q.desc() + " measurement " + M.desc());
  samestate("initial", state(f->PostGet()), prv[0]); check(f->PostGet() != pr[0].get(), "posterior-is-the-callers-prior");
  if (!big && g.flip(0.3)) D().hostile = 0.5;
  int step = 0, ops = lng ? g.range(20, 50) : g.range(3, 12);
  for (int o = 0; o < ops; o++) {
    St b = state(f->PostGet()); int w = g.below(12), K = b.c.size();
    bool bad = false; for (auto &p : b.c) { ld t = 0; for (ld x : p.w) t += x; if (t < 0.5) bad = true; } for (ld x : b.w) if (x < 1e-250L && x != 0) bad = true;
    if (w == 0 || bad) {
      if (!bad && g.flip(0.3)) { if (g.flip()) { std::vector<Probability> v; for (unsigned i = 0; i < pr.back()->NumComponentsGet(); i++) v.push_back(g.uni(0.1, 1)); pr.back()->WeightsSet(v); } prv.back() = state(pr.back().get()); ev("op_reset_same_object"); }
      else { pr.emplace_back(mkprior(g, g.flip() ? K : g.range(1, 5), n, false)); prv.push_back(state(pr.back().get())); } if (g.flip()) f->Reset(pr.back().get()); else f->Reset((Pdf<CV> *)pr.back().get()); samestate("reset", state(f->PostGet()), prv.back()); big = false; c.note("Reset"); ev("op_reset");
      check(f->TimeStepGet() == step, "timestep-after-reset"); continue;
    }
    bool dos = w <= 4 || w >= 8, dom = w >= 5; KernPdf *prop = boot ? &sp : (dos && dom) ? &qp : &sp; if (dos && !boot) { f->ProposalSet(prop); check(f->ProposalGet() == prop, "proposal-get"); } const Kern *pk = prop->k;
    Vec u = rd(rvec(g, S.two ? 1 : 0)), sv = rd(rvec(g, M.two ? 1 : 0)), z;
    if (dom) { int k = g.below(K), j = g.below(b.c[k].x.size()); Vec x = dos ? pk->centre(b.c[k].x[j], u) : b.c[k].x[j]; z = M.centre(x, sv); for (auto &v : z) v = (double)(v + g.uni(-1, 1)); }
    sp.clear(); qp.clear(); mp.clear(); CV ub = cv(u), sb = cv(sv), zb = cv(z); bool ok; f->calls = 0;
    if (dos && dom) { if (S.two && M.two) ok = f->Update(ps, ub, pm, zb, sb); else if (M.two) ok = f->Update(ps, pm, zb, sb); else if (S.two) ok = f->Update(ps, ub, pm, zb); else ok = f->Update(ps, pm, zb); }
    else if (dos) ok = S.two ? f->Update(ps, ub) : f->Update(ps); else ok = M.two ? f->Update(pm, zb, sb) : f->Update(pm, zb);
    c.note(fmt("update sys=%d meas=%d step=%d", dos, dom, step) + " u=" + str(u) + " z=" + str(z) + " s=" + str(sv));
    bool due = dos && per && step > 0 && step % per == 0; if (dos) step++; check(f->TimeStepGet() == step, "timestep", fmt("%d instead of %d", f->TimeStepGet(), step));
    St a = state(f->PostGet()); check((int)a.c.size() == K, "number-of-components");
    size_t total = 0; for (auto &p : b.c) total += p.x.size(); if (dos) check(prop->samples.size() == total, "number-of-proposals", fmt("%zu for %zu particles", prop->samples.size(), total));
    std::map<Vec, std::pair<int, ld>> owner; for (int k = 0; k < K; k++) for (size_t i = 0; i < b.c[k].x.size(); i++) owner[b.c[k].x[i]] = std::make_pair(k, b.c[k].w[i]);
    struct E { Vec x, y; ld w; bool safe = true; }; std::vector<std::vector<E>> en(K);
    if (dos) for (auto &q : prop->samples) { auto it = owner.find(q.x); check(it != owner.end(), "propagated-unknown-particle", str(q.x)); check(q.u == u, "wrong-input"); int k = it->second.first; if (due) check(it->second.second > 0, "zero-weight-particle-survived"); E e; e.x = q.x; e.y = q.y; e.w = due ? 1.0L / b.c[k].x.size() : it->second.second; en[k].push_back(e); }
    else for (int k = 0; k < K; k++) for (size_t i = 0; i < b.c[k].x.size(); i++) { E e; e.x = e.y = b.c[k].x[i]; e.w = b.c[k].w[i]; en[k].push_back(e); }
    if (due) { ev("periodic_resamplings"); if (big) for (int k = 0; k < K; k++) { std::map<Vec, int> id; std::vector<double> pp(b.c[k].x.size(), 0); std::vector<long> cn(pp.size(), 0); for (size_t i = 0; i < pp.size(); i++) { id.insert(std::make_pair(b.c[k].x[i], (int)i)); pp[id[b.c[k].x[i]]] += (double)b.c[k].w[i]; } for (auto &e : en[k]) cn[id[e.x]]++; check(!incredible(cn, pp), "multiplicities"); ev("multiplicity_tests"); } }
    Vec cw(K), tot(K, 0.0L); ld all = 0; std::vector<Vec> raw(K); bool tiny = false;
    for (int k = 0; k < K; k++) {
      check(en[k].size() == b.c[k].x.size(), "particles-crossed-components", fmt("component %d: %zu propagated of %zu", k, en[k].size(), b.c[k].x.size()));
      for (auto &e : en[k]) { ld r = e.w, l = 1, q = 1, t = 1; if (dom) { r *= l = M.dens(z, e.y, sv); if (dos && !boot) { q = pk->dens(e.y, e.x, u); t = S.dens(e.y, e.x, u); r = q == 0 ? 0 : r * t / q; } } raw[k].push_back(r); tot[k] += r; e.safe = q == 0 || inrange({e.w, l, t, 1 / q}); }
      cw[k] = b.w[k] * (dom ? tot[k] : 1.0L); all += cw[k]; if (tot[k] < 1e-250L) tiny = true;
    }
    if (all == 0) { check(!ok, "impossible-measurement-accepted"); ev("impossible_measurements"); f->Reset(pr[0].get()); big = false; continue; }
    if (all < 1e-250L) { f->Reset(pr[0].get()); continue; }
    check(ok, "update-returned-false"); bool md = mper > 0 && step > 0 && step % mper == 0; check((f->calls > 0) == md, "maintenance-schedule", fmt("%d calls with period %d after %d steps", f->calls, mper, step)); if (f->calls) check(f->last == step, "maintenance-before-the-step");
    Vec wc = norml(cw); for (int k = 0; k < K; k++) near(dom ? "component-weight" : "component-weight-changed-without-measurement", a.w[k], wc[k], tot[k] > 1e-200L && inrange({b.w[k], tot[k], 1 / all}) ? 1e-200L : 1e-12L, 1e-7L);
    ld sw = 0; for (ld x : a.w) sw += x; near("component-weights-sum", sw, 1, 1, 1e-9L);
    for (int k = 0; k < K; k++) {
      size_t N = b.c[k].x.size(); check(a.c[k].x.size() == N, "number-of-particles"); if (tot[k] < 1e-250L) { ev("impossible_component"); continue; } Vec nw = norml(raw[k]); normal("component", a.c[k], N);
      if (dom && th > 0) {
        ld e = ess(raw[k]); if (fabsl(e - th) < 1e-6L * th) { ev("threshold_skips"); continue; }
        if (e < th) {
          ev("threshold_resamplings"); std::map<Vec, int> id; std::vector<double> pp(N, 0); std::vector<long> cn(N, 0); for (size_t i = 0; i < N; i++) { id.insert(std::make_pair(en[k][i].y, (int)i)); pp[id[en[k][i].y]] += (double)nw[i]; }
          for (size_t i = 0; i < N; i++) { auto it = id.find(a.c[k].x[i]); check(it != id.end(), "survivor-not-an-existing-particle"); check(pp[it->second] > 0, "zero-weight-particle-survived"); near("weights-after-resampling", a.c[k].w[i], 1.0L / N, 0, 1e-9L); cn[it->second]++; }
          if (big) { check(!incredible(cn, pp), "multiplicities"); ev("multiplicity_tests"); } continue;
        }
        ev("weightings_above_threshold");
      }
      for (size_t i = 0; i < N; i++) { check(a.c[k].x[i] == en[k][i].y && (due || en[k][i].x == b.c[k].x[i]), "particle-not-from-its-proposal", fmt("component %d particle %zu", k, i)); near("particle-weight", a.c[k].w[i], nw[i], en[k][i].safe && inrange({raw[k][i], 1 / tot[k]}) ? 1e-290L : 1e-12L, 1e-7L); }
    }
    if (dom && K > 1) c.nontrivial = true; ev(dos ? dom ? "op_joint" : "op_system" : "op_measurement");
  }
  for (size_t i = 0; i < pr.size(); i++) samestate("prior-modified", state(pr[i].get()), prv[i]);
}
void H::run(Ctx &c) { if (c.g.flip()) go<Maint<MixtureParticleFilter<CV, CV>>>(c, false); else go<Maint<MixtureBootstrapFilter<CV, CV>>>(c, true); }
