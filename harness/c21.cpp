// C21: particle smoother.
#include "pf.h"
#include <smoother/particlesmoother.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a backward pass of 1-8 steps of the particle smoother over particle sets of 1-30 particles (another number at every step in a third of the cases) with user-defined transition densities (Laplace, Gaussian, bounded support; with and without input), unequal and zero weights, Resets in between. "
  "After every step the particles must be the filtered particles and each weight the one of the backward recursion, computed in long double. Steps that no transition can explain are outside the domain and skipped. Non-trivial: one step with two or more particles. Distinct: hash of the reference weights.";
long H::ncases(bool t) { return t ? 60000 : 4000; }

static void wts(Rng &g, MCPdf<CV> &p) { std::vector<WeightedSample<CV>> l = p.ListOfSamplesGet(); int st = g.below(3); for (auto &s : l) s.WeightSet(st == 0 ? 1.0 : st == 1 ? g.uni(0.05, 1) : (g.flip(0.3) ? 0.0 : g.u01() + 0.01) * (g.flip(0.1) ? std::pow(10.0, -g.range(3, 60)) : 1)); l[g.below(l.size())].WeightSet(1.0); p.ListOfSamplesSet(l); }
void H::run(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 3), N = g.flip(0.01) ? g.range(100, 300) : g.range(1, 30); bool vary = g.flip(0.3); Rng sr(g.next()); std::vector<Kern> S(2); std::vector<std::unique_ptr<KernPdf>> sp; std::vector<std::unique_ptr<SystemModel<CV>>> sy;
  for (auto &s : S) { s.random(g, n, n, 2, g.flip(), g.flip(0.75) ? g.below(2) : 2, g.uni(0.4, 3)); sp.emplace_back(new KernPdf(&s, &sr)); sy.emplace_back(new SystemModel<CV>(sp.back().get())); c.note("system " + s.desc()); }
  auto mk = [&](int N_) { std::unique_ptr<MCPdf<CV>> p(new MCPdf<CV>(N_, n)); fillprior(g, *p, N_, n, false); wts(g, *p); return p; };
  std::vector<std::unique_ptr<MCPdf<CV>>> keep; std::vector<Parts> kv; keep.push_back(mk(N)); kv.push_back(parts(keep[0].get())); ParticleSmoother<CV> f(keep[0].get()); auto post = [&]() { return dynamic_cast<MCPdf<CV> *>(f.PostGet()); };
  { Parts a = parts(post()); check(a.x == kv[0].x, "initial-particles"); near("initial-weights", a.w, kv[0].w, 0, 1e-12L); }
  int ops = N > 30 ? 2 : g.range(1, 8);
  for (int o = 0; o < ops; o++) {
    Parts b = parts(post());
    if (g.flip(0.1)) { if (g.flip(0.4)) { if (g.flip()) { fillprior(g, *keep.back(), keep.back()->NumSamplesGet(), n, false); wts(g, *keep.back()); } kv.back() = parts(keep.back().get()); ev("op_reset_same_object"); } else { keep.push_back(mk(vary ? g.range(1, 30) : N)); kv.push_back(parts(keep.back().get())); } f.Reset(keep.back().get()); Parts a = parts(post()); check(a.x == kv.back().x, "reset-particles"); near("reset-weights", a.w, kv.back().w, 0, 1e-12L); ev("op_reset"); c.note("Reset"); continue; }
    int k = g.below(2); Kern &s = S[k]; Vec u = rd(rvec(g, s.two ? 2 : 0)); std::unique_ptr<MCPdf<CV>> fl = mk(vary ? g.range(1, 30) : N);
    Parts q = parts(fl.get()); c.note(fmt("step model %d, %zu filtered, %zu smoothed", k, q.x.size(), b.x.size()) + " u=" + str(u));
    Vec want(q.x.size(), 0.0L); std::vector<char> safe(q.x.size(), 1); ld tot = 0; bool tiny = false;
    for (size_t j = 0; j < b.x.size(); j++) { ld gm = 0; Vec p(q.x.size()); for (size_t i = 0; i < q.x.size(); i++) { p[i] = s.dens(b.x[j], q.x[i], u); gm += q.w[i] * p[i]; } if (gm > 0 && gm < 1e-250L) tiny = true; if (gm > 0) for (size_t i = 0; i < q.x.size(); i++) { want[i] += q.w[i] * b.w[j] * p[i] / gm; if (!inrange({q.w[i], b.w[j], p[i], 1 / gm})) safe[i] = 0; } } for (ld x : want) tot += x;
    if (tiny || !(tot > 1e-200L)) { ev("unexplained_steps_skipped"); continue; }
    bool ok = s.two ? f.Update(sy[k].get(), cv(u), fl.get()) : f.Update(sy[k].get(), fl.get()); Parts qa = parts(fl.get()); check(qa.x == q.x, "filtered-posterior-modified"); same("filtered-posterior-modified", qa.w, q.w);
    check(ok, "update-returned-false"); Parts a = parts(post()); check(a.x == q.x, "particles-are-not-the-filtered-ones"); normal("smoothed", a, q.x.size()); for (size_t i = 0; i < want.size(); i++) near("smoothed-weight", a.w[i], want[i] / tot, safe[i] ? 1e-290L : 1e-12L, 1e-8L); if (q.x.size() > 1) c.nontrivial = true; ev("backward_steps");
  }
  for (size_t i = 0; i < keep.size(); i++) { Parts p = parts(keep[i].get()); check(p.x == kv[i].x, "prior-modified"); same("prior-modified", p.w, kv[i].w); }
}
