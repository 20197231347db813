// C15: particle and histogram filters on finite systems against exact inference.
#include "common.h"
#include <filter/bootstrapfilter.h>
#include <filter/particlefilter.h>
#include <filter/mixtureBootstrapFilter.h>
#include <filter/histogramfilter.h>
#include <model/discretesystemmodel.h>
#include <pdf/discreteconditionalpdf.h>
#include <pdf/mcpdf.h>
#include <pdf/mixture.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case runs a histogram filter and a particle filter (bootstrap, generic with the system as proposal, or mixture bootstrap; 2000-6000 particles over integer states, period or threshold resampling) side by side on a random finite system with 2-6 states, tables with zeros, optional inputs and sensor "
  "parameters, for 2-8 updates. Every system update of the particle filter must move particles with the frequencies of the transition table rows (chi-square, and never along a zero entry), every weighting must be exact, every resampling must keep the weighted state frequencies (chi-square), and the estimated state probabilities "
  "must stay near the exact posterior computed in long double, which the histogram filter must match to 1e-9. Non-trivial: a prediction and a measurement. Distinct: hash of the exact posteriors.";
long H::ncases(bool t) { return t ? 8000 : 800; }

struct Table {
  int out, in, k; bool two; std::vector<double> t; std::unique_ptr<DiscreteConditionalPdf> pdf;
  double &at(int o, int i, int j) { return t[(j * in + i) * out + o]; }
  void make(Rng &g, int o, int i, int k_, bool two_, double zeros, double lo) {
    out = o; in = i; two = two_; k = two ? k_ : 1; t.assign((size_t)out * in * k, 0);
    for (int a = 0; a < in; a++) for (int b = 0; b < k; b++) { double s = 0; for (int q = 0; q < out; q++) { double p = g.flip(zeros) ? 0 : g.uni(lo, 1); at(q, a, b) = p; s += p; } if (s == 0) { at(g.below(out), a, b) = 1; s = 1; } for (int q = 0; q < out; q++) at(q, a, b) /= s; }
    int dims[2] = {in, k}; pdf.reset(new DiscreteConditionalPdf(out, two ? 2 : 1, dims));
    for (int q = 0; q < out; q++) for (int a = 0; a < in; a++) for (int b = 0; b < k; b++) { std::vector<int> ca(1, a); if (two) ca.push_back(b); pdf->ProbabilitySet(at(q, a, b), q, ca); }
  }
};
struct P2 { std::vector<int> x; Vec w; };
static P2 parts(MCPdf<int> *p) { P2 r; for (auto &s : p->ListOfSamplesGet()) { r.x.push_back(s.ValueGet()); r.w.push_back(s.WeightGet()); } return r; }
static Vec marg(const P2 &p, int n) { Vec q(n, 0.0L); for (size_t i = 0; i < p.x.size(); i++) { check(p.x[i] >= 0 && p.x[i] < n, "particle-outside-state-space", fmt("%d", p.x[i])); q[p.x[i]] += p.w[i]; } return q; }
static ld ess(const Vec &w) { ld s = 0, t = 0; for (ld x : w) { s += x * x; t += x; } return t * t / s; }
static void fill(Rng &g, MCPdf<int> &m, const std::vector<double> &p, int N) {
  std::vector<WeightedSample<int>> l(N, WeightedSample<int>(1)); std::vector<double> cum; double s = 0; for (double x : p) { s += x; cum.push_back(s); }
  for (int i = 0; i < N; i++) { double u = (i + 0.5) / N * s; int st = 0; while (cum[st] < u) st++; l[i].ValueSet(st); l[i].WeightSet(1.0 / N); } m.ListOfSamplesSet(l);
}
static Vec hist(const DiscretePdf &d) { Vec r; for (auto &p : d.ProbabilitiesGet()) r.push_back((double)p); return r; }

void H::run(Ctx &c) {
  Rng &g = c.g; int n = g.range(2, 6), kind = g.below(3), N = g.range(2000, 6000); Table S, M; S.make(g, n, n, g.range(1, 3), g.flip(), g.flip() ? 0.4 : 0, 0.05); M.make(g, g.range(2, 4), n, g.range(1, 3), g.flip(0.4), 0, 0.15);
  DiscreteSystemModel hs(S.pdf.get()); SystemModel<int> ss(S.pdf.get()); MeasurementModel<int, int> mm(M.pdf.get()); SystemModel<int> *ps = g.flip() ? &hs : &ss; MeasurementModel<int, int> *pm = &mm;
  std::vector<double> p0(n); double s0 = 0; for (auto &x : p0) { x = g.uni(0.05, 1); s0 += x; } for (auto &x : p0) x /= s0;
  DiscretePdf hp(n); { std::vector<Probability> v; for (double x : p0) v.push_back(x); hp.ProbabilitiesSet(v); } HistogramFilter<int> hf(&hp);
  MCPdf<int> prior(N, 1); fill(g, prior, p0, N); Mixture<int> mp(1u); int K = g.range(1, 3);
  bool dyn = g.flip(); int per = dyn ? 0 : g.range(1, 4); double th = dyn ? g.uni(0.3, 0.99) * N : 0;
  std::unique_ptr<ParticleFilter<int, int>> pf; std::unique_ptr<MixtureBootstrapFilter<int, int>> mf;
  if (kind == 0) pf.reset(new BootstrapFilter<int, int>(&prior, per, th)); else if (kind == 1) pf.reset(new ParticleFilter<int, int>(&prior, S.pdf.get(), per, th));
  else { std::vector<Probability> w; std::vector<std::vector<double>> cp(K, std::vector<double>(n)); std::vector<double> W(K); double t = 0; for (auto &x : W) { x = g.uni(0.2, 1); t += x; } for (auto &x : W) x /= t; std::fill(p0.begin(), p0.end(), 0.0);
    for (int k = 0; k < K; k++) { double q = 0; for (auto &x : cp[k]) { x = g.uni(0.05, 1); q += x; } for (int i = 0; i < n; i++) { cp[k][i] /= q; p0[i] += W[k] * cp[k][i]; } MCPdf<int> m(N, 1); fill(g, m, cp[k], N); mp.AddComponent(m); w.push_back(W[k]); } mp.WeightsSet(w); mf.reset(new MixtureBootstrapFilter<int, int>(&mp, per, th)); std::vector<Probability> v; for (double x : p0) v.push_back(x); hp.ProbabilitiesSet(v); hf.Reset(&hp); }
  c.note(fmt("n=%d kind=%d N=%d period=%d threshold=%g T=", n, kind, N, per, th) + str(Vec(S.t.begin(), S.t.end())) + " M=" + str(Vec(M.t.begin(), M.t.end())));
  Vec ex(p0.begin(), p0.end()); int step = 0, ops = g.range(2, 8), np = 0, nm = 0; ld amp = 1;
  for (int o = 0; o < ops; o++) {
    int w = g.below(3); bool dos = w != 1, dom = w != 0; int u = g.below(S.k), sv = g.below(M.k), z = 0;
    { ld r = g.u01(), t = 0; std::vector<ld> pz(M.out, 0.0L); for (int q = 0; q < M.out; q++) for (int a = 0; a < n; a++) pz[q] += ex[a] * M.at(q, a, M.two ? sv : 0); for (int q = 0; q < M.out; q++) { t += pz[q]; if (r < t) { z = q; break; } } }
    if (dos) { Vec q(n, 0.0L); for (int b = 0; b < n; b++) for (int a = 0; a < n; a++) q[b] += (ld)S.at(b, a, S.two ? u : 0) * ex[a]; ex = q; np++; }
    if (dom) { ld t = 0, mx = 0; for (int a = 0; a < n; a++) { ld l = M.at(z, a, M.two ? sv : 0); mx = std::max(mx, l); ex[a] *= l; t += ex[a]; } for (auto &x : ex) x /= t; amp *= std::max<ld>(1, mx / t); nm++; }
    P2 b; if (pf) b = parts(pf->PostGet()); bool ok;
#define UPD(F) (dos && dom ? (S.two && M.two ? F.Update(ps, u, pm, z, sv) : M.two ? F.Update(ps, pm, z, sv) : S.two ? F.Update(ps, u, pm, z) : F.Update(ps, pm, z)) : dos ? (S.two ? F.Update(ps, u) : F.Update(ps)) : (M.two ? F.Update(pm, z, sv) : F.Update(pm, z)))
    ok = UPD(hf); check(ok, "histogram:update-returned-false"); near("histogram:posterior", hist(*hf.PostGet()), ex, 0.1L, 1e-9L);
    c.note(fmt("update sys=%d meas=%d u=%d z=%d s=%d", dos, dom, u, z, sv)); Vec est;
    if (pf) {
      ok = UPD((*pf)); check(ok, "update-returned-false"); P2 a = parts(pf->PostGet()); check((int)a.x.size() == N, "number-of-particles"); bool due = dos && per && step && step % per == 0; if (dos) step++; marg(a, n);
      bool dynr = false; std::vector<int> y = dos ? a.x : b.x;   // values before a threshold resampling are known only if none happened
      if (dom && th > 0) { bool eq = true; for (ld x : a.w) if (fabsl(x * N - 1) > 1e-9L) eq = false; dynr = eq; }
      if (dos && !dynr && !due) { for (int r = 0; r < n; r++) { std::vector<long> cn(n, 0); std::vector<double> pr(n); for (int i = 0; i < N; i++) if (b.x[i] == r) cn[a.x[i]]++; for (int q = 0; q < n; q++) pr[q] = S.at(q, r, S.two ? u : 0); for (int q = 0; q < n; q++) check(pr[q] > 0 || !cn[q], "impossible-transition"); check(!incredible(cn, pr), "transition-frequencies", fmt("from state %d", r)); } ev("transition_tests"); }
      if (dos && !dynr && due) { Vec m = marg(b, n); std::vector<double> pr(n, 0.0); std::vector<long> cn(n, 0); for (int q = 0; q < n; q++) for (int r = 0; r < n; r++) pr[q] += (double)m[r] * S.at(q, r, S.two ? u : 0); for (int i = 0; i < N; i++) cn[a.x[i]]++; check(!incredible(cn, pr), "frequencies-after-resampling-and-transition"); ev("resampled_transition_tests"); }
      if (!dynr) { Vec rw(N); ld t = 0; for (int i = 0; i < N; i++) { rw[i] = (due ? 1.0L / N : b.w[i]) * (dom ? (ld)M.at(z, a.x[i], M.two ? sv : 0) : 1.0L); t += rw[i]; } for (int i = 0; i < N; i++) near("weight", a.w[i], rw[i] / t, 1e-290L, 1e-8L); if (dom && th > 0 && (fabsl(ess(rw) - th) > 1e-6L * th)) check(!(ess(rw) < th), "resampling-missed"); if (!dos) check(a.x == b.x, "measurement-moved-particles"); }
      else if (!dos) { Vec rw(N), m(n, 0.0L); ld t = 0; for (int i = 0; i < N; i++) { rw[i] = b.w[i] * M.at(z, b.x[i], M.two ? sv : 0); t += rw[i]; m[b.x[i]] += rw[i]; } std::vector<double> pr(n); std::vector<long> cn(n, 0); for (int q = 0; q < n; q++) pr[q] = (double)(m[q] / t); for (int i = 0; i < N; i++) cn[a.x[i]]++; check(!incredible(cn, pr), "frequencies-after-resampling"); ev("resampling_tests"); if (fabsl(ess(rw) - th) > 1e-6L * th) check(ess(rw) < th || a.x == b.x, "resampled-when-not-due"); }
      est = marg(a, n);
    } else {
      ok = UPD((*mf)); check(ok, "mixture:update-returned-false"); est.assign(n, 0.0L); Mixture<int> *m = mf->PostGet(); check(m->NumComponentsGet() == K, "mixture:components"); for (int k = 0; k < K; k++) { Vec q = marg(parts(dynamic_cast<MCPdf<int> *>(m->ComponentGet(k))), n); est = est + q * (ld)(double)m->WeightGet(k); }
    }
    if (amp > 20) break;
    ld tol = 6 * amp * sqrtl((ld)(o + 2) / N); for (int q = 0; q < n; q++) check(fabsl(est[q] - ex[q]) < tol, "estimate-far-from-exact-posterior", fmt("state %d: %Lg, exact %Lg, tolerance %Lg", q, est[q], ex[q], tol)); ev("estimates_compared"); for (ld x : ex) c.h = mixd(c.h, (double)x);
    if (c.keeplog) { ld mx = 0; for (int q = 0; q < n; q++) mx = std::max(mx, fabsl(est[q] - ex[q]) / tol); if (mx > 0.5L) ev("estimates_beyond_half_tolerance"); }
  }
  c.nontrivial = np && nm;
}
