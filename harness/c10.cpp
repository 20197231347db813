// C10: conditional densities are a function of their current conditional arguments, matrices and noise.
#include "gsample.h"
#include "nonlin.h"
#include <pdf/linearanalyticconditionalgaussian.h>
#include <pdf/discreteconditionalpdf.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a history of 5-30 operations on linear conditional Gaussians (1-4 conditional arguments of different sizes), user-defined nonlinear conditional Gaussians or discrete conditional tables (1-4 conditional arguments): set all or single conditional arguments in any "
  "order, replace matrices, noise mean and covariance (also by values close to the present ones), change the number of arguments, single table entries (tables of up to 6 arguments), copy, clone, assign; user-defined distributions record how lists are drawn. Densities are also taken far out, down to 1e-280. After every operation mean, covariance, derivatives, density and sampler (observed through replaced normal draws) "
  "or the whole probability table (every state for every combination of conditional arguments) are compared with a long-double model, for the edited object and its copies. Non-trivial: at least two conditional-argument changes. "
  "Distinct: hash of the reference values.";
long H::ncases(bool t) { return t ? 40000 : 3000; }

struct LM { std::vector<Mat> A; std::vector<Vec> a; Vec mu; Mat S; };
static Vec mean(const LM &m) { Vec r = m.mu; for (size_t i = 0; i < m.A.size(); i++) r = r + m.A[i] * m.a[i]; return r; }

static void cmp(LinearAnalyticConditionalGaussian &p, const LM &m, Rng &g, const char *w) {
  std::string k = std::string("linear:") + w; int n = m.mu.size(); ld sc = 1 + maxabs(m.mu);
  for (size_t i = 0; i < m.A.size(); i++) sc += maxabs(m.A[i]) * maxabs(m.a[i]) * m.A[i].c;
  check(p.DimensionGet() == (unsigned)n && p.NumConditionalArgumentsGet() == m.A.size(), k + ":sizes");
  Vec mu = mean(m); near(k + ":mean", fv(p.ExpectedValueGet()), mu, sc, 1e-12L);
  same(k + ":covariance", fm(p.CovarianceGet()), m.S); same(k + ":noise-mean", fv(p.AdditiveNoiseMuGet()), m.mu); same(k + ":noise-covariance", fm(p.AdditiveNoiseSigmaGet()), m.S);
  for (size_t i = 0; i < m.A.size(); i++) { same(k + ":matrix", fm(p.MatrixGet(i)), m.A[i]); same(k + ":derivative", fm(p.dfGet(i)), m.A[i]); same(k + ":argument", fv(p.ConditionalArgumentGet(i)), m.a[i]); same(k + ":arguments", fv(p.ConditionalArgumentsGet()[i]), m.a[i]); }
  Vec x = outlier(g, mu, m.S);
  Vec d = x - mu; ld e = dot(d, inv(m.S) * d), kap = condest(m.S);
  ld slope = maxabs(inv(m.S) * d) * n * sc;
  near(k + ":density", (double)p.ProbabilityGet(cv(x)), gaussdens(x, mu, m.S), 1e-280L, 1e-12L * (1 + e + slope) * std::max<ld>(100, kap));
}
static void linear(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 4), na = g.range(1, 4);
  auto fresh = [&](LM &m) {
    m = LM(); m.mu = rd(rvec(g, n)); m.S = rspd(g, n, 0.1, 5); std::vector<BM> A;
    for (int i = 0; i < na; i++) { int q = g.range(1, 5); m.A.push_back(rd(rmat(g, n, q))); m.a.push_back(Vec(q, 0.0L)); A.push_back(bm(m.A[i])); }
    Gaussian noise(cv(m.mu), sm(m.S)); c.note(fmt("linear %d args, noise ", na) + str(m.mu) + str(m.S));
    if (na == 1 && g.flip()) return new LinearAnalyticConditionalGaussian(A[0], noise); return new LinearAnalyticConditionalGaussian(A, noise);
  };
  std::vector<std::unique_ptr<LinearAnalyticConditionalGaussian>> P; std::vector<LM> M(1); P.emplace_back(fresh(M[0]));
  int ops = g.range(5, 30), changes = 0;
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()), w = g.below(12); LinearAnalyticConditionalGaussian &p = *P[i]; LM &m = M[i]; int na = m.A.size(), q = g.below(na);
    if (w <= 2) { m.a[q] = newvec(g, m.a[q], rd(rvec(g, m.A[q].c))); p.ConditionalArgumentSet(q, cv(m.a[q])); c.note(fmt("arg %d=", q) + str(m.a[q])); changes++; }
    else if (w == 3) { std::vector<CV> v; for (int j = 0; j < na; j++) { m.a[j] = newvec(g, m.a[j], rd(rvec(g, m.A[j].c))); v.push_back(cv(m.a[j])); } p.ConditionalArgumentsSet(v); c.note("all args"); changes += 2; }
    else if (w == 4) { m.A[q] = newmat(g, m.A[q], rd(rmat(g, n, m.A[q].c))); p.MatrixSet(q, bm(m.A[q])); c.note(fmt("matrix %d", q)); }
    else if (w == 5) { m.mu = newvec(g, m.mu, rd(rvec(g, n))); p.AdditiveNoiseMuSet(cv(m.mu)); c.note("noise mean"); }
    else if (w == 6) { m.S = newspd(g, m.S, rspd(g, n, 0.1, 5)); p.AdditiveNoiseSigmaSet(sm(m.S)); c.note("noise covariance"); }
    else if (w == 11 && g.flip(0.4)) {   // more or fewer conditional arguments: the others keep their matrices and values
      int nn = g.range(1, 5); p.NumConditionalArgumentsSet(nn); c.note(fmt("number of arguments %d", nn)); ev("argument_number_changes"); changes++;
      while ((int)m.A.size() > nn) { m.A.pop_back(); m.a.pop_back(); }
      for (int j = m.A.size(); j < nn; j++) { int k = g.range(1, 5); m.A.push_back(rd(rmat(g, n, k))); m.a.push_back(rd(rvec(g, k))); if (g.flip()) { p.MatrixSet(j, bm(m.A[j])); p.ConditionalArgumentSet(j, cv(m.a[j])); } else { p.ConditionalArgumentSet(j, cv(m.a[j])); p.MatrixSet(j, bm(m.A[j])); } }
    }
    else if (w == 7 && P.size() < 4) { LM t = m; if (g.flip()) P.emplace_back(new LinearAnalyticConditionalGaussian(p)); else P.emplace_back(p.Clone()); M.push_back(t); c.note("copy"); ev("copies"); }
    else if (w == 8 && P.size() < 4) { LM t; P.emplace_back(fresh(t)); M.push_back(t); }
    else if (w == 9 && P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; LM t = M[j]; M[i] = t; c.note("assign"); ev("assignments"); }
    else if (w == 10) {
      SampleMthd me = g.flip() ? SampleMthd::DEFAULT : SampleMthd::CHOLESKY;
      gaussian_sampler("linear", g, mean(m), m.S, false, [&](Vec &out) { Sample<CV> s; bool ok = p.SampleFrom(s, me, NULL); out = fv(s.ValueGet()); return ok; },
        [&](std::vector<Vec> &out, int k) { std::vector<Sample<CV>> l(g.range(0, 3)); bool ok = p.SampleFrom(l, (unsigned)k, me, NULL); for (auto &s : l) out.push_back(fv(s.ValueGet())); return ok; });
    }
    for (size_t j = 0; j < P.size(); j++) cmp(*P[j], M[j], g, j == (size_t)i ? "edited" : "untouched");
  }
  ev("linear_histories"); c.nontrivial = changes > 1;
}
// a user-defined distribution that only draws single samples: a list is drawn one by one with the same method and arguments
struct Rec : public ConditionalPdf<CV, CV> {
  mutable std::vector<Vec> x; mutable std::vector<int> me; mutable std::vector<void *> ar; mutable int fail_at; Rec(int d) : ConditionalPdf<CV, CV>(d, 1), fail_at(-1) {} Rec *Clone() const { return new Rec(*this); }
  bool SampleFrom(Sample<CV> &s, const SampleMthd m, void *a) const { me.push_back((int)m); ar.push_back(a); Vec v = fv(ConditionalArgumentGet(0)); v[0] += me.size(); v = rd(v); x.push_back(v); s.ValueSet(cv(v)); return (int)me.size() - 1 != fail_at; }
};
static void userlist(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 3); Rec r(n); int tag;
  for (int o = g.range(1, 5); o--;) {
    r.x.clear(); r.me.clear(); r.ar.clear(); r.ConditionalArgumentSet(0, cv(rd(rvec(g, n)))); int k = g.range(0, 12), me = g.below(4); r.fail_at = k && g.flip(0.2) ? g.below(k) : -1; void *a = g.flip() ? &tag : NULL; std::vector<Sample<CV>> l(g.range(0, 5)); const ConditionalPdf<CV, CV> &b = r; bool ok = b.Pdf<CV>::SampleFrom(l, (unsigned)k, (SampleMthd)me, a);
    check(ok == (r.fail_at < 0), "user:list-return-value"); check((int)l.size() == k, "user:number-of-samples"); if (ok) { check((int)r.x.size() == k, "user:number-of-draws"); for (int i = 0; i < k; i++) same("user:list", fv(l[i].ValueGet()), r.x[i]); } for (int m : r.me) check(m == me, "user:sampling-method"); for (void *q : r.ar) check(q == a, "user:sampling-arguments"); ev("user_lists");
  }
  c.nontrivial = true;
}
static void nonlinear(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 4), q = g.range(1, 4), k = g.range(1, 3); NL m; m.random(g, n, q, k, g.flip(), 2); NLPdf p(&m); c.note("nonlinear " + m.desc());
  int ops = g.range(5, 15); Vec x = rd(rvec(g, q)), u = rd(rvec(g, m.two ? k : 0)); p.ConditionalArgumentSet(0, cv(x)); if (m.two) p.ConditionalArgumentSet(1, cv(u));
  std::vector<std::unique_ptr<NLPdf>> cps; std::vector<std::pair<Vec, Vec>> args;
  for (int o = 0; o < ops; o++) {
    if (g.flip()) { x = newvec(g, x, rd(rvec(g, q))); p.ConditionalArgumentSet(0, cv(x)); } else if (m.two) { u = newvec(g, u, rd(rvec(g, k))); p.ConditionalArgumentSet(1, cv(u)); }
    if (g.flip(0.2)) { cps.emplace_back(p.Clone()); args.emplace_back(x, u); }
    Vec mu = m.f(x, u), z; Mat S = m.cov(x); z = outlier(g, mu, S);
    Vec d = z - mu; ld e = dot(d, inv(S) * d), sc = 10 + maxabs(mu);
    near("nonlinear:density", (double)p.ProbabilityGet(cv(z)), gaussdens(z, mu, S), 1e-280L, 1e-10L * (1 + e + maxabs(inv(S) * d) * n * sc) * std::max<ld>(1, condest(S)));
    if (g.flip(0.3)) gaussian_sampler("nonlinear", g, mu, S, false, [&](Vec &out) { Sample<CV> s; bool ok = p.SampleFrom(s, SampleMthd::DEFAULT, NULL); out = fv(s.ValueGet()); return ok; },
        [&](std::vector<Vec> &out, int kk) { std::vector<Sample<CV>> l; bool ok = p.SampleFrom(l, (unsigned)kk, SampleMthd::CHOLESKY, NULL); for (auto &s : l) out.push_back(fv(s.ValueGet())); return ok; });
    c.note("x=" + str(x) + " u=" + str(u));
    for (size_t i = 0; i < cps.size(); i++) { same("nonlinear:copy-argument", fv(cps[i]->ConditionalArgumentGet(0)), args[i].first); if (m.two) same("nonlinear:copy-argument", fv(cps[i]->ConditionalArgumentGet(1)), args[i].second); }
  }
  ev("nonlinear_histories"); c.nontrivial = true;
}
struct DM { std::vector<int> dims; std::vector<double> t; std::vector<int> cur; int n; };
static void cmpd(const DiscreteConditionalPdf &p, const DM &m, const char *w) {
  std::string k = std::string("table:") + w; check(p.NumStatesGet() == (unsigned)m.n && p.NumConditionalArgumentsGet() == m.dims.size(), k + ":sizes");
  DiscreteConditionalPdf &q = const_cast<DiscreteConditionalPdf &>(p); int rows = m.t.size() / m.n;
  for (int r = 0; r < rows; r++) {
    std::vector<int> a; int z = r; for (int d : m.dims) { a.push_back(z % d); z /= d; }
    q.ConditionalArgumentsSet(a);
    for (int s = 0; s < m.n; s++) { double got = (double)p.ProbabilityGet(s); if (got != m.t[(size_t)r * m.n + s]) fail(k + ":probability", fmt("state %d row %d: %.17g instead of %.17g", s, r, got, m.t[(size_t)r * m.n + s])); ev("monitor_assertions"); }
  }
  q.ConditionalArgumentsSet(m.cur);
}
static void table(Ctx &c) {
  Rng &g = c.g; 
  auto fresh = [&](DM &m) {
    m = DM(); m.n = g.range(1, 5); int na = g.flip(0.2) ? g.range(5, 6) : g.range(1, 4), rows = 1; int dims[6]; for (int i = 0; i < na; i++) { dims[i] = g.range(1, na > 4 ? 3 : 4); m.dims.push_back(dims[i]); rows *= dims[i]; }
    m.t.resize((size_t)rows * m.n); m.cur.assign(na, 0); DiscreteConditionalPdf *p = new DiscreteConditionalPdf(m.n, na, dims); dims[0] = 77;
    for (int r = 0; r < rows; r++) { std::vector<int> a; int z = r; for (int d : m.dims) { a.push_back(z % d); z /= d; } for (int s = 0; s < m.n; s++) { m.t[(size_t)r * m.n + s] = g.u01(); p->ProbabilitySet(m.t[(size_t)r * m.n + s], s, a); } }
    p->ConditionalArgumentsSet(m.cur); c.note(fmt("table states=%d args=%d rows=%d", m.n, na, rows)); for (double x : m.t) c.h = mixd(c.h, x); return p; };
  std::vector<std::unique_ptr<DiscreteConditionalPdf>> P; std::vector<DM> M(1); P.emplace_back(fresh(M[0])); int ops = g.range(5, 25), changes = 0;
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()), w = g.below(8); DM &m = M[i]; DiscreteConditionalPdf &p = *P[i];
    if (w <= 1) { int a = g.below(m.dims.size()); m.cur[a] = g.below(m.dims[a]); p.ConditionalArgumentSet(a, m.cur[a]); c.note("arg"); changes++; }
    else if (w <= 3) { size_t e = g.below(m.t.size()); int s = e % m.n, z = e / m.n; std::vector<int> a; for (int d : m.dims) { a.push_back(z % d); z /= d; } m.t[e] = g.pick(std::vector<double>{0, 1, g.u01()}); p.ProbabilitySet(m.t[e], s, a); c.note("entry"); changes++; }
    else if (w == 4 && P.size() < 4) { DM t = m; if (g.flip()) P.emplace_back(new DiscreteConditionalPdf(p)); else P.emplace_back(p.Clone()); M.push_back(t); c.note("copy"); ev("copies"); }
    else if (w == 5 && P.size() < 4) { DM t; P.emplace_back(fresh(t)); M.push_back(t); }
    else if (w == 6 && P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; DM t = M[j]; M[i] = t; c.note("assign"); ev("assignments"); }
    else if (P.size() > 1) { P.erase(P.begin() + i); M.erase(M.begin() + i); i = 0; c.note("destroy"); }
    for (size_t j = 0; j < P.size(); j++) cmpd(*P[j], M[j], j == (size_t)i ? "edited" : "untouched");
  }
  ev("table_histories"); c.nontrivial = changes > 1;
}
void H::run(Ctx &c) { if (c.g.flip(0.04)) return userlist(c); int k = c.g.below(5); if (k <= 1) linear(c); else if (k <= 3) table(c); else nonlinear(c); }
