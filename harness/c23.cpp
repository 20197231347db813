// C23: symbolic (GiNaC) models.
#include "kalman.h"
#include <model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.h>
#include <model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.h>
using namespace V; using namespace BFL;
typedef NonLinearAnalyticConditionalGaussian_Ginac GP;
const char *H::rule =
  "A case generates random formulas (sums, differences, products, quotients, powers, sin, cos, exp, atan, constants, repeated and unused symbols) over 1 to 4 state and 0 to 3 input symbols, as a GiNaC expression and as a tree evaluated by forward automatic differentiation in long double, and builds symbolic pdfs and models with Gaussian noise on the function value or on some of the inputs. "
  "A history of argument, noise mean and noise covariance changes in any order, copies and clones (the original changed or destroyed afterwards) is applied; value, Jacobian, covariance, dimension, symbols, density and conditional arguments are compared after each step, for the pdf, its copies and the models; an extended Kalman filter run on symbolic system and measurement models is compared with the reference recursion. Non-trivial: at least one evaluation of a formula that depends on the state. Distinct: hash of the values.";
long H::ncases(bool t) { return t ? 40000 : 3000; }

struct Dual { ld v; Vec d; };
struct Node { int op; double k; int i; std::shared_ptr<Node> a, b; };
typedef std::shared_ptr<Node> NP;
struct Syms { std::vector<GiNaC::symbol> x, u; };
static NP leaf(Rng &g, int nx, int nu) { NP n(new Node()); int w = g.below(5); if (w == 0) { n->op = 0; n->k = g.flip() ? g.range(-3, 3) : g.uni(-2, 2); } else { n->op = 1; n->i = g.below(nx + nu); } return n; }
static NP tree(Rng &g, int nx, int nu, int depth) { if (depth == 0 || g.below(5) == 0) return leaf(g, nx, nu); NP n(new Node()); n->op = g.range(2, 10); n->a = tree(g, nx, nu, depth - 1); if (n->op <= 5) n->b = g.flip(0.2) ? n->a : tree(g, nx, nu, depth - 1); return n; }
static GiNaC::ex sym(const NP &n, const Syms &s) {
  switch (n->op) { case 0: return n->k == std::floor(n->k) ? GiNaC::ex((int)n->k) : GiNaC::ex(n->k); case 1: return n->i < (int)s.x.size() ? s.x[n->i] : s.u[n->i - s.x.size()]; case 2: return sym(n->a, s) + sym(n->b, s); case 3: return sym(n->a, s) - sym(n->b, s); case 4: return sym(n->a, s) * sym(n->b, s);
    case 5: return sym(n->a, s) / (2 + GiNaC::pow(sym(n->b, s), 2)); case 6: return GiNaC::sin(sym(n->a, s)); case 7: return GiNaC::cos(sym(n->a, s)); case 8: return GiNaC::exp(GiNaC::sin(sym(n->a, s))); case 9: return GiNaC::pow(sym(n->a, s), 2); default: return GiNaC::atan(sym(n->a, s)); }
}
static Dual val(const NP &n, const Vec &w) {
  size_t N = w.size(); Dual r; r.d.assign(N, 0.0L);
  if (n->op == 0) { r.v = n->k; return r; } if (n->op == 1) { r.v = w[n->i]; r.d[n->i] = 1; return r; }
  Dual a = val(n->a, w), b; if (n->b) b = val(n->b, w); ld f = 0, ga = 0, gb = 0;
  switch (n->op) { case 2: f = a.v + b.v; ga = gb = 1; break; case 3: f = a.v - b.v; ga = 1; gb = -1; break; case 4: f = a.v * b.v; ga = b.v; gb = a.v; break; case 5: { ld q = 2 + b.v * b.v; f = a.v / q; ga = 1 / q; gb = -a.v / (q * q) * 2 * b.v; break; }
    case 6: f = sinl(a.v); ga = cosl(a.v); break; case 7: f = cosl(a.v); ga = -sinl(a.v); break; case 8: f = expl(sinl(a.v)); ga = f * cosl(a.v); break; case 9: f = a.v * a.v; ga = 2 * a.v; break; default: f = atanl(a.v); ga = 1 / (1 + a.v * a.v); }
  r.v = f; for (size_t i = 0; i < N; i++) r.d[i] = ga * a.d[i] + (n->b ? gb * b.d[i] : 0); return r;
}
struct Model {   // what the symbolic pdf stands for
  int nx, nu, nf; std::vector<NP> f; Syms s; std::vector<int> cond; Vec mu; Mat Q; Vec x, u; bool dependent;
  void random(Rng &g, int nx_, int nu_, int nf_, bool on_inputs, int tag) {
    nx = nx_; nu = nu_; nf = nf_; s = Syms(); f.clear(); cond.clear(); for (int i = 0; i < nx; i++) s.x.push_back(GiNaC::symbol(fmt("x%d_%d", tag, i))); for (int i = 0; i < nu; i++) s.u.push_back(GiNaC::symbol(fmt("u%d_%d", tag, i)));
    for (int i = 0; i < nf; i++) f.push_back(tree(g, nx, nu, g.range(0, 3))); if (on_inputs && nu) { for (int i = 0; i < nu; i++) if (g.flip() || (i == nu - 1 && cond.empty())) cond.push_back(i); for (int i = (int)cond.size() - 1; i > 0; i--) std::swap(cond[i], cond[g.below(i + 1)]); }
    int k = cond.empty() ? nf : cond.size(); mu = rd(rvec(g, k, -1, 1)); Q = rspd(g, k, 0.1, 2); x = rd(rvec(g, nx, -1.5, 1.5)); u = rd(rvec(g, nu, -1.5, 1.5)); dependent = false; for (auto &n : f) { Dual d = val(n, all()); for (int i = 0; i < nx; i++) if (d.d[i] != 0) dependent = true; }
  }
  Vec all() const { Vec w = x; w.insert(w.end(), u.begin(), u.end()); for (size_t j = 0; j < cond.size(); j++) w[nx + cond[j]] += mu[j]; return w; }
  std::vector<Dual> ev() const { std::vector<Dual> r; for (auto &n : f) r.push_back(val(n, all())); return r; }
  Vec mean() const { Vec r; for (auto &d : ev()) r.push_back(d.v); return cond.empty() ? r + mu : r; }
  Mat F() const { Mat m(nf, nx); auto e = ev(); for (int i = 0; i < nf; i++) for (int j = 0; j < nx; j++) m(i, j) = e[i].d[j]; return m; }
  Mat cov() const { if (cond.empty()) return Q; Mat m(nf, cond.size()); auto e = ev(); for (int i = 0; i < nf; i++) for (size_t j = 0; j < cond.size(); j++) m(i, j) = e[i].d[nx + cond[j]]; return V::sym(m * Q * T(m)); }
  GP *make() const { GiNaC::matrix m(nf, 1); for (int i = 0; i < nf; i++) m(i, 0) = ::sym(f[i], s); Gaussian n(cv(mu), sm(Q)); if (cond.empty()) return new GP(m, s.u, s.x, n); std::vector<GiNaC::symbol> c; for (int j : cond) c.push_back(s.u[j]); return new GP(m, s.u, s.x, n, c); }
};
static ld big(const Mat &m) { return std::max(1.0L, maxabs(m)); }
static void look(Ctx &c, const std::string &k, GP &p, const Model &m) {
  Vec mean = m.mean(); near(k + ":value", fv(p.ExpectedValueGet()), mean, 1, 1e-9L); Mat F = m.F(), C = m.cov(); near(k + ":jacobian", fm(p.dfGet(0)), F, big(F), 1e-9L); near(k + ":covariance", fm(p.CovarianceGet()), C, big(C), 1e-9L);
  check((int)p.DimensionGet() == m.nf, k + ":dimension", fmt("%u, expected %d", p.DimensionGet(), m.nf)); check(p.NumConditionalArgumentsGet() == 2, k + ":number-of-arguments"); same(k + ":argument", fv(p.ConditionalArgumentGet(0)), m.x); same(k + ":argument", fv(p.ConditionalArgumentGet(1)), m.u); same(k + ":noise-mean", fv(p.AdditiveNoiseMuGet()), m.mu); same(k + ":noise-covariance", fm(p.AdditiveNoiseSigmaGet()), m.Q);
  std::vector<GiNaC::symbol> sx = p.StateGet(), su = p.InputGet(), sc = p.ConditionalGet(); check(sx.size() == m.s.x.size() && su.size() == m.s.u.size() && sc.size() == m.cond.size(), k + ":symbols"); for (size_t i = 0; i < sx.size(); i++) check(bool(sx[i] == m.s.x[i]), k + ":symbols"); for (size_t i = 0; i < su.size(); i++) check(bool(su[i] == m.s.u[i]), k + ":symbols"); for (size_t i = 0; i < sc.size(); i++) check(bool(sc[i] == m.s.u[m.cond[i]]), k + ":symbols");
  ld dt = det(C); if (dt > 1e-4L && maxabs(C) < 1e3L) { Vec y = mean; for (auto &v : y) v = (double)(v + c.g.uni(-0.5, 0.5)); near(k + ":density", (ld)(double)p.ProbabilityGet(cv(y)), gaussdens(y, mean, C), 1e-12L, 1e-6L); ev("densities"); }
  if (dt > 1e-4L || m.cond.empty()) { D().reset(Draws::CASE, 7); std::vector<double> nn; for (int i = 0; i < m.nf; i++) nn.push_back(0); D().script({}, nn); Sample<CV> s(m.nf); p.SampleFrom(s); near(k + ":sample-at-zero-noise", fv(s.ValueGet()), mean, 1, 1e-9L); D().reset(Draws::CASE, 7); }
  if (m.dependent) { c.nontrivial = true; ev("state_dependent_evaluations"); } ev("evaluations"); if (!m.cond.empty()) ev("noise_on_inputs");
}
static void args(Rng &g, GP &p, Model &m) { m.x = rd(rvec(g, m.nx, -1.5, 1.5)); m.u = rd(rvec(g, m.nu, -1.5, 1.5)); if (g.flip()) { p.ConditionalArgumentSet(0, cv(m.x)); p.ConditionalArgumentSet(1, cv(m.u)); } else { p.ConditionalArgumentSet(1, cv(m.u)); p.ConditionalArgumentSet(0, cv(m.x)); } }
static void pdfs(Ctx &c) {
  Rng &g = c.g; Model m; m.random(g, g.range(1, 4), g.range(0, 3), g.range(1, 3), g.flip(), 0); c.note(fmt("pdf nx=%d nu=%d nf=%d noise on %zu inputs", m.nx, m.nu, m.nf, m.cond.size())); for (auto &n : m.f) { std::ostringstream o; o << ::sym(n, m.s); c.note(o.str()); }
  std::unique_ptr<GP> p(m.make()); args(g, *p, m); look(c, "pdf", *p, m);
  for (int i = g.range(2, 5); i--;) {
    int w = g.below(6);
    if (w == 0) { m.mu = newvec(g, m.mu, rd(rvec(g, m.mu.size(), -1, 1))); p->AdditiveNoiseMuSet(cv(m.mu)); } else if (w == 1) { m.Q = newspd(g, m.Q, rspd(g, m.Q.r, 0.1, 2)); p->AdditiveNoiseSigmaSet(sm(m.Q)); }
    else if (w == 2) { m.x = newvec(g, m.x, rd(rvec(g, m.nx, -1.5, 1.5))); p->ConditionalArgumentSet(0, cv(m.x)); } else if (w == 3) { m.u = newvec(g, m.u, rd(rvec(g, m.nu, -1.5, 1.5))); p->ConditionalArgumentSet(1, cv(m.u)); }
    else if (w == 4) { bool cl = g.flip(); Pdf<CV> *base = p.get(); std::unique_ptr<Pdf<CV>> q(cl ? base->Clone() : new GP(*p)); GP *r = dynamic_cast<GP *>(q.get()); check(r != 0, "clone:type"); look(c, cl ? "clone" : "copy", *r, m); Model k = m; args(g, *r, k); look(c, cl ? "clone" : "copy", *r, k); look(c, "original-after-copy-changed", *p, m); if (g.flip()) { q.release(); p.reset(r); m = k; look(c, "copy-without-original", *p, m); } ev("copies"); }
    else args(g, *p, m);
    look(c, "pdf", *p, m);
  }
}
static void models(Ctx &c) {
  Rng &g = c.g; int n = g.range(1, 3), nu = g.range(1, 2), nm = g.range(1, 2), ns = g.range(1, 2); Model S, M; S.random(g, n, nu, n, g.flip(0.3), 1); M.random(g, n, ns, nm, false, 2); c.note(fmt("models n=%d nu=%d m=%d s=%d", n, nu, nm, ns));
  for (auto *k : {&S, &M}) for (auto &f : k->f) { NP a(new Node()), b(new Node()), s(new Node()); a->op = 1; a->i = g.below(n); b->op = 7; b->a = f; s->op = 2; s->a = a; s->b = b; f = s; k->dependent = true; }   // bounded nonlinearity
  std::unique_ptr<GP> ps(S.make()), pm(M.make()); NonLinearAnalyticSystemModelGaussianUncertainty_Ginac sm_(ps.get()); NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac mm(pm.get()); if (g.flip()) { ps.reset(); pm.reset(); }
  check((int)sm_.StateSizeGet() == n, "system-model:state-size"); check(mm.MeasurementSizeGet() == nm, "measurement-model:measurement-size"); check(sm_.StateGet().size() == (size_t)n && sm_.InputGet().size() == (size_t)nu && sm_.FunctionGet().rows() == (unsigned)n && mm.FunctionGet().rows() == (unsigned)nm && mm.StateGet().size() == (size_t)n && mm.InputGet().size() == (size_t)ns && mm.ConditionalGet().empty(), "models:symbols");
  Gaussian prior(cv(rd(rvec(g, n, -1, 1))), sm(rspd(g, n, 0.05, 1))); ExtendedKalmanFilter f(&prior);
  for (int i = g.range(2, 5); i--;) {
    S.x = rd(rvec(g, n, -1.5, 1.5)); S.u = rd(rvec(g, nu, -1.5, 1.5)); M.x = rd(rvec(g, n, -1.5, 1.5)); M.u = rd(rvec(g, ns, -1.5, 1.5));
    near("system-model:prediction", fv(sm_.PredictionGet(cv(S.u), cv(S.x))), S.mean(), 1); near("system-model:jacobian", fm(sm_.df_dxGet(cv(S.u), cv(S.x))), S.F(), big(S.F())); near("system-model:covariance", fm(sm_.CovarianceGet(cv(S.u), cv(S.x))), S.cov(), big(S.cov()));
    near("measurement-model:prediction", fv(mm.PredictionGet(cv(M.u), cv(M.x))), M.mean(), 1); near("measurement-model:jacobian", fm(mm.df_dxGet(cv(M.u), cv(M.x))), M.F(), big(M.F())); near("measurement-model:covariance", fm(mm.CovarianceGet(cv(M.u), cv(M.x))), M.cov(), big(M.cov())); ev("model_evaluations");
    GState s = fg(*f.PostGet()), w = s; int k = g.below(3); Vec z(nm); for (auto &v : z) v = g.uni(-2, 2); z = rd(z);
    if (k != 1) { S.x = s.mu; w = kfpredict(w, S.mean(), S.F(), S.cov()); } if (k != 0) { M.x = w.mu; w = kfupdate(w, z - M.mean(), M.F(), M.cov()); }
    if (k == 0) f.Update(&sm_, cv(S.u)); else if (k == 1) f.Update(&mm, cv(z), cv(M.u)); else f.Update(&sm_, cv(S.u), &mm, cv(z), cv(M.u));
    cmpg("filter", fg(*f.PostGet()), w, std::max(1.0L, maxabs(w.mu)), big(w.P), 1e-7L); if (maxabs(w.P) > 1e4L || maxabs(w.mu) > 1e4L) f.Reset(&prior); ev("filter_updates"); c.nontrivial = true;
  }
}
void H::run(Ctx &c) { if (c.id % 3 == 2) models(c); else pdfs(c); }
