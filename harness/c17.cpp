// C17: copies, clones and assignments are equal and independent.
#include "programs.h"
#include <pdf/analyticconditionalgaussian_additivenoise.h>
#include <sample/weightedsample.h>
using namespace V; using namespace P;
const char *H::rule =
  "A case takes one of 19 value types (Gaussian, Uniform, DiscretePdf, MCPdf of vectors, integers and reals, Mixture of Gaussians and of sample sets, linear and discrete conditional pdfs, user-defined conditional Gaussians with and without additive noise, discrete system model, sample, weighted sample, column and row vector, matrix, symmetric matrix), builds an object by random edits and evaluations (caches filled or not), "
  "and makes a family of up to 6 objects from it by copy construction, Clone, assignment to a fresh, a used, a differently sized or the same object. Everything observable of every object (parameters, densities, moments, conditional arguments, samples for fixed draws) is recorded; after every edit, evaluation, copy, assignment or destruction of one object the observations of all the others must be unchanged, and a "
  "copy must observe as its original and react to the same edit in the same way. Non-trivial: at least one copy or assignment and one edit. Distinct: hash of the observations.";
long H::ncases(bool t) { return t ? 60000 : 5000; }

template <class T> struct VBox : public Any { T p; const std::type_info &type() { return typeid(VBox<T>); } explicit VBox(const T &q) : p(q) {} void assign(Any *a, Rng &) { VBox *b = dynamic_cast<VBox *>(a); p = b->p; ev("assignments"); } };
struct VS : public VBox<Sample<CV>> { VS(const Sample<CV> &s) : VBox(s) {} Any *copy(Rng &) { return new VS(p); } void edit(Rng &g) { p.ValueSet(cv(rd(rvec(g, p.ValueGet().rows())))); } void use(Rng &, Obs &o) { o(fv(p.ValueGet())); o.d(p.DimensionGet()); } };
struct VW : public VBox<WeightedSample<CV>> { VW(const WeightedSample<CV> &s) : VBox(s) {} Any *copy(Rng &) { return new VW(p); } void edit(Rng &g) { if (g.flip()) p.ValueSet(cv(rd(rvec(g, p.ValueGet().rows())))); else p.WeightSet(g.flip(0.3) ? 0 : g.u01()); } void use(Rng &, Obs &o) { o(fv(p.ValueGet())); o.d(p.WeightGet()); o.d(p.DimensionGet()); } };
struct VC : public VBox<CV> { VC(const CV &s) : VBox(s) {} Any *copy(Rng &g) { return new VC(p); } void edit(Rng &g) { int n = p.rows(); switch (g.below(4)) { case 0: p(g.range(1, n)) = g.uni(-3, 3); break; case 1: p += cv(rd(rvec(g, n))); break; case 2: p *= g.uni(0.5, 2); break; default: p = g.uni(-1, 1); } } void use(Rng &, Obs &o) { o(fv(p)); o(fv(p.transpose())); } };
struct VR : public VBox<RV> { VR(const RV &s) : VBox(s) {} Any *copy(Rng &g) { return new VR(p); } void edit(Rng &g) { int n = p.columns(); switch (g.below(4)) { case 0: p(g.range(1, n)) = g.uni(-3, 3); break; case 1: p += rv(rd(rvec(g, n))); break; case 2: p *= g.uni(0.5, 2); break; default: p = g.uni(-1, 1); } } void use(Rng &, Obs &o) { o(fv(p)); o(fv(p.transpose())); } };
struct VM : public VBox<BM> { VM(const BM &s) : VBox(s) {} Any *copy(Rng &g) { return new VM(p); } void edit(Rng &g) { int r = p.rows(), c = p.columns(); switch (g.below(4)) { case 0: p(g.range(1, r), g.range(1, c)) = g.uni(-3, 3); break; case 1: p += bm(rd(rmat(g, r, c))); break; case 2: p *= g.uni(0.5, 2); break; default: p = g.uni(-1, 1); } } void use(Rng &, Obs &o) { o(fm(p)); o(fm((BM)p.transpose())); } };
struct VY : public VBox<SM> { VY(const SM &s) : VBox(s) {} Any *copy(Rng &g) { return new VY(p); } void edit(Rng &g) { int r = p.rows(); switch (g.below(4)) { case 0: { int i = g.range(1, r), j = g.range(1, r); double v = g.uni(-3, 3); p(i, j) = v; p(j, i) = v; break; } case 1: p += sm(rspd(g, r)); break; case 2: p *= g.uni(0.5, 2); break; default: p = g.uni(-1, 1); } } void use(Rng &, Obs &o) { o(fm(p)); } };
struct MI : public Box<MCPdf<int>> { typedef MCPdf<int> L; MI(L *q) : Box<L>(q) {} Box<L> *wrap(L *q) { return new MI(q); } void edit(Rng &g) { Up<L> q(mcint(g, g.flip() ? p->NumSamplesGet() : g.range(1, 12), 9)); p->ListOfSamplesSet(q->ListOfSamplesGet()); } void use(Rng &g, Obs &o) { o(p.get()); Sample<int> s(1); p->SampleFrom(s); o.d(s.ValueGet()); } };
struct MD : public Box<MCPdf<double>> { typedef MCPdf<double> L; MD(L *q) : Box<L>(q) {} Box<L> *wrap(L *q) { return new MD(q); }
  static void fill(Rng &g, L &p, int N) { std::vector<WeightedSample<double>> l(N, WeightedSample<double>(1)); for (auto &s : l) { s.ValueSet(g.uni(-2, 2)); s.WeightSet(g.uni(0.1, 1)); } p.ListOfSamplesSet(l); }
  void edit(Rng &g) { fill(g, *p, g.flip() ? p->NumSamplesGet() : g.range(1, 12)); } void use(Rng &g, Obs &o) { for (auto &s : p->ListOfSamplesGet()) { o.d(s.ValueGet()); o.d(s.WeightGet()); } for (double x : p->CumulativePDFGet()) o.d(x); Sample<double> s(1); p->SampleFrom(s); o.d(s.ValueGet()); } };
struct XM : public Box<Mixture<CV>> { typedef Mixture<CV> L; XM(L *q) : Box<L>(q) {} Box<L> *wrap(L *q) { return new XM(q); }
  void edit(Rng &g) { int K = p->NumComponentsGet(), w = g.below(4), n = p->DimensionGet(); if (w == 0) { Up<MCPdf<CV>> q(mc(g, g.range(1, 6), n)); p->AddComponent(*q, g.uni(0.1, 1)); } else if (w == 1 && K > 1) { int k = g.below(K); if ((double)p->WeightGet(k) < 0.999) p->DeleteComponent(k); } else if (w == 2) { std::vector<Probability> v; for (int i = 0; i < K; i++) v.push_back(g.uni(0.1, 1)); p->WeightsSet(v); } else { MCPdf<CV> *m = dynamic_cast<MCPdf<CV> *>(p->ComponentGet(g.below(K))); Up<MCPdf<CV>> q(mc(g, g.range(1, 6), n)); m->ListOfSamplesSet(q->ListOfSamplesGet()); } }
  void use(Rng &g, Obs &o) { o(p.get()); o(fv(p->ExpectedValueGet())); draw(g, o, p.get()); } };
struct UAdd : public AnalyticConditionalGaussianAdditiveNoise { Mat A; UAdd(const Mat &a, const Gaussian &n, int na) : AnalyticConditionalGaussianAdditiveNoise(n, na), A(a) {} UAdd *Clone() const { return new UAdd(*this); } CV ExpectedValueGet() const { Vec x = A * fv(ConditionalArgumentGet(0)); for (auto &v : x) v = sinl(v); return cv(rd(x + fv(AdditiveNoiseMuGet()))); } BM dfGet(unsigned) const { return bm(A); } };
struct XU : public Box<UAdd> { XU(UAdd *q) : Box<UAdd>(q) {} Box<UAdd> *wrap(UAdd *q) { return new XU(q); } void edit(Rng &g) { int n = p->DimensionGet(); switch (g.below(3)) { case 0: p->AdditiveNoiseMuSet(cv(rd(rvec(g, n)))); break; case 1: p->AdditiveNoiseSigmaSet(sm(rspd(g, n, 0.1, 2))); break; default: p->ConditionalArgumentSet(0, cv(rd(rvec(g, p->A.c)))); } } void use(Rng &g, Obs &o) { o.d(p->NumConditionalArgumentsGet()); o(fv(p->ConditionalArgumentGet(0))); o(fv(p->AdditiveNoiseMuGet())); o(fm(p->CovarianceGet())); o(fv(p->ExpectedValueGet())); o.d(p->ProbabilityGet(cv(rd(rvec(g, p->DimensionGet(), -1, 1))))); draw(g, o, p.get()); } };
struct XN : public Any { Up<NL> m; Up<NLPdf> p; const std::type_info &type() { return typeid(XN); } XN(const NL &n, NLPdf *q) : m(new NL(n)), p(q) { p->m = m.get(); } Any *copy(Rng &g) { return new XN(*m, g.flip() ? p->Clone() : new NLPdf(*p)); } void assign(Any *a, Rng &) { XN *b = dynamic_cast<XN *>(a); if (b == this) return; *m = *b->m; *p = *b->p; p->m = m.get(); ev("assignments"); } void edit(Rng &g) { p->ConditionalArgumentSet(0, cv(rd(rvec(g, m->A.c)))); if (m->two) p->ConditionalArgumentSet(1, cv(rd(rvec(g, m->B.c)))); } void use(Rng &g, Obs &o) { o(p->x()); o(p->u()); o(fv(p->ExpectedValueGet())); o(fm(p->CovarianceGet())); o.d(p->ProbabilityGet(cv(rd(rvec(g, p->DimensionGet(), -1, 1))))); draw(g, o, p.get()); } };
struct XS : public Any { DS *d; DiscreteSystemModel p; int n, b; const std::type_info &type() { return typeid(XS); } XS(DS *d_, const DiscreteSystemModel &q, int n_) : d(d_), p(q), n(n_), b(d_->b) {} Any *copy(Rng &) { return new XS(d, p, n); } void assign(Any *a, Rng &) { XS *x = dynamic_cast<XS *>(a); p = x->p; d = x->d; n = x->n; b = x->b; ev("assignments"); } void edit(Rng &) {} void use(Rng &, Obs &o) { o.d(p.NumStatesGet()); o.d(p.SystemWithoutInputs()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < std::max(1, b); k++) o.d(b ? p.ProbabilityGet(i, j, k) : p.ProbabilityGet(i, j)); } };

static DS *theds(Rng &g, int n, std::vector<Up<DS>> &keep) { keep.emplace_back(new DS(g, n)); return keep.back().get(); }
static Any *make(int kind, Rng &g, std::vector<Up<DS>> &keep) {
  int n = g.range(1, 4);
  switch (kind) {
    case 0: return new BG(gauss(g, n)); case 1: return new BU(new Uniform(cv(rd(rvec(g, n))), cv(rd(rvec(g, n, 0.1, 3))))); case 2: return new BD(dprior(g, n + 1)); case 3: return new BM_(mc(g, g.range(1, 12), n)); case 4: return new MI(mcint(g, g.range(1, 12), 9));
    case 5: { MCPdf<double> *m = new MCPdf<double>(3, 1); MD::fill(g, *m, g.range(1, 12)); return new MD(m); } case 6: { Mixture<CV> *m = new Mixture<CV>((unsigned)n); for (int k = g.range(1, 3); k--;) { Up<Gaussian> q(gauss(g, n)); m->AddComponent(*q); } return new BX(m); } case 7: return new XM(mixp(g, n));
    case 8: { Lin L; L.random(g, n, g.range(1, 3), g.range(1, 3), g.flip(), 0.1, 2, 0); L.make(); BL *b = new BL(L.pdf.release()); for (unsigned i = 0; i < b->p->NumConditionalArgumentsGet(); i++) b->p->ConditionalArgumentSet(i, cv(rd(rvec(g, b->p->MatrixGet(i).columns())))); return b; }
    case 9: { std::vector<int> d; for (int i = g.range(1, 3); i--;) d.push_back(g.range(1, 3)); DiscreteConditionalPdf *p = new DiscreteConditionalPdf(n, d.size(), d.data()); BC *b = new BC(p, d); int tot = 1; for (int x : d) tot *= x; for (int t = 0; t < tot; t++) { std::vector<int> c; int q = t; for (int x : d) { c.push_back(q % x); q /= x; } double s = 0; std::vector<double> w(n); for (auto &x : w) { x = g.uni(0.1, 1); s += x; } for (int i = 0; i < n; i++) p->ProbabilitySet(w[i] / s, i, c); } for (size_t i = 0; i < d.size(); i++) p->ConditionalArgumentSet(i, g.below(d[i])); return b; }
    case 10: { int k = g.range(1, 3); Up<Gaussian> q(gauss(g, n)); UAdd *u = new UAdd(rd(rmat(g, n, k)), *q, 1); u->ConditionalArgumentSet(0, cv(rd(rvec(g, k)))); return new XU(u); } case 11: { NL N; N.random(g, n, g.range(1, 3), g.range(1, 2), g.flip(), 1); NLPdf *p = new NLPdf(&N); p->ConditionalArgumentSet(0, cv(rd(rvec(g, N.A.c)))); if (N.two) p->ConditionalArgumentSet(1, cv(rd(rvec(g, N.B.c)))); return new XN(N, p); }
    case 12: { DS *d = theds(g, n, keep); return new XS(d, *d->m, n); } case 13: { Sample<CV> s(n); s.ValueSet(cv(rd(rvec(g, n)))); return new VS(s); } case 14: { WeightedSample<CV> s(n); s.ValueSet(cv(rd(rvec(g, n)))); s.WeightSet(g.flip(0.3) ? 0 : g.u01()); return new VW(s); }
    case 15: return new VC(cv(rd(rvec(g, n)))); case 16: return new VR(rv(rd(rvec(g, n)))); case 17: return new VM(bm(rd(rmat(g, n, g.range(1, 4))))); default: return new VY(sm(rspd(g, n)));
  }
}
static uint64_t look(Any *a) { Obs o; Draws s = D(); a->look(o); D() = s; return o.h; }
void H::run(Ctx &c) {
  Rng &g = c.g; int kind = c.id % 19; Silence q; std::vector<Up<DS>> keep; std::vector<Up<Any>> v; std::vector<uint64_t> h; std::string k = fmt("type-%d", kind); static const char *nm[] = {"Gaussian", "Uniform", "DiscretePdf", "MCPdf-vector", "MCPdf-int", "MCPdf-double", "Mixture-Gaussian", "Mixture-MCPdf", "LinearAnalyticConditionalGaussian", "DiscreteConditionalPdf", "user-AdditiveNoise", "user-ConditionalGaussian", "DiscreteSystemModel", "Sample", "WeightedSample", "ColumnVector", "RowVector", "Matrix", "SymmetricMatrix"}; k = nm[kind]; c.note(k);
  v.emplace_back(make(kind, g, keep)); for (int i = g.range(0, 4); i--;) { Obs o; if (g.flip()) v[0]->edit(g); else v[0]->look(o); } h.push_back(look(v[0].get())); int copies = 0, edits = 0;
  for (int i = g.range(4, 16); i--;) {
    int w = g.below(10); size_t a = g.below(v.size()), skip = 999; D().reset(Draws::CASE, g.next());
    if (w == 0 && v.size() < 6) { v.emplace_back(make(kind, g, keep)); h.push_back(look(v.back().get())); c.note("new"); }
    else if (w <= 3 && v.size() < 6) { v.emplace_back(v[a]->copy(g)); h.push_back(look(v.back().get())); check(h.back() == h[a], k + ":copy-differs"); copies++; c.note(fmt("copy %zu", a)); ev("copies"); }
    else if (w <= 5) { size_t b = g.below(v.size()); v[b]->assign(v[a].get(), g); h[b] = look(v[b].get()); check(h[b] == h[a], k + (a == b ? ":self-assignment-changed" : ":assigned-differs"), fmt("%zu = %zu", b, a)); copies++; c.note(fmt("assign %zu = %zu", b, a)); if (a == b) ev("self_assignments"); }
    else if (w == 6 && v.size() > 1) { v.erase(v.begin() + a); h.erase(h.begin() + a); c.note(fmt("destroy %zu", a)); ev("destructions"); }
    else {   // the same edit on two equal objects has the same effect
      size_t b = v.size(); for (size_t t = 0; t < v.size(); t++) if (t != a && h[t] == h[a]) b = t; Rng e(g.next()); uint64_t ds = g.next(); Rng e1 = e, e2 = e; D().reset(Draws::CASE, ds); v[a]->edit(e1); h[a] = look(v[a].get()); edits++; c.note(fmt("edit %zu", a));
      if (b < v.size() && g.flip()) { check(look(v[b].get()) == h[b], k + ":copy-changed-with-original"); D().reset(Draws::CASE, ds); v[b]->edit(e2); h[b] = look(v[b].get()); check(h[b] == h[a], k + ":copy-behaves-differently"); ev("parallel_edits"); }
    }
    for (size_t t = 0; t < v.size(); t++) check(look(v[t].get()) == h[t], k + ":changed-by-operation-on-another-object", fmt("object %zu", t)); for (uint64_t x : h) c.h = mix(c.h, x);
  }
  while (!v.empty()) { size_t a = g.below(v.size()); v.erase(v.begin() + a); h.erase(h.begin() + a); for (size_t t = 0; t < v.size(); t++) check(look(v[t].get()) == h[t], k + ":changed-by-destruction"); }
  c.nontrivial = copies && (edits || kind == 12); ev(std::string("type_") + nm[kind]);
}
