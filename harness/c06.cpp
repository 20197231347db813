// C06: sampling from distributions with a finite support follows their current probabilities.
#include "sampling.h"
#include <pdf/discretepdf.h>
#include <pdf/discreteconditionalpdf.h>
#include <pdf/mcpdf.h>
#include <pdf/mixture.h>
#include <pdf/gaussian.h>
using namespace V; using namespace BFL; using MatrixWrapper::ColumnVector;

const char *H::rule =
  "A case builds one distribution with finite support (discrete, discrete conditional, weighted sample set, mixture) by a random history of edits (so that any cached cumulative table must "
  "have been refreshed), including zero-probability states at the beginning, in the middle and at the end, and then samples it by every overload and method. The library's random draws are "
  "replaced: extreme draws (0 and 1-2^-32) must stay inside the support, an equidistant grid of draws must reproduce the probabilities to within 3 counts, bisection over the uniform draw must find an interval of exactly its probability for every category, independent draws "
  "must pass a chi-square test (z<8). Non-trivial: at least two categories of non-zero probability. Distinct: hash of the probabilities and the history.";
long H::ncases(bool t) { return t ? 30000 : 2000; }

static std::vector<double> weights(Rng &g, int n) {
  std::vector<double> w(n); int style = g.range(0, 4); double lo = g.flip() ? -6 : -14;
  for (auto &x : w) x = style == 1 && g.flip(0.4) ? 0 : style == 2 ? std::pow(10.0, g.uni(lo, 0)) : g.u01() + 0.01;
  if (style == 3) { w[0] = 0; w[n - 1] = 0; }
  double s = 0; for (double x : w) s += x;
  if (s == 0 || style == 4) { for (auto &x : w) x = style == 4 ? 1.0 : 0; w[g.below(n)] = 1; }
  return w;
}
static std::vector<double> norm(std::vector<double> w) { double s = 0; for (double x : w) s += x; for (auto &x : w) x /= s; return w; }
struct Tag : public Pdf<int> {   // component that returns its own number
  int id; Tag(int i) : Pdf<int>(1), id(i) {}
  virtual Tag *Clone() const { return new Tag(*this); }
  virtual bool SampleFrom(Sample<int> &s, const SampleMthd, void *) const { s.ValueSet(id); return true; }
  virtual bool SampleFrom(std::vector<Sample<int>> &l, const unsigned int n, const SampleMthd, void *) const { l.resize(n); for (auto &s : l) s.ValueSet(id); return true; }
  virtual Probability ProbabilityGet(const int &x) const { return x == id ? 1.0 : 0.0; }
};

template <class P> std::function<std::vector<int>(int)> sampler(const P &p, int how, std::function<int(const Sample<int> &)> id = [](const Sample<int> &s) { return s.ValueGet(); }) {
  return [&p, how, id](int n) {
    std::vector<int> r; 
    if (how == 0) { for (int i = 0; i < n; i++) { Sample<int> s(1); check(p.SampleFrom(s, SampleMthd::DEFAULT, NULL), "sample-returned-false"); r.push_back(id(s)); } }
    else { static unsigned pre = 0; std::vector<Sample<int>> l(pre++ % 3 == 0 ? n + 1 + pre % 5 : pre % 4); bool ok = p.SampleFrom(l, (unsigned int)n, how == 1 ? SampleMthd::DEFAULT : SampleMthd::RIPLEY, NULL); check(ok, "sample-list-returned-false"); for (auto &s : l) r.push_back(id(s)); }
    return r;
  };
}
static const char *hows[] = {"single", "list", "list-ripley"};

void H::run(Ctx &c) {
  Rng &g = c.g; int N = c.thorough ? 4000 : 1500; int kind = g.below(4);
  std::vector<double> p;
  if (kind == 0) {
    int n = g.flip(0.05) ? g.range(50, 400) : g.range(1, 15); DiscretePdf d(n); c.note(fmt("discrete states=%d", n));
    int e = g.range(0, 4);
    for (int i = 0; i < e; i++) {
      if (g.flip()) { std::vector<Probability> v; for (double x : weights(g, n)) v.push_back(x); d.ProbabilitiesSet(v); c.note("set all"); }
      else { int s = g.below(n); double a = n == 1 ? 1 : g.pick(std::vector<double>{0, 1, 0.5, g.u01()}); d.ProbabilitySet(s, a); c.note(fmt("set %d %.17g", s, a)); }
    }
    std::unique_ptr<DiscretePdf> cp; DiscretePdf asg(g.range(1, 5)); const DiscretePdf *use = &d;
    switch (g.below(4)) { case 0: cp.reset(new DiscretePdf(d)); use = cp.get(); c.note("copied"); break; case 1: cp.reset(d.Clone()); use = cp.get(); break; case 2: asg = d; use = &asg; c.note("assigned"); break; }
    for (auto &q : use->ProbabilitiesGet()) p.push_back(q.getValue());
    for (int h = 0; h < 3; h++) finite_sampler(std::string("discrete:") + hows[h], g, p, sampler(*use, h), h < 2, N);
    ev("discrete_pdfs");
  } else if (kind == 1) {
    int n = g.flip(0.05) ? g.range(20, 80) : g.range(1, 8), na = g.range(1, 3), dims[3], tot = 1; for (int i = 0; i < na; i++) { dims[i] = g.range(1, 4); tot *= dims[i]; }
    DiscreteConditionalPdf d(n, na, dims); std::map<std::vector<int>, std::vector<double>> T;
    for (int t = 0; t < tot; t++) { std::vector<int> ca; int q = t; for (int i = 0; i < na; i++) { ca.push_back(q % dims[i]); q /= dims[i]; } std::vector<double> w = weights(g, n); if (g.flip()) w = norm(w); T[ca] = w; for (int s = 0; s < n; s++) d.ProbabilitySet(w[s], s, ca); }
    c.note(fmt("discrete conditional states=%d args=%d", n, na));
    for (int rep = 0; rep < 3; rep++) {
      auto it = T.begin(); std::advance(it, g.below(tot));
      if (g.flip()) d.ConditionalArgumentsSet(it->first); else for (int i = 0; i < na; i++) d.ConditionalArgumentSet(i, it->first[i]);
      for (int s = 0; s < n; s++) near("discrete-conditional:probability", (double)d.ProbabilityGet(s), it->second[s], 0, 0);
      p = norm(it->second);
      for (int h = 0; h < 2; h++) finite_sampler(std::string("discrete-conditional:") + hows[h], g, p, sampler(d, h), true, N);
    }
    ev("discrete_conditional_pdfs");
  } else if (kind == 2) {
    int n = g.flip(0.05) ? g.range(50, 400) : g.range(1, 25); bool vec = g.flip(); std::vector<double> w;
    c.note(fmt("sample set n=%d vector=%d", n, vec));
    if (vec) {
      MCPdf<ColumnVector> m(g.flip() ? n : g.range(1, 30), 2); std::vector<WeightedSample<ColumnVector>> ws(n, WeightedSample<ColumnVector>(2));
      int e = g.range(1, 3); bool first = true;
      for (int k = 0; k < e; k++) {
        w = weights(g, n); for (int i = 0; i < n; i++) { Vec v(2); v[0] = i; v[1] = -i; ws[i].ValueSet(cv(v)); ws[i].WeightSet(w[i]); }
        if (g.flip(0.25)) { std::vector<Sample<ColumnVector>> us(ws.begin(), ws.end()); w.assign(n, 1); check(first || g.flip() ? m.ListOfSamplesSet(us) : m.ListOfSamplesUpdate(us), "set-samples"); }
        else check(first || g.flip() ? m.ListOfSamplesSet(ws) : m.ListOfSamplesUpdate(ws), "set-samples");
        first = false; c.note("set weights " + str(Vec(w.begin(), w.end())));
      }
      p = norm(w); std::unique_ptr<MCPdf<ColumnVector>> cp; const MCPdf<ColumnVector> *use = &m; MCPdf<ColumnVector> asg(3, 2);
      switch (g.below(4)) { case 0: cp.reset(m.Clone()); use = cp.get(); break; case 1: asg = m; use = &asg; break; }
      for (int h = 0; h < 3; h++) finite_sampler(std::string("sample-set:") + hows[h], g, p, [&, h](int k) {
        std::vector<int> r; auto id = [](const Sample<ColumnVector> &s) { check(s.ValueGet().rows() == 2 && s.ValueGet()(2) == -s.ValueGet()(1), "sample-set:not-a-particle"); return (int)s.ValueGet()(1); };
        if (h == 0) for (int i = 0; i < k; i++) { Sample<ColumnVector> s(2); check(use->SampleFrom(s), "sample"); r.push_back(id(s)); }
        else { static unsigned pre = 0; std::vector<Sample<ColumnVector>> l(pre++ % 3 == 0 ? k + 1 + pre % 5 : pre % 4); check(use->SampleFrom(l, k, h == 1 ? SampleMthd::DEFAULT : SampleMthd::RIPLEY), "sample"); for (auto &s : l) r.push_back(id(s)); }
        return r; }, h < 2, N);
    } else {
      MCPdf<int> m(n, 1); std::vector<WeightedSample<int>> ws(n, WeightedSample<int>(1)); w = weights(g, n);
      for (int i = 0; i < n; i++) { ws[i].ValueSet(i); ws[i].WeightSet(w[i]); }
      check(m.ListOfSamplesSet(ws), "set-samples"); p = norm(w);
      for (int h = 0; h < 3; h++) finite_sampler(std::string("sample-set-int:") + hows[h], g, p, sampler(m, h), h < 2, N);
    }
    ev("sample_sets");
  } else {
    int n = g.flip(0.05) ? g.range(30, 100) : g.range(1, 10); std::vector<Tag *> comp; for (int i = 0; i < n; i++) comp.push_back(new Tag(i));
    std::vector<Pdf<int> *> cv_(comp.begin(), comp.end());
    std::unique_ptr<Mixture<int>> m(g.flip(0.5) ? new Mixture<int>(cv_) : new Mixture<int>(1u)); std::vector<int> ids; 
    if (m->NumComponentsGet() == 0) { for (int i = 0; i < n; i++) { if (g.flip()) m->AddComponent(*comp[i]); else m->AddComponent(*comp[i], g.u01()); } c.note("added one by one"); }
    for (int i = 0; i < n; i++) ids.push_back(i);
    int e = g.range(0, 5);
    for (int k = 0; k < e; k++) {
      int nc = ids.size(); int w = g.below(4);
      if (w == 0) { std::vector<Probability> v; for (double x : weights(g, nc)) v.push_back(x); check(m->WeightsSet(v), "mixture:weights"); c.note("set weights"); }
      else if (w == 1) { m->WeightSet(g.below(nc), nc == 1 ? 1.0 : g.pick(std::vector<double>{0.0, 1.0, g.u01()})); c.note("set weight"); }
      else if (w == 2) { Tag t(100 + k); ids.push_back(100 + k); if (g.flip()) m->AddComponent(t); else m->AddComponent(t, g.u01()); c.note("add"); }
      else if (nc > 1) { int q = g.below(nc); double rest = 1 - (double)m->WeightGet(q); if (rest > 1e-9) { check(m->DeleteComponent(q), "mixture:delete"); ids.erase(ids.begin() + q); c.note("delete"); } }
    }
    for (auto *t : comp) delete t;
    std::unique_ptr<Mixture<int>> cp; const Mixture<int> *use = m.get(); if (g.flip(0.3)) { cp.reset(m->Clone()); use = cp.get(); } else if (g.flip(0.3)) { cp.reset(new Mixture<int>(1u)); *cp = *m; use = cp.get(); }
    for (auto &q : use->WeightsGet()) p.push_back(q.getValue());
    check(p.size() == ids.size(), "mixture:components");
    for (int h = 0; h < 3; h++) finite_sampler(std::string("mixture:") + hows[h], g, p, sampler(*use, h, [&](const Sample<int> &s) { for (size_t i = 0; i < ids.size(); i++) if (ids[i] == s.ValueGet()) return (int)i; return -1; }), h < 2, N);
    ev("mixtures");
  }
  int nz = 0; for (double x : p) { c.h = mixd(c.h, x); if (x > 0) nz++; }
  c.h = mix(c.h, kind); c.nontrivial = nz > 1;
  c.note("p=" + str(Vec(p.begin(), p.end())));
}
