// C04: the histogram filter is the exact discrete Bayes filter.
#include "common.h"
#include <filter/histogramfilter.h>
#include <pdf/discretepdf.h>
#include <pdf/discreteconditionalpdf.h>
#include <model/discretesystemmodel.h>
using namespace V; using namespace BFL; using MatrixWrapper::ColumnVector;

const char *H::rule =
  "A case is a random history (4-40 updates through all Update overloads, Resets) of a histogram filter with 1-20 (at times up to 150) states: random transition tables with and without inputs "
  "(sparse rows, absorbing states, deterministic moves), discrete measurement tables or user-defined continuous likelihoods, with and without sensor parameters, likelihoods spread over up to 60 decades, measurements "
  "that are impossible in some or in all states; rows of the tables edited and whole model distributions replaced between updates. After every update all posterior probabilities are compared (relative 1e-9) with a long-double Bayes "
  "recursion. Non-trivial: at least one prediction and one measurement. Distinct: hash of the reference posteriors.";
long H::ncases(bool t) { return t ? 100000 : 6000; }

// continuous measurement, discrete state: p(z|state[,s]) given by a user-supplied table of functions
struct UserLik : public ConditionalPdf<ColumnVector, int> {
  std::vector<double> centre, spread; double scale; bool two;
  UserLik(int n, bool two_, Rng &g) : ConditionalPdf<ColumnVector, int>(1, two_ ? 2 : 1), scale(1), two(two_) {
    for (int i = 0; i < n; i++) { centre.push_back(g.uni(-5, 5)); spread.push_back(g.uni(0.3, 2)); }
  }
  virtual UserLik *Clone() const { return new UserLik(*this); }
  double lik(double z, int st, int s) const { double d = (z - centre[st] - (two ? 0.1 * s : 0)) / spread[st]; return fabs(d) > 6 ? 0 : scale * std::exp(-0.5 * d * d) / spread[st]; }
  virtual Probability ProbabilityGet(const ColumnVector &z) const { ev("likelihood_evaluations"); return lik(z(1), ConditionalArgumentGet(0), two ? ConditionalArgumentGet(1) : 0); }
};

struct Table {   // p(out | in, k)
  int out, in, k; bool two; std::vector<double> t;
  std::unique_ptr<DiscreteConditionalPdf> pdf;
  double &at(int o, int i, int j) { return t[(j * in + i) * out + o]; }
  void make(Rng &g, int o, int i, int k_, bool two_, bool normalise, double decades) {
    out = o; in = i; two = two_; k = two ? k_ : 1; t.assign((size_t)out * in * k, 0);
    int style = g.range(0, 3);
    for (int a = 0; a < in; a++) for (int b = 0; b < k; b++) {
      double s = 0;
      for (int q = 0; q < out; q++) { double p = g.u01(); if (style == 1 && g.flip(0.6)) p = 0; if (style == 2) p = 0; if (decades > 0) p *= std::pow(10.0, -g.uni(0, decades)); at(q, a, b) = p; s += p; }
      if (style == 2 || s == 0) { at(g.below(out), a, b) = 1; s = 0; for (int q = 0; q < out; q++) s += at(q, a, b); }
      if (normalise) for (int q = 0; q < out; q++) at(q, a, b) /= s;
    }
    int dims[2] = {in, k};
    pdf.reset(new DiscreteConditionalPdf(out, two ? 2 : 1, dims));
    for (int q = 0; q < out; q++) for (int a = 0; a < in; a++) for (int b = 0; b < k; b++) {
      std::vector<int> ca(1, a); if (two) ca.push_back(b);
      pdf->ProbabilitySet(at(q, a, b), q, ca);
    }
  }
};

static std::vector<double> rprior(Rng &g, int n) {
  std::vector<double> p(n); int style = g.range(0, 2);
  for (auto &x : p) x = style == 1 && g.flip(0.5) ? 0 : g.u01() + 1e-3;
  double s = 0; for (double x : p) s += x;
  if (s == 0 || style == 2) { for (auto &x : p) x = 0; p[g.below(n)] = 1; }
  return p;
}
static Vec probs(const DiscretePdf &d) { std::vector<Probability> v = d.ProbabilitiesGet(); Vec r; for (auto &p : v) r.push_back((double)p); return r; }
static void setp(DiscretePdf &d, const std::vector<double> &p) { std::vector<Probability> v; for (double x : p) v.push_back(x); d.ProbabilitiesSet(v); }

static int nstates(Ctx &c) { return c.id % 60 == 59 ? 40 + (c.id / 60) % 111 : c.id % 20 + 1; }

template <class MV, class F> void go(Ctx &c, F mkz, MeasurementModel<MV, int> **mm, std::vector<char> &mtwo, std::vector<int> &mk, int nmeas,
                                     std::function<ld(int, const MV &, int, int)> lik, std::function<void(int)> replace) {
  Rng &g = c.g; int n = nstates(c);
  DiscretePdf prior(n); if (g.flip(0.8)) setp(prior, rprior(g, n));
  Vec pv = probs(prior);
  HistogramFilter<MV> f(&prior);
  int nsys = g.range(1, 2); std::vector<Table> S(nsys); std::vector<std::unique_ptr<DiscreteSystemModel>> sm;
  for (auto &s : S) { s.make(g, n, n, g.range(1, 3), g.flip(), true, 0); sm.emplace_back(new DiscreteSystemModel(s.pdf.get())); check((int)sm.back()->NumStatesGet() == n, "system-model-states"); }
  same("initial-posterior-is-prior", probs(*f.PostGet()), pv);
  c.note(fmt("states=%d prior=", n) + str(pv));
  std::vector<std::unique_ptr<DiscretePdf>> keep; std::vector<Vec> keepv;
  int np = 0, nm = 0, ops = n > 20 ? g.range(4, 12) : g.range(4, 40); bool dead = false;
  for (int o = 0; o < ops; o++) {
    Vec before = probs(*f.PostGet());
    int w = dead ? 0 : g.below(12);
    if (w == 0) {
      bool re = keep.size() && g.flip(0.3); if (!re) { keep.emplace_back(new DiscretePdf(n)); keepv.push_back(Vec()); } else ev("op_reset_same_object");
      if (!re || g.flip()) setp(*keep.back(), rprior(g, n)); keepv.back() = probs(*keep.back());
      f.Reset(keep.back().get()); same("reset-posterior-is-new-prior", probs(*f.PostGet()), keepv.back());
      c.note("Reset " + str(keepv.back())); ev("op_reset"); dead = false; continue;
    }
    if (g.flip(0.06)) {   // the model gets another distribution, with or without inputs, and the old one is destroyed
      int q = g.below(nsys); std::unique_ptr<DiscreteConditionalPdf> old = std::move(S[q].pdf); S[q].make(g, n, n, g.range(1, 3), g.flip(), true, 0); sm[q]->SystemPdfSet(S[q].pdf.get()); old.reset(); c.note("replace system pdf"); ev("op_replace_pdf");
      if (g.flip()) replace(g.below(nmeas));
      same("posterior-changed-by-model-edit", probs(*f.PostGet()), before);
    } else if (g.flip(0.08)) {   // edit a row of the transition table
      int q = g.below(nsys), a = g.below(n), b = g.below(S[q].k); double t = 0; for (int z = 0; z < n; z++) { double x = g.flip(0.3) ? 0 : g.u01(); S[q].at(z, a, b) = x; t += x; } if (t == 0) S[q].at(a, a, b) = t = 1;
      for (int z = 0; z < n; z++) { S[q].at(z, a, b) /= t; std::vector<int> ca(1, a); if (S[q].two) ca.push_back(b); S[q].pdf->ProbabilitySet(S[q].at(z, a, b), z, ca); } c.note("edit transition table"); ev("op_edit_table");
    }
    int si = g.below(nsys), mi = g.below(nmeas);
    bool dos = w <= 5 || w >= 9, dom = w >= 6;
    int u = g.below(S[si].k), s = mtwo[mi] ? g.below(mk[mi]) : 0;
    Vec want = before;
    if (dos) { Vec q(n, 0.0L); for (int b = 0; b < n; b++) for (int a = 0; a < n; a++) q[b] += (ld)S[si].at(b, a, S[si].two ? u : 0) * want[a]; ld t = 0; for (ld x : q) t += x; for (auto &x : q) x /= t; want = q; np++; }
    MV z = mkz(mi); ld tot = 1;
    if (dom) { tot = 0; for (int a = 0; a < n; a++) { want[a] *= lik(mi, z, a, s); tot += want[a]; } if (tot > 0) for (auto &x : want) x /= tot; nm++; }
    SystemModel<int> *a = sm[si].get(); bool ok; MeasurementModel<MV, int> *b = mm[mi];
    if (dos && dom) { if (S[si].two && mtwo[mi]) ok = f.Update(a, u, b, z, s); else if (mtwo[mi]) ok = f.Update(a, b, z, s); else if (S[si].two) ok = f.Update(a, u, b, z); else ok = f.Update(a, b, z); }
    else if (dos) ok = S[si].two ? f.Update(a, u) : f.Update(a);
    else ok = mtwo[mi] ? f.Update(b, z, s) : f.Update(b, z);
    if (dos) c.note(fmt("predict u=%d T=", u) + str(Vec(S[si].t.begin(), S[si].t.end())));
    if (dom) { Vec l; for (int q = 0; q < n; q++) l.push_back(lik(mi, z, q, s)); c.note("likelihoods " + str(l)); }
    if (tot == 0) { check(!ok, "impossible-measurement-accepted", "no state can produce the measurement, but Update reported success"); ev("impossible_measurements"); dead = true; continue; }
    if (tot < 1e-280L) { dead = true; ev("underflow_skipped"); continue; }
    check(ok, "update-returned-false");
    Vec got = probs(*f.PostGet()); ld sum = 0;
    for (int q = 0; q < n; q++) { if (want[q] > 1e-200L) near(dom ? "posterior" : "prediction", got[q], want[q], 0, 1e-9L); else near("posterior-tiny", got[q], want[q], 1e-190L, 1); sum += got[q]; }
    near("posterior-sum", sum, 1, 1, 1e-10L);
    int mp = f.PostGet()->MostProbableStateGet(); check(mp >= 0 && mp < n && got[mp] == *std::max_element(got.begin(), got.end()), "most-probable-state");
    ev(dos ? (dom ? "op_joint" : "op_prediction") : "op_measurement");
  }
  same("prior-modified", probs(prior), pv);
  for (size_t i = 0; i < keep.size(); i++) same("prior-modified", probs(*keep[i]), keepv[i]);
  c.nontrivial = np && nm && n > 1;
}

void H::run(Ctx &c) {
  Rng &g = c.g; int n = nstates(c); int nmeas = g.range(1, 2);
  std::vector<char> two; std::vector<int> k;
  if (g.flip(0.6)) {
    std::vector<Table> M(nmeas); std::vector<std::unique_ptr<MeasurementModel<int, int>>> mm; MeasurementModel<int, int> *pm[2];
    int i = 0;
    for (auto &m : M) { m.make(g, g.range(2, 5), n, g.range(1, 3), g.flip(0.4), g.flip(), g.flip(0.3) ? 60 : 0); mm.emplace_back(new MeasurementModel<int, int>(m.pdf.get())); pm[i++] = mm.back().get(); two.push_back(m.two); k.push_back(m.k); }
    ev("cases_discrete_measurement");
    go<int>(c, [&](int mi) { return (int)g.below(M[mi].out); }, pm, two, k, nmeas, [&](int mi, const int &z, int st, int s) { return (ld)M[mi].at(z, st, s); },
      [&](int mi) { Table &m = M[mi]; std::unique_ptr<DiscreteConditionalPdf> old = std::move(m.pdf); m.make(g, m.out, n, g.range(1, 3), g.flip(0.4), g.flip(), 0); pm[mi]->MeasurementPdfSet(m.pdf.get()); two[mi] = m.two; k[mi] = m.k; c.note("replace measurement pdf"); });
  } else {
    std::vector<std::unique_ptr<UserLik>> M; std::vector<std::unique_ptr<MeasurementModel<ColumnVector, int>>> mm; MeasurementModel<ColumnVector, int> *pm[2];
    for (int i = 0; i < nmeas; i++) { M.emplace_back(new UserLik(n, g.flip(0.4), g)); mm.emplace_back(new MeasurementModel<ColumnVector, int>(M.back().get())); pm[i] = mm.back().get(); two.push_back(M[i]->two); k.push_back(4); }
    ev("cases_continuous_measurement");
    go<ColumnVector>(c, [&](int mi) { Vec z(1); z[0] = (double)(M[mi]->centre[g.below(n)] + g.uni(-3, 3)); return cv(z); }, pm, two, k, nmeas, [&](int mi, const ColumnVector &z, int st, int s) { return (ld)M[mi]->lik(z(1), st, s); }, [&](int mi) { std::unique_ptr<UserLik> q(new UserLik(n, g.flip(0.4), g)); pm[mi]->MeasurementPdfSet(q.get()); M[mi] = std::move(q); two[mi] = M[mi]->two; });
  }
}
