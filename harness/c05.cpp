// C05: discrete probability distributions stay normalised through every history of edits.
#include "common.h"
#include <pdf/discretepdf.h>
using namespace V; using namespace BFL;

const char *H::rule =
  "A case is a history of 3-40 operations on discrete distributions with 1-40 (at times up to 1000) states (set all probabilities from unnormalised weights over up to 200 decades or from weights that sum to one up to a relative error of 1e-15 to 1e-2, set a single "
  "probability to 0, 1, tiny or ordinary values, copy, clone, assign, reject an all-zero vector and recover). After every operation all probabilities are "
  "compared with a long-double model, their sum with one, and the most probable state with the maximum. Non-trivial: more than one state and at least "
  "two edits. Distinct: hash of the reference probabilities.";
long H::ncases(bool t) { return t ? 100000 : 6000; }
static Vec probs(const DiscretePdf &d) { std::vector<Probability> v = d.ProbabilitiesGet(); Vec r; for (auto &p : v) r.push_back((double)p); return r; }

static void compare(const DiscretePdf &d, const Vec &m, const char *what) {
  Vec p = probs(d); ld s = 0;
  check(p.size() == m.size() && d.NumStatesGet() == m.size() && d.DimensionGet() == 1, std::string(what) + ":size");
  for (size_t i = 0; i < m.size(); i++) { near(std::string(what) + ":probability", p[i], m[i], 1e-290L, 1e-11L); check((double)d.ProbabilityGet(i) == (double)p[i], std::string(what) + ":list-differs-from-single"); check(p[i] >= 0, std::string(what) + ":negative"); s += p[i]; }
  near(std::string(what) + ":sum", s, 1, 1, 1e-12L);
  int mp = const_cast<DiscretePdf &>(d).MostProbableStateGet();
  check(mp >= 0 && mp < (int)p.size() && p[mp] == *std::max_element(p.begin(), p.end()), std::string(what) + ":most-probable-state", fmt("%d of ", mp) + str(p));
}

void H::run(Ctx &c) {
  Rng &g = c.g; int n = g.flip(0.02) ? g.range(100, 1000) : g.flip(0.3) ? g.range(1, 3) : g.range(1, 40);
  std::vector<std::unique_ptr<DiscretePdf>> P; std::vector<Vec> M;
  P.emplace_back(new DiscretePdf(n)); M.push_back(Vec(n, 1.0L / n)); c.note(fmt("states=%d", n));
  compare(*P[0], M[0], "uniform");
  int ops = n > 40 ? g.range(3, 10) : g.range(3, 40), edits = 0;
  for (int o = 0; o < ops; o++) {
    int i = g.below(P.size()); DiscretePdf &d = *P[i]; Vec &m = M[i]; int k = m.size();
    int w = g.below(12);
    if (w <= 3) {
      std::vector<Probability> v(k); ld s = 0; Vec wv(k); double dec = g.flip(0.3) ? 200 : 1; int style = g.range(0, 5);
      for (int q = 0; q < k; q++) { double x = std::pow(10.0, g.uni(-dec, dec > 1 ? 50 : 0)); if (style == 1 && g.flip()) x = 0; if (style == 2) x = 3.0; wv[q] = x; }
      if (style == 3) for (auto &x : wv) x = 0; 
      if (style == 4) { ld t = 0; for (auto &x : wv) { x = g.u01() + 0.01; t += x; } ld f = 1 + (g.flip() ? 1 : -1) * powl(10.0L, g.uni(-15, -2)); for (auto &x : wv) x = (double)(x / t * f); ev("op_nearly_normalised"); }   // sums to one up to a small error
      if (style == 5) {   // close to the present table: permuted, one entry changed, pair exchanged
        for (int q = 0; q < k; q++) wv[q] = (double)m[q]; int a = g.below(k), b = g.below(k);
        switch (g.below(4)) { case 0: std::swap(wv[a], wv[b]); break; case 1: wv[a] = (double)(wv[a] + 1e-9L); break; case 2: wv[a] = 2 * wv[a]; break; default: { ld mv = wv[a] / 2; wv[a] = (double)(wv[a] - mv); wv[b] = (double)(wv[b] + mv); } } ev("op_set_all_close");
      }
      bool allzero = true; for (ld x : wv) if (x > 0) allzero = false;
      if (allzero && style == 3 && g.flip(0.7)) { wv[g.below(k)] = g.uni(0.1, 9); allzero = false; }
      for (int q = 0; q < k; q++) { v[q] = (double)wv[q]; s += wv[q]; }
      bool ok = d.ProbabilitiesSet(v); c.note("set all " + str(wv));
      if (allzero) { check(!ok, "all-zero-accepted", "an all-zero vector cannot be normalised but was accepted"); std::vector<Probability> u(k, Probability(1.0)); check(d.ProbabilitiesSet(u), "recover"); m = Vec(k, 1.0L / k); ev("op_all_zero_rejected"); }
      else { check(ok, "set-all-returned-false"); for (int q = 0; q < k; q++) m[q] = wv[q] / s; for (int q = 0; q < k; q++) check((double)v[q] == (double)wv[q], "argument-modified"); ev("op_set_all"); }
      edits++;
    } else if (w <= 7) {
      int st = g.below(k); double a;
      switch (g.below(6)) { case 0: a = 0; break; case 1: a = 1; break; case 2: a = std::pow(10.0, -g.uni(1, 14)); break; case 3: a = 1 - std::pow(10.0, -g.uni(1, 14)); break; case 4: a = (double)m[st]; break; default: a = g.u01(); }
      if (a > 1) a = 1;
      if (k == 1) a = 1;
      bool ok = d.ProbabilitySet(st, a); c.note(fmt("set state %d to %.17g", st, a)); check(ok, "set-one-returned-false");
      ld oth = 0; for (int q = 0; q < k; q++) if (q != st) oth += m[q];
      // the reference only follows when the library's own value decides between "zero" and "tiny"
      bool zero = oth == 0;
      for (int q = 0; q < k; q++) if (q != st) m[q] = zero ? (1 - (ld)a) / (k - 1) : m[q] / oth * (1 - (ld)a);
      m[st] = a; check((double)d.ProbabilityGet(st) == a, "set-one-value", fmt("asked %.17g got %.17g", a, (double)d.ProbabilityGet(st)));
      ev("op_set_one"); edits++;
    } else if (w == 8 && P.size() < 5) { P.emplace_back(new DiscretePdf(*P[i])); M.push_back(Vec(M[i])); c.note("copy"); ev("op_copy"); }
    else if (w == 9 && P.size() < 5) { P.emplace_back(P[i]->Clone()); M.push_back(Vec(M[i])); c.note("clone"); ev("op_clone"); }
    else if (w == 10 && P.size() < 5) { int q = g.range(1, 12); P.emplace_back(new DiscretePdf(q)); M.push_back(Vec(q, 1.0L / q)); ev("op_new"); }
    else if (P.size() > 1) { int j = g.below(P.size()); *P[i] = *P[j]; M[i] = Vec(M[j]); c.note("assign"); ev("op_assign"); }
    for (size_t q = 0; q < P.size(); q++) compare(*P[q], M[q], q == (size_t)i ? "edited" : "untouched");
    // resynchronise with the stored doubles so that errors do not add up over the history
    for (size_t q = 0; q < P.size(); q++) { Vec p = probs(*P[q]); M[q] = p; }
  }
  c.nontrivial = n > 1 && edits >= 2;
}
