// C24: results depend only on the inputs.
#include "programs.h"
using namespace V; using namespace P;
const char *H::rule =
  "A case is one random program (the ten kinds of C16: filters, smoothers, mixtures, pools of distributions, matrix algebra) with fixed random draws. It is run alone, then again after up to three other programs whose objects may still be alive, "
  "and both traces of observable results must be identical. The whole workload runs on a build whose undefined stack and heap memory is filled with a garbage pattern and on one where it is zero; the driver compares the traces of every case bit by bit, and those of the Boost and "
  "Eigen back ends number by number up to rounding (tolerance: what perturbing every input by 1e-13 does to the results of this program, times 1000, plus 1e-8; chaotic programs are not compared). Non-trivial: at least ten results observed. Distinct: hash of all results.";
long H::ncases(bool t) { return t ? 40000 : 4000; }
// largest difference relative to the neighbouring results
static double distance(const std::vector<double> &a, const std::vector<double> &b) {
  double w = 0; for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (a[i] == b[i]) continue; double sc = 1e-6; for (size_t j = i < 12 ? 0 : i - 12; j < a.size() && j < i + 13; j++) if (std::isfinite(a[j])) sc = std::max(sc, fabs(a[j])); double d = fabs(a[i] - b[i]) / sc; if (!(d <= w)) w = std::isfinite(d) ? d : 9; } return w;
}
void H::run(Ctx &c) {
  int kind = c.id % kinds; Rng g(c.g.next()); uint64_t ds = c.g.next(); c.note(fmt("program kind %d", kind)); Silence q; Obs o(true); program(kind, g, ds, o);
  for (int i = c.g.range(0, 3); i--;) { Obs x; int k = c.g.flip(0.4) ? kind : c.g.below(kinds); program(k, Rng(c.g.next()), c.g.next(), x); ev("interposed_programs"); }
  // garbage in the memory the second run will get
  { std::vector<std::vector<double>> junk; for (int i = 0; i < 40; i++) junk.push_back(std::vector<double>(c.g.range(1, 40), c.g.uni(-1e3, 1e3))); }
  Obs p; program(kind, g, ds, p); check(p.n == o.n && p.h == o.h, "depends-on-earlier-programs", fmt("program kind %d", kind)); ev("repeated_programs"); ev("results_observed", o.n);
  // how much do relative perturbations of 1e-13 of all inputs change the results?
  double sens = 0; for (int r = 0; r < 2; r++) { jitter() = 1e-13; Obs w(true); program(kind, g, ds, w); jitter() = 0; sens = w.n != o.n ? 9 : std::max(sens, distance(o.v, w.v)); }
  Global::T &t = G().trace[c.id]; t.h = o.h; t.n = o.n; t.sens = sens; size_t st = o.v.size() / 400 + 1; for (size_t i = 0; i < o.v.size(); i += st) t.v.push_back(o.v[i]);
  c.h = o.h; c.nontrivial = o.n >= 10;
}
