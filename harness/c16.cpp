// C16: no memory error, undefined behaviour, failed assertion or leak; callers' objects stay the callers'.
#include "programs.h"
using namespace V; using namespace P;
const char *H::rule =
  "A case is one random program of documented API calls over heap objects (kinds: Kalman filters, square-root filter, histogram filter, discrete, generic, bootstrap and EKF-proposal particle filters, mixture particle filters, smoothers, a pool of distributions that are created, copied, assigned, edited, sampled and "
  "destroyed, matrix algebra): models, priors, proposals and filtered posteriors are created, replaced and destroyed between updates in any order the documentation allows, measurement dimensions and particle counts change. ASan, UBSan, libstdc++ and library assertions watch; undefined memory holds a pattern; the program is run three times with the same draws and the "
  "bytes allocated after the second and third run must be the same (leaks); results of the runs must be the same; contents of caller-owned priors and filtered posteriors are compared when the caller disposes of them. Non-trivial: at least ten results observed. Distinct: hash of all results.";
long H::ncases(bool t) { return t ? 60000 : 4000; }
void H::run(Ctx &c) {
  int kind = c.id % kinds; Rng g(c.g.next()); uint64_t ds = c.g.next(); c.note(fmt("program kind %d", kind)); Silence q; uint64_t h[3]; long n = 0; size_t bytes[3];
  for (int i = 0; i < 3; i++) { { Obs o; program(kind, g, ds, o); h[i] = o.h; n = o.n; } bytes[i] = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
  check(h[1] == h[0] && h[2] == h[0], "results-differ-between-runs"); check(bytes[1] > 0, "no-allocation-accounting"); check(bytes[2] == bytes[1], "leak", fmt("program kind %d: %ld bytes", kind, (long)(bytes[2] - bytes[1]))); ev("leak_checks"); ev("results_observed", n);
  c.h = h[0]; c.nontrivial = n >= 10;
}
