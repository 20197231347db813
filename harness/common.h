// Shared support for the runtime monitors in /verif/harness.
//  * an independent linear algebra in long double (the oracle side),
//  * a per-case random generator, recording/injection of the library's random draws,
//  * the case loop: every case is replayable from (seed, case number),
//  * reporting of what the monitors observed.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include <wrappers/matrix/matrix_wrapper.h>
#include <wrappers/matrix/vector_wrapper.h>
#include <wrappers/rng/rng.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace V {

typedef long double ld;
typedef std::vector<ld> Vec;

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
  int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }  // inclusive
  double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  bool flip(double p = 0.5) { return u01() < p; }
  double normal() {
    double u = 1.0 - u01(), v = u01();
    return std::sqrt(-2.0 * std::log(u)) * std::cos(2.0 * M_PI * v);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}
inline uint64_t mixd(uint64_t h, double d) { uint64_t b; memcpy(&b, &d, 8); return mix(h, b); }

// ---------------------------------------------------------------- oracle matrices
struct Mat {
  int r, c;
  std::vector<ld> d;
  Mat(int r_ = 0, int c_ = 0) : r(r_), c(c_), d((size_t)r_ * c_, 0.0L) {}
  ld &operator()(int i, int j) { return d[(size_t)i * c + j]; }        // 0-based
  ld operator()(int i, int j) const { return d[(size_t)i * c + j]; }
};
inline Mat eye(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
inline Mat T(const Mat &a) { Mat t(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) t(j, i) = a(i, j); return t; }
inline Mat operator*(const Mat &a, const Mat &b) {
  Mat m(a.r, b.c);
  for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { ld s = 0; for (int k = 0; k < a.c; k++) s += a(i, k) * b(k, j); m(i, j) = s; }
  return m;
}
inline Mat operator+(const Mat &a, const Mat &b) { Mat m = a; for (size_t i = 0; i < m.d.size(); i++) m.d[i] += b.d[i]; return m; }
inline Mat operator-(const Mat &a, const Mat &b) { Mat m = a; for (size_t i = 0; i < m.d.size(); i++) m.d[i] -= b.d[i]; return m; }
inline Mat operator*(const Mat &a, ld k) { Mat m = a; for (auto &x : m.d) x *= k; return m; }
inline Vec operator*(const Mat &a, const Vec &v) { Vec o(a.r, 0.0L); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o[i] += a(i, j) * v[j]; return o; }
inline Vec operator+(const Vec &a, const Vec &b) { Vec o = a; for (size_t i = 0; i < o.size(); i++) o[i] += b[i]; return o; }
inline Vec operator-(const Vec &a, const Vec &b) { Vec o = a; for (size_t i = 0; i < o.size(); i++) o[i] -= b[i]; return o; }
inline Vec operator*(const Vec &a, ld k) { Vec o = a; for (auto &x : o) x *= k; return o; }
inline ld dot(const Vec &a, const Vec &b) { ld s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline Mat outer(const Vec &a, const Vec &b) { Mat m(a.size(), b.size()); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m(i, j) = a[i] * b[j]; return m; }
inline ld maxabs(const Mat &a) { ld m = 0; for (ld x : a.d) m = std::max(m, fabsl(x)); return m; }
inline ld maxabs(const Vec &a) { ld m = 0; for (ld x : a) m = std::max(m, fabsl(x)); return m; }
inline ld det(Mat a) {
  ld dt = 1;
  for (int k = 0; k < a.r; k++) {
    int p = k; for (int i = k; i < a.r; i++) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
    if (a(p, k) == 0) return 0;
    if (p != k) { for (int j = 0; j < a.c; j++) std::swap(a(p, j), a(k, j)); dt = -dt; }
    dt *= a(k, k);
    for (int i = k + 1; i < a.r; i++) { ld f = a(i, k) / a(k, k); for (int j = k; j < a.c; j++) a(i, j) -= f * a(k, j); }
  }
  return dt;
}
inline Mat inv(Mat a) {
  int n = a.r; Mat b = eye(n);
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k; i < n; i++) if (fabsl(a(i, k)) > fabsl(a(p, k))) p = i;
    if (p != k) for (int j = 0; j < n; j++) { std::swap(a(p, j), a(k, j)); std::swap(b(p, j), b(k, j)); }
    ld f = 1 / a(k, k);
    for (int j = 0; j < n; j++) { a(k, j) *= f; b(k, j) *= f; }
    for (int i = 0; i < n; i++) if (i != k) { ld g = a(i, k); if (g != 0) for (int j = 0; j < n; j++) { a(i, j) -= g * a(k, j); b(i, j) -= g * b(k, j); } }
  }
  return b;
}
inline Mat sym(const Mat &a) { Mat m = a; for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) m(i, j) = (a(i, j) + a(j, i)) / 2; return m; }
// density of N(mu,S) at x
inline ld gaussdens(const Vec &x, const Vec &mu, const Mat &S) {
  Vec d = x - mu;
  return expl(-0.5L * dot(d, inv(S) * d)) / sqrtl(powl(2 * (ld)M_PIl, (ld)x.size()) * det(S));
}

// generators ------------------------------------------------------------
// (a part of the values are small integers, zeros, ones or equal to each other: coincidences that random reals never show)
inline double rnum(Rng &g, double lo, double hi) { return g.uni(lo, hi); }
inline double rint_(Rng &g, double lo, double hi) { int a = (int)std::ceil(lo), b = (int)std::floor(hi); return a > b ? g.uni(lo, hi) : (double)g.range(std::max(a, -3), std::max(std::max(a, -3), std::min(b, 3))); }
inline Vec rvec(Rng &g, int n, double lo = -5, double hi = 5) {
  Vec v(n); int st = g.below(16);
  bool small = lo <= 3 && hi >= -3 && std::ceil(lo) <= std::floor(hi);
  for (auto &x : v) x = (st <= 1 && small) ? rint_(g, lo, hi) : g.uni(lo, hi);
  if (st == 2 && n > 1) v[g.below(n)] = v[g.below(n)];
  if (st == 3 && lo <= 0 && hi >= 0 && n) v[g.below(n)] = 0;
  if (st == 4 && lo <= 0 && hi >= 0 && g.flip(0.3)) for (auto &x : v) x = 0;
  return v;
}
inline Mat rmat(Rng &g, int r, int c, double lo = -2, double hi = 2) {
  Mat m(r, c); int st = g.below(20);
  for (auto &x : m.d) x = st <= 1 ? rint_(g, lo, hi) : g.uni(lo, hi);
  if (st == 2 && lo <= 0 && hi >= 1) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = i == j;
  if (st == 3 && lo <= 0 && hi >= 0 && r) { int i = g.below(r); for (int j = 0; j < c; j++) m(i, j) = 0; }
  if (st == 4 && lo <= 0 && hi >= 0) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (g.flip()) m(i, j) = 0;
  if (st == 5 && r == c) for (int i = 0; i < r; i++) for (int j = 0; j < i; j++) m(i, j) = m(j, i);
  return m;
}
// random orthogonal matrix (product of Householder reflections)
inline Mat rorth(Rng &g, int n) {
  Mat q = eye(n);
  for (int k = 0; k < n; k++) {
    Vec v(n); ld s = 0; for (auto &x : v) { x = g.normal(); s += x * x; }
    if (s < 1e-6L) continue;
    Mat h = eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h(i, j) -= 2 * v[i] * v[j] / s;
    q = q * h;
  }
  return q;
}
// entries rounded to double so that both sides start from the same numbers
inline Mat rd(Mat m) { for (auto &x : m.d) x = (double)x; return m; }
inline Vec rd(Vec m) { for (auto &x : m) x = (double)x; return m; }
// symmetric positive (semi) definite with eigenvalues in [lo,hi] (log uniform), `zeros` of them zero
inline Mat rspd(Rng &g, int n, double lo = 0.05, double hi = 5, int zeros = 0) {
  Mat q = rorth(g, n), D(n, n);
  for (int i = 0; i < n; i++) D(i, i) = i < zeros ? 0.0L : expl(g.uni(std::log(lo), std::log(hi)));
  Mat s = sym(q * D * T(q));
  int st = zeros ? 99 : g.below(16);
  if (st == 0) s = D;                                                   // diagonal
  if (st == 1) { s = eye(n); if (lo <= 1 && hi >= 1) {} else s = s * lo; }   // (scaled) identity
  if (st == 2 && n > 1 && lo <= 1 && hi >= 1) { ld r = g.uni(-0.9 / (n - 1), 0.9); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s(i, j) = i == j ? 1 : r; }   // equal variances and correlations
  if (st == 3 && n > 1) { int i = g.below(n); for (int j = 0; j < n; j++) if (j != i) s(i, j) = s(j, i) = 0; }   // one independent component
  s = rd(s);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) s(i, j) = s(j, i);
  return s;
}
// small changes of a parameter that was set before: most of its invariants (determinant, trace, diagonal, sum, norm) stay the same
inline Vec nudge(Rng &g, Vec v) {
  if (v.empty()) return v;
  int i = g.below(v.size()), j = g.below(v.size());
  switch (g.below(5)) { case 0: std::swap(v[i], v[j]); break; case 1: v[i] = -v[i]; break; case 2: v[i] = (double)(v[i] * (1 + 1e-6L)); break; case 3: v[i] = (double)(v[i] + 0.25L); v[j] = (double)(v[j] - 0.25L); break; default: v[i] = (double)(v[i] + g.uni(-1, 1)); }
  return v;
}
inline Mat nudgespd(Rng &g, Mat S) {
  int n = S.r; if (!n) return S;
  int i = g.below(n), j = g.below(n);
  switch (g.below(6)) {
    case 0: for (int k = 0; k < n; k++) if (k != i) { S(i, k) = -S(i, k); S(k, i) = -S(k, i); } break;   // same diagonal and determinant
    case 1: for (int k = 0; k < n; k++) std::swap(S(i, k), S(j, k)); for (int k = 0; k < n; k++) std::swap(S(k, i), S(k, j)); break;   // same trace and determinant
    case 2: for (int k = 0; k < n; k++) { S(i, k) *= 2; } for (int k = 0; k < n; k++) S(k, i) *= 2; if (j != i) { for (int k = 0; k < n; k++) S(j, k) *= 0.5L; for (int k = 0; k < n; k++) S(k, j) *= 0.5L; } break;
    case 3: for (int k = 0; k < n; k++) if (k != i) { S(i, k) *= 0.5L; S(k, i) *= 0.5L; } break;   // same diagonal (still positive definite: an average with case 0 and its zeros)
    case 4: S(i, i) *= 1 + 1e-6L; break;
    default: S(i, i) *= 1 + g.uni(0, 1);
  }
  S = rd(S); for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) S(a, b) = S(b, a);
  return S;
}
inline Mat nudgemat(Rng &g, Mat A) {
  if (!A.r || !A.c) return A;
  int i = g.below(A.r), j = g.below(A.c), k = g.below(A.r);
  switch (g.below(5)) {
    case 0: A(i, j) = -A(i, j); break;
    case 1: A(i, j) = (double)(A(i, j) * (1 + 1e-6L)); break;
    case 2: for (int q = 0; q < A.c; q++) std::swap(A(i, q), A(k, q)); break;
    case 3: if (A.r == A.c) A = T(A); else A(i, j) = 0; break;
    default: A(i, j) = (double)(A(i, j) + g.uni(-1, 1));
  }
  return A;
}
// a new value for a parameter: now and then only a little different from the old one
inline Vec newvec(Rng &g, const Vec &old, const Vec &fresh) { return g.flip(0.4) ? nudge(g, old) : fresh; }
inline Mat newmat(Rng &g, const Mat &old, const Mat &fresh) { return g.flip(0.4) ? nudgemat(g, old) : fresh; }
inline Mat newspd(Rng &g, const Mat &old, const Mat &fresh) { return g.flip(0.4) ? nudgespd(g, old) : fresh; }
// well conditioned general square matrix
inline Mat rinv(Rng &g, int n, double lo = 0.1, double hi = 5) {
  Mat D(n, n);
  for (int i = 0; i < n; i++) D(i, i) = expl(g.uni(std::log(lo), std::log(hi)));
  return rd(rorth(g, n) * D * rorth(g, n));
}

// conversions -------------------------------------------------------------
typedef MatrixWrapper::ColumnVector CV;
typedef MatrixWrapper::RowVector RV;
typedef MatrixWrapper::Matrix BM;
typedef MatrixWrapper::SymmetricMatrix SM;
// relative perturbation of every number handed to the library (sensitivity of a program to rounding)
inline double &jitter() { static double j = 0; return j; }
inline double jit(double x) { static uint64_t k = 1; if (jitter() == 0) return x; k = k * 6364136223846793005ULL + 1442695040888963407ULL; return x * (1 + jitter() * (k >> 63 ? 1 : -1)); }
inline CV cv(const Vec &v) { CV c((int)v.size()); for (size_t i = 0; i < v.size(); i++) c(i + 1) = jit((double)v[i]); return c; }
inline RV rv(const Vec &v) { RV c((int)v.size()); for (size_t i = 0; i < v.size(); i++) c(i + 1) = (double)v[i]; return c; }
inline BM bm(const Mat &m) { BM o(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i + 1, j + 1) = jit((double)m(i, j)); return o; }
inline SM sm(const Mat &m) { SM o(m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i + 1, j + 1) = j < i ? (double)o(j + 1, i + 1) : jit((double)m(i, j)); return o; }
inline Vec fv(const CV &c) { Vec v(c.rows()); for (size_t i = 0; i < v.size(); i++) v[i] = c(i + 1); return v; }
inline Vec fv(const RV &c) { Vec v(c.columns()); for (size_t i = 0; i < v.size(); i++) v[i] = c(i + 1); return v; }
inline Mat fm(const BM &m) { Mat o(m.rows(), m.columns()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i + 1, j + 1); return o; }
inline Mat fm(const SM &m) { Mat o(m.rows(), m.columns()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i + 1, j + 1); return o; }

inline std::string str(const Vec &v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << (double)v[i]; o << "]"; return o.str(); }
inline std::string str(const Mat &m) { std::ostringstream o; o.precision(17); o << "["; for (int i = 0; i < m.r; i++) { o << (i ? ";" : ""); for (int j = 0; j < m.c; j++) o << (j ? "," : "") << (double)m(i, j); } o << "]"; return o.str(); }
inline std::string str(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }
inline std::string fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---------------------------------------------------------------- reporting
struct Fail { std::string key, msg; };

struct Ctx {
  uint64_t seed;
  long id;          // case number
  Rng g;
  bool thorough;
  std::string log;  // description of the case (inputs and operations)
  bool keeplog;
  uint64_t h;       // hash of the observed behaviour of this case
  bool nontrivial;
  Ctx() : seed(0), id(0), thorough(false), keeplog(false), h(0), nontrivial(false) {}
  void note(const std::string &s) { if (log.size() < 6000) { log += s; log += "; "; } }
};

struct Global {
  std::map<std::string, long> counts;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  struct F { std::string key, msg, log; long id; };
  std::vector<F> fails;
  std::set<std::string> failkeys;
  long evaluations = 0, nontrivial = 0;
  struct T { uint64_t h; long n; double sens; std::vector<double> v; };
  std::map<long, T> trace;   // results per case, compared between differently built runs by check.py
};
inline Global &G() { static Global g; return g; }
inline Ctx *&cur() { static Ctx *c = 0; return c; }
// count one observed event of some kind
inline void ev(const std::string &k, long n = 1) { G().counts[k] += n; }

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
inline void check(bool ok, const std::string &key, const std::string &msg = "") { ev("monitor_assertions"); if (!ok) fail(key, msg); }

inline void near(const std::string &key, ld got, ld want, ld scale = 0, ld tol = 1e-9L) {
  ev("monitor_assertions");
  if (cur()) cur()->h = mixd(cur()->h, (double)want);
  if (!(fabsl(got - want) <= tol * std::max(scale, fabsl(want)) + 1e-290L))
    fail(key, fmt("got %.17Lg, expected %.17Lg (scale %Lg, tolerance %Lg)", got, want, scale, tol));
}
inline void near(const std::string &key, const Vec &got, const Vec &want, ld scale = 0, ld tol = 1e-9L) {
  if (got.size() != want.size()) fail(key, fmt("size %zu, expected %zu", got.size(), want.size()));
  ld s = std::max(scale, maxabs(want));
  for (size_t i = 0; i < got.size(); i++) near(key + "", got[i], want[i], s, tol);
}
inline void near(const std::string &key, const Mat &got, const Mat &want, ld scale = 0, ld tol = 1e-9L) {
  if (got.r != want.r || got.c != want.c) fail(key, fmt("size %dx%d, expected %dx%d", got.r, got.c, want.r, want.c));
  ld s = std::max(scale, maxabs(want));
  for (size_t i = 0; i < got.d.size(); i++) near(key, got.d[i], want.d[i], s, tol);
}
// exact comparison
inline void same(const std::string &key, const Vec &got, const Vec &want) {
  ev("monitor_assertions");
  if (got.size() != want.size()) fail(key, "size differs");
  for (size_t i = 0; i < got.size(); i++) if (!(got[i] == want[i])) fail(key, "got " + str(got) + ", expected " + str(want));
}
inline void same(const std::string &key, const Mat &got, const Mat &want) {
  ev("monitor_assertions");
  if (got.r != want.r || got.c != want.c) fail(key, "size differs");
  for (size_t i = 0; i < got.d.size(); i++) if (!(got.d[i] == want.d[i])) fail(key, "got " + str(got) + ", expected " + str(want));
}

// ---------------------------------------------------------------- random draws of the library
// The library draws all its random numbers from BFL::runif() and BFL::rnorm(); the
// harness is linked with --wrap so that a case can replace them (reproducibly, or
// by hostile values) and count them.  The real generator is used when `mode`==REAL.
struct Draws {
  enum Mode { REAL, CASE, SCRIPT } mode;
  Rng rng;
  std::vector<double> script_u, script_n;  // used in order in mode SCRIPT, then CASE draws
  size_t iu, in;
  long nu, nn;                             // number of draws seen
  double hostile;                          // probability of an extreme uniform draw
  std::vector<double> seen_u, seen_n;
  bool record;
  Draws() : mode(CASE), rng(1), iu(0), in(0), nu(0), nn(0), hostile(0), record(false) {}
  void reset(Mode m, uint64_t seed) { mode = m; rng = Rng(seed); script_u.clear(); script_n.clear(); iu = in = 0; nu = nn = 0; hostile = 0; seen_u.clear(); seen_n.clear(); record = false; }
  void script(const std::vector<double> &u, const std::vector<double> &n) { mode = SCRIPT; script_u = u; script_n = n; iu = in = 0; nu = nn = 0; }
  double u(double real) {
    nu++;
    double r;
    if (mode == REAL) r = real;
    else if (mode == SCRIPT && iu < script_u.size()) r = script_u[iu++];
    else if (hostile > 0 && rng.flip(hostile)) r = rng.flip() ? 0.0 : (4294967295.0 / 4294967296.0);
    else r = (double)(rng.next() >> 32) / 4294967296.0;
    if (record) seen_u.push_back(r);
    return r;
  }
  double n(double realstd) {  // standard normal
    nn++;
    double r;
    if (mode == REAL) r = realstd;
    else if (mode == SCRIPT && in < script_n.size()) r = script_n[in++];
    else r = rng.normal();
    if (record) seen_n.push_back(r);
    return r;
  }
};
inline Draws &D() { static Draws d; return d; }

// ---------------------------------------------------------------- chi square helper (very small false alarm rate)
// Normal approximation of Wilson-Hilferty; returns true when the counts are incredible (< ~1e-12).
inline bool incredible(const std::vector<long> &obs, const std::vector<double> &p) {
  double n = 0; for (long o : obs) n += o;
  double chi = 0; int df = -1; double pe = 0; long po = 0;
  for (size_t i = 0; i < obs.size(); i++) {
    double e = n * p[i];
    if (p[i] <= 0) { if (obs[i]) return true; continue; }
    if (e < 8) { pe += e; po += obs[i]; continue; }
    chi += (obs[i] - e) * (obs[i] - e) / e; df++;
  }
  if (pe >= 8) { chi += (po - pe) * (po - pe) / pe; df++; }
  else if (pe > 0 && po > pe + 12 * std::sqrt(pe) + 25) return true;
  if (df < 1) return false;
  double z = (std::cbrt(chi / df) - (1 - 2.0 / (9 * df))) / std::sqrt(2.0 / (9 * df));
  return z > 8.0;
}

// silence the library's diagnostics (std::cout, std::cerr) during the cases
struct Quiet {
  std::ostringstream a, b;
  std::streambuf *oa, *ob;
  Quiet() : oa(std::cout.rdbuf(a.rdbuf())), ob(std::cerr.rdbuf(b.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(oa); std::cerr.rdbuf(ob); }
};

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 0x20) o += fmt("\\u%04x", ch);
    else o += ch;
  }
  return o;
}

}  // namespace V

// ---- what each harness provides
namespace H {
extern const char *rule;            // how cases are made, what makes one non-trivial
long ncases(bool thorough);         // number of cases
void run(V::Ctx &c);                // one case; throws V::Fail
}

#ifndef VERIF_NO_MAIN
extern "C" {
double __real__ZN3BFL5runifEv();
double __real__ZN3BFL5runifERKdS1_(const double &, const double &);
double __real__ZN3BFL5rnormERKdS1_(const double &, const double &);
double __wrap__ZN3BFL5runifEv() { return V::D().u(__real__ZN3BFL5runifEv()); }
double __wrap__ZN3BFL5runifERKdS1_(const double &a, const double &b) {
  double r = __real__ZN3BFL5runifERKdS1_(a, b);
  V::D().nu++;
  if (V::D().mode == V::Draws::REAL) return r;
  V::D().nu--;
  double f = V::D().u(0.5);
  return a + (b - a) * f;
}
double __wrap__ZN3BFL5rnormERKdS1_(const double &mu, const double &sigma) {
  double r = __real__ZN3BFL5rnormERKdS1_(mu, sigma);
  if (V::D().mode == V::Draws::REAL) { V::D().nn++; return r; }
  return mu + sigma * V::D().n(0);
}
}

int main(int argc, char **argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  uint64_t seed = strtoull(a.count("--seed") ? a["--seed"].c_str() : "1", 0, 10);
  bool thorough = a["--tier"] == "thorough";
  long shards = a.count("--shards") ? atol(a["--shards"].c_str()) : 1;
  long shard = a.count("--shard") ? atol(a["--shard"].c_str()) : 0;
  long start = a.count("--start") ? atol(a["--start"].c_str()) : 0;
  long only = a.count("--case") ? atol(a["--case"].c_str()) : -1;
  std::string out = a["--out"];
  int pfd = a.count("--progress") ? open(a["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
  std::ostringstream sink1, sink2;
  std::streambuf *so = std::cout.rdbuf(sink1.rdbuf()), *se = std::cerr.rdbuf(sink2.rdbuf());
  long n = H::ncases(thorough);
  V::Global &G = V::G();
  for (long i = start; i < n; i++) {
    if (only >= 0 ? i != only : i % shards != shard) continue;
    if (pfd >= 0) { char b[32]; int k = snprintf(b, sizeof b, "%-20ld\n", i); if (pwrite(pfd, b, k, 0) < 0) {} }
    sink1.str(""); sink2.str("");
    V::Ctx c;
    c.seed = seed; c.id = i; c.thorough = thorough;
    c.g = V::Rng(V::mix(V::mix(0x5eed, seed), i));
    c.g.next();
    c.keeplog = true;
    V::D().reset(V::Draws::CASE, V::mix(V::mix(0xd4a5, seed), i));
    V::cur() = &c;
    G.evaluations++;
    try {
      H::run(c);
    } catch (const V::Fail &f) {
      if (G.failkeys.insert(f.key).second || only >= 0) G.fails.push_back({f.key, f.msg, c.log, i});
      V::ev("failed_cases");
    } catch (const std::exception &e) {
      std::string key = std::string("exception");
      if (G.failkeys.insert(key).second) G.fails.push_back({key, e.what(), c.log, i});
    }
    V::cur() = 0;
    if (c.nontrivial) { G.nontrivial++; G.distinct.insert(c.h); }
    if (G.samples.size() < 3 && !c.log.empty()) G.samples.push_back(V::fmt("case %ld: ", i) + c.log.substr(0, 1500));
    if (G.fails.size() > 50) break;
  }
  FILE *f = fopen(out.c_str(), "w");
  if (!f) return 9;
  fprintf(f, "{\"complete\":true,\"evaluations\":%ld,\"nontrivial\":%ld,\"rule\":\"%s\",\n\"counts\":{", G.evaluations, G.nontrivial, V::jesc(H::rule).c_str());
  bool first = true;
  for (auto &k : G.counts) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", V::jesc(k.first).c_str(), k.second); first = false; }
  fprintf(f, "},\n\"samples\":[");
  first = true;
  for (auto &s : G.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", V::jesc(s).c_str()); first = false; }
  fprintf(f, "],\n\"fails\":[");
  first = true;
  for (auto &x : G.fails) { fprintf(f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"case\":%ld,\"log\":\"%s\"}", first ? "" : ",", V::jesc(x.key).c_str(), V::jesc(x.msg).c_str(), x.id, V::jesc(x.log).c_str()); first = false; }
  fprintf(f, "],\n\"distinct\":[");
  first = true;
  for (uint64_t hsh : G.distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(hsh >> 16)); first = false; }
  fprintf(f, "],\n\"trace\":{");
  first = true;
  for (auto &t : G.trace) {
    fprintf(f, "%s\"%ld\":[\"%llx\",%ld,%.3g,[", first ? "" : ",\n", t.first, (unsigned long long)t.second.h, t.second.n, t.second.sens);
    for (size_t i = 0; i < t.second.v.size(); i++) fprintf(f, std::isfinite(t.second.v[i]) ? "%s%.17g" : "%s\"%g\"", i ? "," : "", t.second.v[i]);
    fprintf(f, "]]");
    first = false;
  }
  fprintf(f, "}}\n");
  fclose(f);
  std::cout.rdbuf(so); std::cerr.rdbuf(se);
  return 0;
}
#endif
#endif
