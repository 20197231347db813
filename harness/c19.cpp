// C19: inverse, determinant, Cholesky, SVD, pseudo-inverse.
#include "common.h"
using namespace V;
const char *H::rule =
  "A case builds one matrix from known factors (general with chosen singular values, permutation, triangular, zero diagonal, integer, diagonal, scaled by 1e-12 to 1e12; symmetric positive definite, indefinite or semi-definite; rank-deficient, zero, repeated singular values; 1 to 7 (at times up to 15) rows and columns, square or rectangular) and applies one of inverse, determinant, Cholesky, SVD and pseudo-inverse, with output arguments of other shapes and contents. "
  "The defining equations are evaluated in long double with a tolerance scaled by the condition number; indefinite matrices must be refused by Cholesky, the determinant of a singular matrix must vanish; the input must be unchanged and a repetition, after other decompositions, must return the same bits. Non-trivial: the matrix is larger than 1x1. Distinct: hash of the matrix and the results.";
long H::ncases(bool t) { return t ? 1500000 : 120000; }

static int dim(Rng &g) { return g.flip(0.03) ? g.range(8, 15) : g.range(1, 7); }
static Mat gen(Rng &g, int r, int c, Vec &sv, double lo, double hi, int rank) {   // U diag(sv) V'
  int k = std::min(r, c); sv.assign(k, 0.0L); for (int i = 0; i < rank; i++) sv[i] = expl(g.uni(std::log(lo), std::log(hi))); if (g.below(6) == 0) for (int i = 1; i < rank; i++) sv[i] = sv[0]; if (g.flip(0.2) && rank > 1) sv[rank - 1] = sv[0];
  Mat U = rorth(g, r), W = rorth(g, c), D(r, c); for (int i = 0; i < k; i++) D(i, i) = sv[i];
  if (g.below(8) == 0) return rd(D); return rd(U * D * T(W));
}
static ld cond(const Mat &a) { return maxabs(a) * maxabs(inv(a)) * a.r * a.r; }
static Mat special(Rng &g, int n) {
  Mat m(n, n); switch (g.below(6)) {
    case 0: { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]); for (int i = 0; i < n; i++) m(i, p[i]) = g.flip(0.3) ? -1 : 1; return m; }
    case 1: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j ? g.uni(0.5, 2) * (g.flip() ? 1 : -1) : i > j ? g.uni(-1, 1) : 0; return g.flip() ? m : T(m);
    case 2: for (auto &x : m.d) x = g.uni(-1, 1); for (int i = 0; i < n; i++) m(i, i) = n == 1 ? 1 : 0; return m;
    case 3: for (auto &x : m.d) x = g.range(-3, 3); return m;
    case 4: for (int i = 0; i < n; i++) m(i, i) = std::ldexp(g.uni(1, 2), g.range(-6, 6)) * (g.flip() ? 1 : -1); return m;
    default: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j ? 3 + g.u01() : g.uni(-0.2, 0.2); return m; }
}
static ld lead(const Mat &a) { ld m = 0; for (int i = 0; i < a.r; i++) { ld s = 0; for (int j = 0; j < a.c; j++) s += fabsl(a(i, j)); m = std::max(m, s); } return m; }
static void decompose_other(Rng &g) { Vec s; int r = g.range(1, 5), c = g.range(1, 5); BM a = bm(gen(g, r, c, s, 0.5, 2, std::min(r, c))), U, W; CV w; a.SVD(w, U, W); a.pseudoinverse(); BM L; sm(rspd(g, c)).cholesky_semidefinite(L); bm(rinv(g, r)).inverse(); }
static BM junkm(Rng &g) { if (g.flip(0.3)) return BM(); BM m(g.range(1, 8), g.range(1, 8)); m = std::nan(""); return m; }
static CV junkv(Rng &g) { if (g.flip(0.3)) return CV(); CV m(g.range(1, 8)); m = std::nan(""); return m; }

static void inverse(Ctx &c, bool symmetrical) {
  Rng &g = c.g; int n = dim(g); Vec sv; Mat A; int tries = 0;
  do { if (symmetrical) { A = rspd(g, n, 0.02, 20); int kind = g.below(4); if (kind == 0 && n > 1) { Mat q = rorth(g, n), D(n, n); for (int i = 0; i < n; i++) D(i, i) = (g.flip() ? 1 : -1) * expl(g.uni(-3, 3)); A = rd(q * D * T(q)); } if (kind == 1) A = special(g, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(j, i) = A(i, j); }
    else A = g.flip(0.4) ? rd(special(g, n)) : gen(g, n, n, sv, 0.01, 20, n); } while ((fabsl(det(A)) < 1e-9L || !(cond(A) < 1e7L)) && ++tries < 50);
  if (tries >= 50) return; ld sc = 1; if (g.flip(0.2)) { sc = std::ldexp(1.0, g.range(-40, 40)); A = A * sc; } ld k = cond(A), tol = 1e-13L * k * n;
  c.note(std::string(symmetrical ? "symmetric" : "general") + " inverse of " + str(A)); Mat I, J, K; ld dt, dt2; std::string key = symmetrical ? "symmetric-" : "";
  if (symmetrical) { SM a = sm(A); I = fm(a.inverse()); dt = a.determinant(); same(key + "inverse:changed-input", fm(a), A); decompose_other(g); K = fm(a.inverse()); dt2 = a.determinant(); }
  else { BM a = bm(A); I = fm(a.inverse()); dt = a.determinant(); same("inverse:changed-input", fm(a), A); decompose_other(g); K = fm(a.inverse()); dt2 = a.determinant(); }
  same(key + "inverse:not-repeatable", K, I); check(dt == dt2, key + "determinant:not-repeatable");
  near(key + "inverse:right", A * I, eye(n), 1, tol); near(key + "inverse:left", I * A, eye(n), 1, tol); near(key + "inverse", I, inv(A), 0, tol);
  if (symmetrical) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) near("symmetric-inverse:not-symmetric", I(i, j), I(j, i), maxabs(I), tol);
  near(key + "determinant", dt, det(A), 0, tol); if (dt < 0) ev("negative_determinants"); ev(symmetrical ? "symmetric_inverses" : "general_inverses"); c.nontrivial = n > 1;
}
static void determinant(Ctx &c) {   // singular and nearly arbitrary matrices
  Rng &g = c.g; int n = g.range(1, 6); Mat A(n, n); int kind = g.below(4); ld tol = 1e-12L;
  if (kind == 0) for (auto &x : A.d) x = g.range(-2, 2);
  if (kind == 1) { for (auto &x : A.d) x = g.range(-3, 3); int i = g.below(n), j = g.below(n); for (int k = 0; k < n; k++) A(i, k) = i == j ? 0 : 2 * A(j, k); }
  if (kind == 2) { for (auto &x : A.d) x = g.uni(-2, 2); if (n > 1) { int i = g.below(n), j = (i + 1) % n; for (int k = 0; k < n; k++) A(k, i) = A(k, j); } }
  if (kind == 3) for (auto &x : A.d) x = g.uni(-2, 2);
  bool s = g.flip(); if (s) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(j, i) = A(i, j); A = rd(A);
  ld had = 1; for (int i = 0; i < n; i++) { ld r = 0; for (int j = 0; j < n; j++) r += A(i, j) * A(i, j); had *= std::max(1.0L, sqrtl(r)); }   // Hadamard bound
  c.note((s ? "symmetric determinant of " : "determinant of ") + str(A)); ld d; if (s) { SM a = sm(A); d = a.determinant(); same("determinant:changed-input", fm(a), A); } else { BM a = bm(A); d = a.determinant(); same("determinant:changed-input", fm(a), A); }
  near(s ? "symmetric-determinant:general" : "determinant:general", d, det(A), had, tol * n * n); if (fabsl(det(A)) < 1e-14L) ev("singular_determinants"); ev("determinants"); c.nontrivial = n > 1;
}
static void chol(Ctx &c) {
  Rng &g = c.g; int n = dim(g); Mat A; int kind = g.below(10); int must = 1;   // 1 must succeed, 0 either, -1 must refuse
  if (kind <= 3) A = rspd(g, n, 1e-4, 20);
  else if (kind == 4) { A = Mat(n, n); for (int i = 0; i < n; i++) A(i, i) = g.flip() ? 0 : g.uni(0.1, 5); }                       // semi-definite, diagonal
  else if (kind == 5) { A = rspd(g, n, 0.1, 5); int i = g.below(n); for (int j = 0; j < n; j++) A(i, j) = A(j, i) = 0; }            // one variable without variance
  else if (kind == 6) { int z = g.range(1, n); A = rspd(g, n, 0.1, 5, z); must = 0; }                                              // singular up to rounding
  else if (kind == 7) { Mat q = rorth(g, n), D(n, n); for (int i = 0; i < n; i++) D(i, i) = g.uni(0.1, 3); D(g.below(n), 0) += 0; int z = g.below(n); D(z, z) = -g.uni(0.01, 3); A = rd(q * D * T(q)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(j, i) = A(i, j); must = -1; }
  else if (kind == 8) { A = Mat(n, n); for (int i = 0; i < n; i++) A(i, i) = g.uni(0.5, 3); int z = g.below(n); A(z, z) = -g.uni(0.001, 1); must = -1; }
  else { Mat L(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) L(i, j) = i == j ? g.range(1, 3) : g.range(-2, 2); A = L * T(L); }   // integer factor
  if ((kind <= 3 || kind >= 7) && g.flip(0.3)) { ld s = std::ldexp(1.0, g.range(-25, 40)); A = A * s; }
  c.note("cholesky of " + str(A)); SM a = sm(A); BM L = junkm(g), L2 = junkm(g); bool ok = a.cholesky_semidefinite(L); same("cholesky:changed-input", fm(a), A); decompose_other(g); bool ok2 = a.cholesky_semidefinite(L2);
  check(ok == ok2, "cholesky:not-repeatable"); same("cholesky:not-repeatable", fm(L2), fm(L)); Mat l = fm(L); check(l.r == n && l.c == n, "cholesky:size");
  if (must == 1) check(ok, "cholesky:refused"); if (must == -1) check(!ok, "cholesky:accepted-indefinite"); for (ld x : A.d) c.h = mixd(c.h, (double)x);
  if (!ok) { for (ld x : l.d) check(x == 0, "cholesky:refused-but-not-zero"); ev("refused"); c.nontrivial = n > 1; return; }
  for (int i = 0; i < n; i++) { check(l(i, i) >= 0, "cholesky:negative-diagonal"); for (int j = i + 1; j < n; j++) check(l(i, j) == 0, "cholesky:not-lower-triangular"); }
  near("cholesky:square", l * T(l), A, std::max(1.0L, maxabs(A)) * (must == 0 ? 1 : 0) + maxabs(A), must == 0 ? 1e-6L : 1e-12L); ev(must == 0 ? "singular_factors" : "factors"); c.nontrivial = n > 1;
}
static void svd(Ctx &c, bool pinv) {
  Rng &g = c.g; int r = dim(g), q = dim(g), k = std::min(r, q); if (g.flip(0.3)) q = r; k = std::min(r, q); Vec sv; double eps = 0.01; Mat A;
  int kind = g.below(8), rank = kind == 0 ? 0 : kind <= 2 ? g.range(0, k) : k; double lo = 0.05, hi = 20; if (pinv) { eps = g.flip() ? 0.01 : std::pow(10, -g.uni(0, 7)); lo = eps * 2; hi = std::max(20.0, eps * 10); }
  A = gen(g, r, q, sv, lo, hi, rank); if (pinv && kind == 7) { for (int i = 0; i < k; i++) sv[i] = g.flip() ? eps * g.uni(0.001, 0.6) : eps * g.uni(1.7, 100); Mat U = rorth(g, r), W = rorth(g, q), D(r, q); for (int i = 0; i < k; i++) D(i, i) = sv[i]; A = rd(U * D * T(W)); }
  bool known = true; if (!pinv && kind == 6) { for (auto &x : A.d) x = g.range(-2, 2); known = false; } if (!pinv && kind == 5 && r == q) { A = rd(special(g, r)); known = false; } if (!pinv && kind == 4) { ld s = std::ldexp(1.0, g.range(-30, 30)); A = A * s; for (auto &x : sv) x *= s; } if (kind == 3 && g.flip() && !pinv) { A = Mat(r, q); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) A(i, j) = 1; known = false; }
  c.note(fmt("%s of %dx%d ", pinv ? "pseudoinverse" : "svd", r, q) + str(A)); BM a = bm(A); ld sc = std::max(maxabs(A), 1e-30L); for (ld x : A.d) c.h = mixd(c.h, (double)x);
  if (!pinv) {
    BM U = junkm(g), W = junkm(g), U2, W2; CV w = junkv(g), w2; bool ok = a.SVD(w, U, W); same("svd:changed-input", fm(a), A); check(ok, "svd:did-not-converge"); decompose_other(g); a.SVD(w2, U2, W2); same("svd:not-repeatable", fv(w2), fv(w)); same("svd:not-repeatable", fm(U2), fm(U)); same("svd:not-repeatable", fm(W2), fm(W));
    Mat u = fm(U), v = fm(W), D(q, q); Vec s = fv(w); check(u.r == r && u.c == q && v.r == q && v.c == q && (int)s.size() == q, "svd:size"); for (int i = 0; i < q; i++) { check(s[i] >= 0, "svd:negative-singular-value"); D(i, i) = s[i]; }
    near("svd:product", u * D * T(v), A, sc, 1e-11L); near("svd:right-factor-not-orthonormal", T(v) * v, eye(q), 1, 1e-11L);
    for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) if (s[i] > 1e-9L * sc * r && s[j] > 1e-9L * sc * r) { ld d = 0; for (int t = 0; t < r; t++) d += u(t, i) * u(t, j); near("svd:left-factor-not-orthonormal", d, i == j, 1, 1e-9L); }
    if (known) { Vec e(q, 0.0L); for (int i = 0; i < k; i++) e[i] = sv[i]; std::sort(e.begin(), e.end()); std::sort(s.begin(), s.end()); near("svd:singular-values", s, e, sc, 1e-11L); ev("singular_values_known"); }
    ev("svds"); if (r < q) ev("wide"); if (r > q) ev("tall"); if (rank < k) ev("rank_deficient");
  } else {
    BM P = eps == 0.01 && g.flip() ? a.pseudoinverse() : a.pseudoinverse(eps); same("pseudoinverse:changed-input", fm(a), A); Mat p = fm(P); check(p.r == q && p.c == r, "pseudoinverse:size"); decompose_other(g); same("pseudoinverse:not-repeatable", fm(a.pseudoinverse(eps)), p);
    bool full = true; ld mn = hi * 100; for (ld x : sv) { if (x > 0 && x < eps) full = false; if (x >= eps) mn = std::min(mn, x); } ld tol = 1e-11L * std::max(1.0L, sc * 10 / mn);
    if (full) { near("pseudoinverse:penrose-1", A * p * A, A, sc, tol); near("pseudoinverse:penrose-2", p * A * p, p, 0, tol); near("pseudoinverse:penrose-3", T(A * p), A * p, 1, tol); near("pseudoinverse:penrose-4", T(p * A), p * A, 1, tol); ev("penrose"); }
    else { near("pseudoinverse:penrose-2", p * A * p, p, 0, tol * 100); near("pseudoinverse:penrose-3", T(A * p), A * p, 1, tol * 100); near("pseudoinverse:penrose-4", T(p * A), p * A, 1, tol * 100); ev("thresholded"); }
    ld tr = 0, want = 0; for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) tr += A(i, j) * p(j, i); for (ld x : sv) want += x >= eps; near("pseudoinverse:rank", tr, want, 1, std::min(0.4L, tol * 1000));
  }
  c.nontrivial = r * q > 1;
}
void H::run(Ctx &c) { switch (c.id % 6) { case 0: inverse(c, false); break; case 1: inverse(c, true); break; case 2: determinant(c); break; case 3: chol(c); break; case 4: svd(c, false); break; default: svd(c, true); } }
