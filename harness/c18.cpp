// C18: the matrix and vector wrappers implement linear algebra.
#include "common.h"
using namespace V;
const char *H::rule =
  "A case is a random program of 30 to 60 operations over registers holding column vectors, row vectors, matrices and symmetric matrices of 1 to 6 (in one of 40 programs 20) rows and columns (every constructor, element read and write, fill, assign, resize with and without copy, every binary and compound operator with scalars, vectors, matrices and symmetric matrices, products, multiply(), outer and inner products, transposes, row/column copies, operator[], sub-matrices and sub-vectors, concatenations, "
  "conversions to and from symmetric matrices, comparisons with equal, nearly equal and differently sized operands, self-assignment and operands that alias the result), with ordinary, integer, zero, huge and tiny values. After every operation the result is compared with an independent long-double evaluation of its definition, compound operators must return the object itself, and every other register must be bit-identical to before. "
  "Non-trivial: at least 20 operations. Distinct: hash of all results.";
long H::ncases(bool t) { return t ? 150000 : 15000; }

namespace {
struct R { CV c; RV r; BM m; SM s; };
struct S { Vec c, r; Mat m, s; };
const int NR = 3; int MX = 6;
R X[NR]; S Y[NR];
Rng *g;
double val() { static const double e[] = {0, 1, -1, 2, 0.5, -0.0, 1e-8, 1e8, -3}; int k = g->below(12); return k == 0 ? e[g->below(9)] : k == 1 ? g->range(-4, 4) : k == 2 ? std::ldexp(g->uni(-1, 1), g->range(-60, 60)) : g->uni(-5, 5); }
double nz() { double v; do v = val(); while (v == 0); return v; }
Vec V_(int n) { Vec v(n); for (auto &x : v) x = val(); return v; }
Mat M_(int r, int c) { Mat m(r, c); for (auto &x : m.d) x = val(); return m; }
Mat S_(int n) { Mat m = M_(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m(i, j) = m(j, i); return m; }
// construct by element writes, reading back through the other access paths
CV mkc(const Vec &v) { CV c((int)v.size()); for (size_t i = 0; i < v.size(); i++) { if (g->flip()) c(i + 1) = (double)v[i]; else c[i] = (double)v[i]; } return c; }
void setc(int k, const Vec &v) { X[k].c = mkc(v); Y[k].c = v; } void setr(int k, const Vec &v) { X[k].r = rv(v); Y[k].r = v; }
void setm(int k, const Mat &v) { X[k].m = bm(v); Y[k].m = v; } void sets(int k, const Mat &v) { X[k].s = sm(v); Y[k].s = v; }
void eqv(const std::string &key, const Vec &got, const Vec &want, const Vec &mag) { if (got.size() != want.size()) fail(key, fmt("size %zu, expected %zu", got.size(), want.size())); for (size_t i = 0; i < got.size(); i++) { ev("monitor_assertions"); cur()->h = mixd(cur()->h, (double)want[i]); if (!(fabsl(got[i] - want[i]) <= 1e-13L * std::max(mag[i], fabsl(want[i])) + 1e-300L)) fail(key, "got " + str(got) + ", expected " + str(want)); } }
void eqm(const std::string &key, const Mat &got, const Mat &want, const Mat &mag) { if (got.r != want.r || got.c != want.c) fail(key, fmt("size %dx%d, expected %dx%d", got.r, got.c, want.r, want.c)); for (size_t i = 0; i < got.d.size(); i++) { ev("monitor_assertions"); cur()->h = mixd(cur()->h, (double)want.d[i]); if (!(fabsl(got.d[i] - want.d[i]) <= 1e-13L * std::max(mag.d[i], fabsl(want.d[i])) + 1e-300L)) fail(key, "got " + str(got) + ", expected " + str(want)); } }
Vec ab(Vec v) { for (auto &x : v) x = fabsl(x); return v; } Mat ab(Mat v) { for (auto &x : v.d) x = fabsl(x); return v; }
void symmetric(const std::string &key, const Mat &m) { for (int i = 0; i < m.r; i++) for (int j = 0; j < i; j++) check(m(i, j) == m(j, i), key + ":result-not-symmetric"); }
bool bits(const Vec &a, const Vec &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
bool bits(const Mat &a, const Mat &b) { return a.r == b.r && a.c == b.c && bits(a.d, b.d); }
// results: compare, store what was observed as the new shadow
void outc(const std::string &key, int k, const CV &v, const Vec &want, const Vec &mag) { CV t = v; Vec o = fv(t); eqv(key, o, want, mag); check(t.columns() == 1, key + ":columns"); X[k].c = t; Y[k].c = o; }
void outr(const std::string &key, int k, const RV &v, const Vec &want, const Vec &mag) { RV t = v; Vec o = fv(t); eqv(key, o, want, mag); check(t.rows() == 1, key + ":rows"); X[k].r = t; Y[k].r = o; }
void outm(const std::string &key, int k, const BM &v, const Mat &want, const Mat &mag) { BM t = v; Mat o = fm(t); eqm(key, o, want, mag); X[k].m = t; Y[k].m = o; }
void outs(const std::string &key, int k, const SM &v, const Mat &want, const Mat &mag) { SM t = v; Mat o = fm(t); eqm(key, o, want, mag); symmetric(key, o); X[k].s = t; Y[k].s = o; }
void inc(const std::string &key, int k, const Vec &want, const Vec &mag) { Vec o = fv(X[k].c); eqv(key, o, want, mag); Y[k].c = o; } void inr(const std::string &key, int k, const Vec &want, const Vec &mag) { Vec o = fv(X[k].r); eqv(key, o, want, mag); Y[k].r = o; }
void inm(const std::string &key, int k, const Mat &want, const Mat &mag) { Mat o = fm(X[k].m); eqm(key, o, want, mag); Y[k].m = o; } void ins(const std::string &key, int k, const Mat &want, const Mat &mag) { Mat o = fm(X[k].s); eqm(key, o, want, mag); symmetric(key, o); Y[k].s = o; }
void others(const std::string &key) { for (int k = 0; k < NR; k++) { check(bits(fv(X[k].c), Y[k].c), key + ":changed-another-column-vector"); check(bits(fv(X[k].r), Y[k].r), key + ":changed-another-row-vector"); check(bits(fm(X[k].m), Y[k].m), key + ":changed-another-matrix"); check(bits(fm(X[k].s), Y[k].s), key + ":changed-another-symmetric-matrix"); } }
Vec plus(Vec v, ld a) { for (auto &x : v) x += a; return v; } Mat plus(Mat v, ld a) { for (auto &x : v.d) x += a; return v; }
// value of an expression, and an upper bound of the magnitude of its terms
#define SCALAR_OPS(T, t, out, in, A) \
  case 0: out(#T " + scalar", d, X[a].t + k, plus(Y[a].t, k), plus(A, fabs(k))); break; \
  case 1: out(#T " - scalar", d, X[a].t - k, plus(Y[a].t, -k), plus(A, fabs(k))); break; \
  case 2: out(#T " * scalar", d, X[a].t * k, Y[a].t * (ld)k, A * (ld)fabs(k)); break; \
  case 3: out(#T " / scalar", d, X[a].t / q, Y[a].t * (1 / (ld)q), A * (1 / (ld)fabs(q))); break; \
  case 4: { auto &z = (X[a].t += k); check((void *)&z == (void *)&X[a].t, #T " += scalar:reference"); in(#T " += scalar", a, plus(Y[a].t, k), plus(A, fabs(k))); break; } \
  case 5: { auto &z = (X[a].t -= k); check((void *)&z == (void *)&X[a].t, #T " -= scalar:reference"); in(#T " -= scalar", a, plus(Y[a].t, -k), plus(A, fabs(k))); break; } \
  case 6: { auto &z = (X[a].t *= k); check((void *)&z == (void *)&X[a].t, #T " *= scalar:reference"); in(#T " *= scalar", a, Y[a].t * (ld)k, A * (ld)fabs(k)); break; } \
  case 7: { auto &z = (X[a].t /= q); check((void *)&z == (void *)&X[a].t, #T " /= scalar:reference"); in(#T " /= scalar", a, Y[a].t * (1 / (ld)q), A * (1 / (ld)fabs(q))); break; } \
  case 8: { auto &z = (X[a].t = k); check((void *)&z == (void *)&X[a].t, #T " = scalar:reference"); in(#T " = scalar", a, plus(Y[a].t * 0.0L, k), A); break; }
#define SAME_OPS(T, t, out, in, A, B) \
  case 9: out(#T " + " #T, d, X[a].t + X[b].t, Y[a].t + Y[b].t, A + B); break; \
  case 10: out(#T " - " #T, d, X[a].t - X[b].t, Y[a].t - Y[b].t, A + B); break; \
  case 11: { auto &z = (X[a].t += X[b].t); check((void *)&z == (void *)&X[a].t, #T " += " #T ":reference"); in(#T " += " #T, a, Y[a].t + Y[b].t, A + B); break; } \
  case 12: { auto &z = (X[a].t -= X[b].t); check((void *)&z == (void *)&X[a].t, #T " -= " #T ":reference"); in(#T " -= " #T, a, Y[a].t - Y[b].t, A + B); break; } \
  case 13: X[d].t = X[a].t; Y[d].t = Y[a].t; break; \
  case 14: { auto z(X[a].t); X[d].t = z; Y[d].t = Y[a].t; break; }
template <class T> void compare(const std::string &key, const T &x, T y, bool want) { const T &cx = x, &cy = y; check((cx == cy) == want, key + ":comparison"); ev(want ? "equal_comparisons" : "unequal_comparisons"); }

void vectors(int a, int b, int d, bool row) {
  int n = g->range(1, MX); double k = val(), q = nz(); int op = g->below(24);
  if (!row) {
    if (op >= 9 && op <= 12 && Y[a].c.size() != Y[b].c.size()) setc(b, V_(Y[a].c.size()));
    cur()->note(fmt("c%d", op)); Vec A = ab(Y[a].c), B = ab(Y[b].c); int N = Y[a].c.size();
    switch (op) {
      SCALAR_OPS(ColumnVector, c, outc, inc, A) SAME_OPS(ColumnVector, c, outc, inc, A, B)
      case 15: outr("ColumnVector transpose", d, X[a].c.transpose(), Y[a].c, A); break;
      case 16: { Vec w = Y[a].c; w.insert(w.end(), Y[b].c.begin(), Y[b].c.end()); outc("ColumnVector concatenation", d, g->flip() ? CV(X[a].c, X[b].c) : X[a].c.vectorAdd(X[b].c), w, ab(w)); if (Y[d].c.size() > (size_t)MX + 2) setc(d, V_(n)); break; }
      case 17: { int i = g->range(1, N), j = g->range(i, N); outc("ColumnVector sub", d, X[a].c.sub(i, j), Vec(Y[a].c.begin() + i - 1, Y[a].c.begin() + j), A); break; }
      case 18: outm("ColumnVector * RowVector", d, X[a].c * X[b].r, outer(Y[a].c, Y[b].r), outer(A, ab(Y[b].r))); break;
      case 19: { X[a].c.assign(n, k); inc("ColumnVector assign", a, Vec(n, (ld)k), Vec(n, (ld)fabs(k))); check(X[a].c.rows() == (unsigned)n && X[a].c.capacity() >= (unsigned)n, "ColumnVector assign:size"); break; }
      case 20: { X[a].c.resize(n); check(X[a].c.rows() == (unsigned)n && X[a].c.columns() == 1, "ColumnVector resize:size"); for (int i = 0; i < std::min(n, N); i++) check(X[a].c(i + 1) == (double)Y[a].c[i], "ColumnVector resize:lost-elements"); for (int i = N; i < n; i++) X[a].c(i + 1) = 1; Y[a].c = fv(X[a].c); break; }
      case 21: { Vec v = V_(n); outc("ColumnVector(n,value)", d, CV(n, k), Vec(n, (ld)k), Vec(n, (ld)fabs(k))); CV e; check(e.rows() == 0, "ColumnVector():size"); CV f(n); check(f.rows() == (unsigned)n, "ColumnVector(n):size"); break; }
      case 22: { int i = g->range(1, N); Vec w = Y[a].c; w[i - 1] = k; if (g->flip()) X[a].c(i) = k; else X[a].c[i - 1] = k; inc("ColumnVector element write", a, w, ab(w)); const CV &cc = X[a].c; CV &mc = X[a].c; for (int j = 1; j <= N; j++) check(cc(j) == mc(j) && cc[j - 1] == mc(j) && mc[j - 1] == mc(j), "ColumnVector element access differs"); break; }
      default: { CV y = X[a].c; compare("ColumnVector equal", X[a].c, y, true); int i = g->range(1, N); y(i) = y(i) == 0 ? 1e-300 : y(i) * (1 + 4e-16); compare("ColumnVector last bit differs", X[a].c, y, false); CV z(N + 1); z = 0.0; for (int j = 1; j <= N; j++) z(j) = X[a].c(j); compare("ColumnVector longer", X[a].c, z, false); if (N > 1) compare("ColumnVector shorter", X[a].c, (CV)X[a].c.sub(1, N - 1), false); }
    }
  } else {
    if (op >= 9 && op <= 12 && Y[a].r.size() != Y[b].r.size()) setr(b, V_(Y[a].r.size()));
    cur()->note(fmt("r%d", op)); Vec A = ab(Y[a].r), B = ab(Y[b].r); int N = Y[a].r.size();
    switch (op) {
      SCALAR_OPS(RowVector, r, outr, inr, A) SAME_OPS(RowVector, r, outr, inr, A, B)
      case 15: outc("RowVector transpose", d, X[a].r.transpose(), Y[a].r, A); break;
      case 16: { Vec w = Y[a].r; w.insert(w.end(), Y[b].r.begin(), Y[b].r.end()); outr("RowVector concatenation", d, X[a].r.vectorAdd(X[b].r), w, ab(w)); if (Y[d].r.size() > (size_t)MX + 2) setr(d, V_(n)); break; }
      case 17: { int i = g->range(1, N), j = g->range(i, N); outr("RowVector sub", d, X[a].r.sub(i, j), Vec(Y[a].r.begin() + i - 1, Y[a].r.begin() + j), A); break; }
      case 18: { if (Y[b].c.size() != Y[a].r.size()) setc(b, V_(N)); double z = X[a].r * X[b].c; eqv("RowVector * ColumnVector", Vec(1, (ld)z), Vec(1, dot(Y[a].r, Y[b].c)), Vec(1, dot(A, ab(Y[b].c)))); break; }
      case 19: { X[a].r.assign(n, k); inr("RowVector assign", a, Vec(n, (ld)k), Vec(n, (ld)fabs(k))); check(X[a].r.columns() == (unsigned)n && X[a].r.capacity() >= (unsigned)n, "RowVector assign:size"); break; }
      case 20: { X[a].r.resize(n); check(X[a].r.columns() == (unsigned)n && X[a].r.rows() == 1, "RowVector resize:size"); for (int i = 0; i < std::min(n, N); i++) check(X[a].r(i + 1) == (double)Y[a].r[i], "RowVector resize:lost-elements"); for (int i = N; i < n; i++) X[a].r(i + 1) = 1; Y[a].r = fv(X[a].r); break; }
      case 21: { outr("RowVector(n,value)", d, RV(n, k), Vec(n, (ld)k), Vec(n, (ld)fabs(k))); RV e; check(e.columns() == 0, "RowVector():size"); RV f(n); check(f.columns() == (unsigned)n, "RowVector(n):size"); break; }
      case 22: { int i = g->range(1, N); Vec w = Y[a].r; w[i - 1] = k; X[a].r(i) = k; inr("RowVector element write", a, w, ab(w)); const RV &cc = X[a].r; RV &mc = X[a].r; for (int j = 1; j <= N; j++) check(cc(j) == mc(j), "RowVector element access differs"); break; }
      default: { RV y = X[a].r; compare("RowVector equal", X[a].r, y, true); int i = g->range(1, N); y(i) = y(i) == 0 ? 1e-300 : y(i) * (1 + 4e-16); compare("RowVector last bit differs", X[a].r, y, false); RV z(N + 1); z = 0.0; for (int j = 1; j <= N; j++) z(j) = X[a].r(j); compare("RowVector longer", X[a].r, z, false); if (N > 1) compare("RowVector shorter", X[a].r, (RV)X[a].r.sub(1, N - 1), false); }
    }
  }
}
Mat sub(const Mat &m, int i1, int i2, int j1, int j2) { Mat o(i2 - i1 + 1, j2 - j1 + 1); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i1 - 1 + i, j1 - 1 + j); return o; }
void matrices(int a, int b, int d) {
  int n = g->range(1, MX), c = g->range(1, MX); double k = val(), q = nz(); int op = g->below(32);
  if (op >= 9 && op <= 12 && (Y[a].m.r != Y[b].m.r || Y[a].m.c != Y[b].m.c)) setm(b, M_(Y[a].m.r, Y[a].m.c));
  if (op == 15 && Y[a].m.c != Y[b].m.r) setm(b, M_(Y[a].m.c, n)); if (op == 16 && Y[a].m.c != (int)Y[b].c.size()) setc(b, V_(Y[a].m.c));
  if (op == 15 && a == b && Y[a].m.r != Y[a].m.c) setm(a, M_(n, n));
  cur()->note(fmt("m%d", op)); Mat A = ab(Y[a].m), B = ab(Y[b].m); int r = Y[a].m.r, cc = Y[a].m.c;
  switch (op) {
    SCALAR_OPS(Matrix, m, outm, inm, A) SAME_OPS(Matrix, m, outm, inm, A, B)
    case 15: outm("Matrix * Matrix", d, X[a].m * X[b].m, Y[a].m * Y[b].m, A * B); break;
    case 16: outc("Matrix * ColumnVector", d, X[a].m * X[b].c, Y[a].m * Y[b].c, A * ab(Y[b].c)); break;
    case 17: outm("Matrix transpose", d, X[a].m.transpose(), T(Y[a].m), T(A)); break;
    case 18: { int i = g->range(1, r); Vec w(cc); for (int j = 0; j < cc; j++) w[j] = Y[a].m(i - 1, j); outr("Matrix row", d, g->flip() ? X[a].m.rowCopy(i) : X[a].m[i], w, ab(w)); break; }
    case 19: { int j = g->range(1, cc); Vec w(r); for (int i = 0; i < r; i++) w[i] = Y[a].m(i, j - 1); outc("Matrix column", d, X[a].m.columnCopy(j), w, ab(w)); break; }
    case 20: { int i = g->range(1, r), i2 = g->range(i, r), j = g->range(1, cc), j2 = g->range(j, cc); Mat w = sub(Y[a].m, i, i2, j, j2); outm("Matrix sub", d, X[a].m.sub(i, i2, j, j2), w, ab(w)); break; }
    case 21: { bool copy = g->flip(0.7); X[a].m.resize(n, c, copy, g->flip()); check(X[a].m.rows() == (unsigned)n && X[a].m.columns() == (unsigned)c, "Matrix resize:size"); for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { if (i < r && j < cc && copy) check(X[a].m(i + 1, j + 1) == (double)Y[a].m(i, j), "Matrix resize:lost-elements"); else X[a].m(i + 1, j + 1) = 2; } Y[a].m = fm(X[a].m); break; }
    case 22: { BM e; check(e.rows() == 0 && e.columns() == 0, "Matrix():size"); BM f(n, c); check(f.rows() == (unsigned)n && f.columns() == (unsigned)c && f.size() == (unsigned)n && f.capacity() >= (unsigned)n, "Matrix(m,n):size"); int N = Y[b].r.size(); Mat w(n, N); for (int i = 0; i < n; i++) for (int j = 0; j < N; j++) w(i, j) = Y[b].r[j]; outm("Matrix(rows,RowVector)", d, BM(n, X[b].r), w, ab(w)); if (N > MX) setm(d, M_(n, c)); break; }
    case 23: { int i = g->range(1, r), j = g->range(1, cc); Mat w = Y[a].m; w(i - 1, j - 1) = k; X[a].m(i, j) = k; inm("Matrix element write", a, w, ab(w)); const BM &x = X[a].m; BM &y = X[a].m; for (int p = 1; p <= r; p++) for (int t = 1; t <= cc; t++) check(x(p, t) == y(p, t), "Matrix element access differs"); break; }
    case 24: { BM &z = (X[d].m = X[b].s); check(&z == &X[d].m, "Matrix = SymmetricMatrix:reference"); Mat w = Y[b].s; inm("Matrix = SymmetricMatrix", d, w, ab(w)); break; }
    case 25: { if (r != cc) { setm(a, M_(n, n)); r = n; } Mat w = Y[a].m; for (int i = 0; i < r; i++) for (int j = 0; j < i; j++) w(j, i) = w(i, j); X[a].m.convertToSymmetricMatrix(X[d].s); ins("Matrix convertToSymmetricMatrix", d, w, ab(w)); break; }
    case 26: { BM w((BM)X[b].s); Mat e = Y[b].s; outm("Matrix(SymmetricMatrix)", d, w, e, ab(e)); break; }
    case 27: case 28: { if (g->flip()) { setm(a, M_(n, n)); } if (Y[b].s.r != Y[a].m.c) sets(b, S_(Y[a].m.c)); BM t((BM)X[b].s); Mat w = Y[a].m * Y[b].s; outm("Matrix * SymmetricMatrix", d, X[a].m * t, w, ab(Y[a].m) * ab(Y[b].s)); break; }
    default: { BM y = X[a].m; compare("Matrix equal", X[a].m, y, true); int i = g->range(1, r), j = g->range(1, cc); y(i, j) = y(i, j) == 0 ? 1e-300 : y(i, j) * (1 + 4e-16); compare("Matrix last bit differs", X[a].m, y, false); compare("Matrix more rows", X[a].m, BM(r + 1, cc), false); compare("Matrix more columns", X[a].m, BM(r, cc + 1), false); }
  }
}
void symmetrics(int a, int b, int d) {
  int n = g->range(1, MX); double k = val(), q = nz(); int op = g->below(34);
  if (((op >= 9 && op <= 12) || op == 15) && Y[a].s.r != Y[b].s.r) sets(b, S_(Y[a].s.r)); if ((op == 16 || op == 17) && Y[a].s.r != (int)Y[b].c.size()) setc(b, V_(Y[a].s.r));
  cur()->note(fmt("s%d", op)); Mat A = ab(Y[a].s), B = ab(Y[b].s); int r = Y[a].s.r;
  switch (op) {
    SCALAR_OPS(SymmetricMatrix, s, outs, ins, A) SAME_OPS(SymmetricMatrix, s, outs, ins, A, B)
    case 15: outm("SymmetricMatrix * SymmetricMatrix", d, X[a].s * X[b].s, Y[a].s * Y[b].s, A * B); break;
    case 16: outc("SymmetricMatrix * ColumnVector", d, X[a].s * X[b].c, Y[a].s * Y[b].c, A * ab(Y[b].c)); break;
    case 17: { Vec w = Y[a].s * Y[b].c, m = A * ab(Y[b].c); X[a].s.multiply(X[b].c, X[d].c); inc("SymmetricMatrix multiply", d, w, m); break; }
    case 18: outs("SymmetricMatrix transpose", d, X[a].s.transpose(), Y[a].s, A); break;
    case 19: { int i = g->range(1, r); Vec w(r); for (int j = 0; j < r; j++) w[j] = Y[a].s(i - 1, j); outr("SymmetricMatrix row", d, g->flip() ? X[a].s.rowCopy(i) : X[a].s[i], w, ab(w)); break; }
    case 20: { int i = g->range(1, r), i2 = g->range(i, r), j = g->range(1, r), j2 = g->range(j, r); Mat w = sub(Y[a].s, i, i2, j, j2); outm("SymmetricMatrix sub", d, X[a].s.sub(i, i2, j, j2), w, ab(w)); break; }
    case 21: { bool copy = g->flip(0.7); X[a].s.resize(n, copy, g->flip()); check(X[a].s.rows() == (unsigned)n && X[a].s.columns() == (unsigned)n, "SymmetricMatrix resize:size"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i < r && j < r && copy) check(X[a].s(i + 1, j + 1) == (double)Y[a].s(i, j), "SymmetricMatrix resize:lost-elements"); else X[a].s(i + 1, j + 1) = 2; } Y[a].s = fm(X[a].s); break; }
    case 22: { SM e; check(e.rows() == 0 && e.columns() == 0, "SymmetricMatrix():size"); SM f(n); check(f.rows() == (unsigned)n && f.columns() == (unsigned)n && f.size() == (unsigned)n && f.capacity() >= (unsigned)n, "SymmetricMatrix(n):size"); Mat w = plus(Mat(n, n), k); outs("SymmetricMatrix(rows,RowVector)", d, SM(n, RV(n, k)), w, ab(w)); break; }
    case 23: { int i = g->range(1, r), j = g->range(1, r); Mat w = Y[a].s; w(i - 1, j - 1) = w(j - 1, i - 1) = k; X[a].s(i, j) = k; X[a].s(j, i) = k; ins("SymmetricMatrix element write", a, w, ab(w)); const SM &x = X[a].s; SM &y = X[a].s; for (int p = 1; p <= r; p++) for (int t = 1; t <= r; t++) check(x(p, t) == y(p, t), "SymmetricMatrix element access differs"); break; }
    case 24: case 25: { if (Y[b].m.r != r || Y[b].m.c != r) setm(b, M_(r, r)); bool p = g->flip(); Mat w = p ? Y[a].s + Y[b].m : Y[a].s - Y[b].m; outm(p ? "SymmetricMatrix + Matrix" : "SymmetricMatrix - Matrix", d, p ? X[a].s + X[b].m : X[a].s - X[b].m, w, A + ab(Y[b].m)); break; }
    case 26: { if (Y[b].m.r != r) setm(b, M_(r, n)); outm("SymmetricMatrix * Matrix", d, X[a].s * X[b].m, Y[a].s * Y[b].m, A * ab(Y[b].m)); break; }
    case 27: case 28: { setm(b, S_(r)); bool p = g->flip(); Mat w = p ? Y[a].s + Y[b].m : Y[a].s - Y[b].m, mg = A + ab(Y[b].m); auto &z = p ? (X[a].s += X[b].m) : (X[a].s -= X[b].m); check((void *)&z == (void *)&X[a].s && (int)z.rows() == r && z(r, 1) == X[a].s(r, 1), "SymmetricMatrix += Matrix:reference"); ins(p ? "SymmetricMatrix += Matrix" : "SymmetricMatrix -= Matrix", a, w, mg); break; }
    default: { SM y = X[a].s; compare("SymmetricMatrix equal", X[a].s, y, true); int i = g->range(1, r), j = g->range(1, r); double v = y(i, j); v = v == 0 ? 1e-300 : v * (1 + 4e-16); y(i, j) = v; y(j, i) = v; compare("SymmetricMatrix last bit differs", X[a].s, y, false); compare("SymmetricMatrix larger", X[a].s, SM(r + 1), false); }
  }
}
}
void H::run(Ctx &c) {
  g = &c.g; MX = c.id % 40 == 7 ? 20 : 6;
  if (c.id % 25 == 0) {   // one element write makes both mirrored elements equal
    int n = g->range(2, 5); Mat m = S_(n); SM s = sm(m); for (int t = 0; t < 3; t++) { int i = g->range(1, n), j = g->range(1, n); double v = val(); s(i, j) = v; m(i - 1, j - 1) = m(j - 1, i - 1) = v; if (i > j ? !bits(fm(s), m) : false) fail("write-to-lower-triangle-of-symmetric-matrix-not-mirrored", fmt("(%d,%d)", i, j)); if (!bits(fm(s), m)) fail("write-to-upper-triangle-of-symmetric-matrix-not-mirrored", fmt("(%d,%d)", i, j)); }
    c.h = mixd(c.h, (double)m(0, 0)); c.nontrivial = true; ev("single_symmetric_writes"); return;
  }
  for (int k = 0; k < NR; k++) { setc(k, V_(g->range(1, MX))); setr(k, V_(g->range(1, MX))); setm(k, M_(g->range(1, MX), g->range(1, MX))); sets(k, S_(g->range(1, MX))); }
  int N = g->range(30, 60);
  for (int i = 0; i < N; i++) {
    int a = g->below(NR), b = g->below(NR), d = g->below(NR), w = g->below(8);
    switch (w) { case 0: vectors(a, b, d, false); break; case 1: vectors(a, b, d, true); break; case 2: case 3: case 4: matrices(a, b, d); break; default: symmetrics(a, b, d); }
    others("operation"); ev("operations");
    for (int k = 0; k < NR; k++) { // keep magnitudes finite
      if (maxabs(Y[k].c) > 1e100L || maxabs(Y[k].c) < 1e-100L) setc(k, V_(g->range(1, MX))); if (maxabs(Y[k].r) > 1e100L || maxabs(Y[k].r) < 1e-100L) setr(k, V_(g->range(1, MX))); if (maxabs(Y[k].m) > 1e100L || Y[k].m.c > MX || Y[k].m.r > MX || maxabs(Y[k].m) < 1e-100L) setm(k, M_(g->range(1, MX), g->range(1, MX))); if (maxabs(Y[k].s) > 1e100L || maxabs(Y[k].s) < 1e-100L) sets(k, S_(g->range(1, MX)));
    }
  }
  c.nontrivial = N >= 20;
}
