// Oracles for samplers with a finite support.
#ifndef VERIF_SAMPLING_H
#define VERIF_SAMPLING_H
#include "common.h"
namespace V {
// `draw(n)` returns n category numbers drawn by the library; p: the true probabilities.
//  1. extreme uniform draws (0 and 1-2^-32) may only give categories of non-zero probability;
//  2. an equidistant grid of uniform draws must give each category its share exactly (one draw per sample);
//     when the sampler uses another number of draws, independent draws must pass a chi-square test.
inline void finite_sampler(const std::string &key, Rng &g, const std::vector<double> &p, std::function<std::vector<int>(int)> draw, bool onedraw, int N) {
  Draws saved = D();
  auto cat = [&](const std::vector<int> &v, int n, const char *w) {
    check((int)v.size() == n, key + ":number-of-samples", fmt("%zu samples instead of %d (%s)", v.size(), n, w));
    for (int x : v) check(x >= 0 && x < (int)p.size() && p[x] > 0, key + ":outside-support", fmt("drew category %d of %zu with probability %g (%s)", x, p.size(), x >= 0 && x < (int)p.size() ? p[x] : -1.0, w));
  };
  for (int t = 0; t < 3; t++) {
    D().reset(Draws::CASE, g.next()); D().hostile = t == 0 ? 1.0 : 0.3;
    int n = g.range(1, 12); cat(draw(n), n, "extreme draws"); ev("extreme_draw_batches");
  }
  D().reset(Draws::CASE, g.next());
  bool grid = false;
  if (onedraw) {
    std::vector<double> u(N); double off = g.uni(0.05, 0.95);
    for (int i = 0; i < N; i++) u[i] = (i + off) / N;
    for (int i = N - 1; i > 0; i--) std::swap(u[i], u[g.below(i + 1)]);
    D().script(u, std::vector<double>());
    std::vector<int> v = draw(N); cat(v, N, "grid");
    if (D().nu == N) {
      grid = true; std::vector<long> cnt(p.size(), 0); for (int x : v) cnt[x]++;
      for (size_t i = 0; i < p.size(); i++) check(std::fabs(cnt[i] - N * p[i]) <= 3.0, key + ":frequency", fmt("category %zu: %ld of %d, expected %.2f", i, cnt[i], N, N * p[i]));
      ev("grid_frequency_tests");
    }
  }
  // One uniform draw per sample: the draws that lead to each category are found by bisection. When each category has one interval, in order,
  // their lengths must be the probabilities up to rounding (the generator has 32 bits: the last interval is not judged beyond 1-2^-32)
  if ((onedraw ? grid : true) && p.size() <= 60 && g.flip(0.4)) {
    bool one = true; auto val = [&](double u) { D().script(std::vector<double>(1, u), std::vector<double>()); std::vector<int> v = draw(1); cat(v, 1, "exact"); if (D().nu != 1 || D().nn) one = false; return v[0]; };
    struct Pt { double u; int c; }; std::vector<Pt> pt; int G = 17; for (int i = 0; i <= G && one; i++) { double u = i == G ? 1 - std::ldexp(1.0, -32) : (double)i / G; pt.push_back(Pt{u, val(u)}); }
    if (one) {
      Vec len(p.size(), 0.0L); ld last = 0; int lastc = pt[0].c; bool mono = true; std::vector<Pt> st(pt.rbegin(), pt.rend()); Pt a = st.back(); st.pop_back(); long calls = 0;
      while (!st.empty() && calls < 20000) {
        Pt b = st.back(); if (a.c == b.c) { a = b; st.pop_back(); continue; }
        double m = a.u + (b.u - a.u) / 2; if (m <= a.u || m >= b.u) { if (b.c < a.c) mono = false; len[a.c] += b.u - last; last = b.u; a = b; lastc = b.c; st.pop_back(); continue; }
        st.push_back(Pt{m, val(m)}); calls++;
      }
      if (st.empty() && mono) { for (int i = 0; i < lastc; i++) check(fabsl(len[i] - p[i]) <= 1e-13L, key + ":exact-share", fmt("category %d is drawn for a share of %.17Lg of the uniform draws, its probability is %.17g", i, len[i], p[i])); ev("exact_share_tests"); }
    }
  }
  D().reset(Draws::CASE, g.next());
  if (!grid) {
    D().reset(Draws::CASE, g.next()); int len = onedraw ? N : g.pick(std::vector<int>{1, 2, 3, 7, N}), tot = 0;   // many short lists or a long one
    if (!onedraw && g.flip(0.03)) { N = 300000; len = g.pick(std::vector<int>{5, 20, 61, 150, 400, 1200, 3000}); ev("precise_frequency_tests"); }
    std::vector<long> cnt(p.size(), 0); long eq = 0, pairs = 0; double pq = 0; for (double x : p) pq += x * x;
    for (; tot < N; tot += len) { std::vector<int> v = draw(len); cat(v, len, "independent draws"); for (int x : v) cnt[x]++; if (onedraw) for (int lag = 1; lag <= 3; lag++) for (int i = lag; i < len; i++) { eq += v[i] == v[i - lag]; pairs++; } }
    if (onedraw && pairs > 100 && std::fabs(eq - pairs * pq) > 20 * std::sqrt(pairs * pq * (1 - pq) + 1)) fail(key + ":samples-not-independent", fmt("%ld of %ld pairs of neighbouring samples are equal instead of %g", eq, pairs, pairs * pq));
    if (incredible(cnt, p)) { std::ostringstream o; for (size_t i = 0; i < p.size(); i++) o << cnt[i] << "/" << tot * p[i] << " "; fail(key + ":frequency", "observed/expected " + o.str()); }
    ev("chi_square_tests");
  }
  D() = saved; D().nu = 0;
}
}
#endif
