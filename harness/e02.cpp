// E02: BCJR equaliser ratios against the sum of the weights of all terminated sequences.
#include "mat.h"
using namespace mon;
typedef long double L_;
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(3500, 8);
  for (uint64_t c0 = 0; c0 < n; c0++) { if (!turn()) continue; Rng r = case_rng("bcjr", c0);
    size_t L = c0 == 7 ? 10 : 2 + r.below(r.chance(.02) ? 6 : 4), l = L - 1; bool longcase = r.chance(.12), exact = r.chance(.25); std::vector<double> taps(L), pam(2); for (auto& t : taps) t = exact ? (double)r.range(-2, 2) : r.gauss(); if (r.chance(.1)) taps[r.below(L)] = 0; if (r.chance(.7)) { pam[0] = -1; pam[1] = 1; if (r.chance(.3)) std::swap(pam[0], pam[1]); } else { pam[0] = r.gauss(); pam[1] = r.gauss(); }
    size_t len = longcase ? (r.chance(.05) ? 260 + r.below(r.below(2) ? 500 : 2500) : 30 + r.below(200)) : 1 + r.below(11); bool veryl = c0 % 1500 == 11; if (veryl) { longcase = true; len = 1100 + r.below(1500); L = 2 + r.below(2); l = L - 1; taps.resize(L, .5); } if (L > 6) { len = L + r.below(12 - L); longcase = false; }  // (the decoder is cubic in the number of states)
    if (L == 6 && len > 100) len = 100; std::vector<int> u(len, 0); for (size_t i = 0; i + l < len; i++) u[i] = (int)r.below(2);
    std::vector<double> y(len); for (size_t t = 0; t < len; t++) { double o = 0; for (size_t k = 0; k < L; k++) o += taps[k] * pam[t >= k ? u[t - k] : 0]; y[t] = o; } double sg = r.chance(.25) ? 0 : r.uni(.05, 1.5); for (auto& v : y) v += sg * r.gauss();
    double eb = r.chance(veryl ? 1 : .2) ? r.uni(.001, .1) : r.uni(.1, 3), big = 0, at = 0; for (double t : taps) at += std::fabs(t); for (double v : y) big = std::max(big, std::pow(std::fabs(v) + at * std::max(std::fabs(pam[0]), std::fabs(pam[1])), 2)); if (big * eb * (2 * l + 2) > 500) eb = 500 / (big * (2 * l + 2));
    begin(longcase ? "long" : sg == 0 ? "noiseless" : "bcjr", "taps " + vecstr(taps) + " pam " + vecstr(pam) + " ebn0 " + vstr(eb) + " received " + vecstr(y));
    susa::matrix<double> mt(1, L), mp(2, 1), x = r.below(2) ? susa::matrix<double>(len, 1) : susa::matrix<double>(1, len); for (size_t i = 0; i < L; i++) mt(i) = taps[i]; mp(0) = pam[0]; mp(1) = pam[1]; for (size_t i = 0; i < len; i++) x(i) = y[i]; auto x0 = x;
    susa::channel<double> ch(mt, mp); if (r.chance(.2)) ch.decode_bcjr(x, 1e-3); auto lr = ch.decode_bcjr(x, eb); if (!(x == x0)) violation("argument", "input modified");
    // forward-backward over explicit symbol tuples, rescaled in long double
    size_t S = (size_t)1 << l; auto nx = [&](size_t s, int b) { return ((s << 1) | (size_t)b) & (S - 1); }; auto gam = [&](size_t t, size_t s, int b) { L_ o = (L_)taps[0] * pam[b]; for (size_t k = 1; k < L; k++) o += (L_)taps[k] * pam[(s >> (k - 1)) & 1]; return std::exp(-(L_)eb * (y[t] - o) * (y[t] - o)); };
    std::vector<std::vector<L_>> A(len + 1, std::vector<L_>(S, 0)), B = A; A[0][0] = 1; B[len][0] = 1; auto scale = [](std::vector<L_>& v) { L_ m = 0; for (L_ q : v) m = std::max(m, q); if (m > 0) for (L_& q : v) q /= m; };
    for (size_t t = 0; t < len; t++) { for (size_t s = 0; s < S; s++) for (int b = 0; b < 2; b++) A[t + 1][nx(s, b)] += A[t][s] * gam(t, s, b); scale(A[t + 1]); }
    for (size_t t = len; t-- > 0;) { for (size_t s = 0; s < S; s++) for (int b = 0; b < 2; b++) B[t][s] += B[t + 1][nx(s, b)] * gam(t, s, b); scale(B[t]); }
    std::vector<L_> one(len, 0), zero(len, 0); for (size_t t = 0; t < len; t++) for (size_t s = 0; s < S; s++) { zero[t] += A[t][s] * gam(t, s, 0) * B[t + 1][nx(s, 0)]; one[t] += A[t][s] * gam(t, s, 1) * B[t + 1][nx(s, 1)]; }
    if (!longcase) { // brute force over every sequence that ends in the zero state
      std::vector<L_> o2(len, 0), z2(len, 0); for (uint32_t q = 0; q < (1u << len); q++) { size_t s = 0; L_ w = 1; for (size_t t = 0; t < len; t++) { int b = (q >> t) & 1; w *= gam(t, s, b); s = nx(s, b); } if (s) continue; for (size_t t = 0; t < len; t++) (((q >> t) & 1) ? o2 : z2)[t] += w; }
      for (size_t t = 0; t < len; t++) { L_ a = o2[t] / z2[t], b = one[t] / zero[t]; if (!(std::fabs(a - b) <= 1e-13L * std::fabs(a))) violation("ORACLE", "reference sums disagree"); } stat_add("n_brute_forced", 1); }
    if (lr.size() != len || lr.no_rows() != x.no_rows()) { violation("bcjr_size", std::to_string(lr.size())); continue; }
    for (size_t t = 0; t < len; t++) { L_ w = one[t] / zero[t]; L_ e2 = std::fabs((L_)lr(t) - w); stat_max("ratio_rel_err", w > 0 ? (double)(e2 / w) : (double)e2); stat_add("n_ratios", 1); if (!(e2 <= 1e-9L * w)) { violation("bcjr_ratio", "ratio of symbol " + std::to_string(t) + " is " + vstr(lr(t)) + " instead of " + vstr((double)w)); break; } }
    seen(hvec(y, hvec(taps, hvec(pam)))); }
  return finish();
}
