// C02: BCJR likelihood ratios against the sum over all terminated bit sequences.
#include "mat.h"
using namespace mon;
typedef long double L_;
static uint32_t octal(uint32_t g) { uint64_t o = 0, p = 1; while (g) { o += (g & 7) * p; p *= 10; g >>= 3; } return (uint32_t)o; }
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(2500, 6);
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("bcjr", c); uint32_t m = 1 + (uint32_t)r.below(r.chance(.15) ? 6 : 4), nn = 1 + (uint32_t)r.below(r.chance(.1) ? 8 : 4); std::vector<uint32_t> g(nn); std::string gs; for (auto& x : g) { x = (uint32_t)(r.u64() & ((1u << (m + 1)) - 1)); if (r.chance(.5)) x |= 1u << m; gs += std::to_string(octal(x)) + " "; }
    size_t K = r.chance(.1) ? r.below(3) : r.below(9), len = K + m; if (r.chance(.1)) len = 1 + r.below(4); std::vector<int> bits(len, 0); for (size_t i = 0; i + m < len; i++) bits[i] = (int)r.below(2);
    auto code = [&](uint32_t s, int b, uint32_t j) { return __builtin_popcount((s | (uint32_t)b << m) & g[j]) & 1; };
    std::vector<double> y(len * nn); { uint32_t s = 0; for (size_t t = 0; t < len; t++) { for (uint32_t j = 0; j < nn; j++) y[t * nn + j] = code(s, bits[t], j) ? 1 : -1; s = s >> 1 | (uint32_t)bits[t] << (m - 1); } }
    double sg = r.chance(.25) ? 0 : r.uni(.05, 1.5); for (auto& v : y) v += sg * r.gauss(); double eb = r.chance(.2) ? r.uni(.001, .1) : r.uni(.1, 3), tot = 0; for (double v : y) tot += std::fabs(v); if (4 * eb * tot > 500) eb = 500 / (4 * tot); double ck = r.below(2) ? .5 : r.chance(.1) ? 0 : r.chance(.2) ? std::pow(10., r.uni(-12, -2)) : r.uni(.02, .98); bool dflt = ck == .5 && r.below(2);
    begin(sg == 0 ? "noiseless" : "bcjr", "n=" + std::to_string(nn) + " m=" + std::to_string(m) + " generators " + gs + " ebn0 " + vstr(eb) + " prior " + vstr(ck) + " sent " + vecstr(bits) + " received " + vecstr(y));
    susa::ccode e(nn, 1, m); for (uint32_t i = 0; i < nn; i++) e.set_generator(octal(g[i]), i); susa::matrix<double> x = r.below(2) ? susa::matrix<double>(y.size(), 1) : susa::matrix<double>(1, y.size()); for (size_t i = 0; i < y.size(); i++) x(i) = y[i]; auto x0 = x; if (r.chance(.3)) { e.encode(susa::matrix<uint8_t>(5, 1, 1)); e.set_internal_state(1); } if (r.chance(.2)) e.decode_bcjr(susa::matrix<double>(nn * 4, 1, .5), 1.);
    auto lr = dflt ? e.decode_bcjr(x, eb) : e.decode_bcjr(x, eb, ck);
    // weights of all sequences, long double, from start zero to end zero
    std::vector<L_> one(len, 0), zero(len, 0); L_ best = -1e4000L; std::vector<std::pair<uint32_t, L_>> seqs; for (uint32_t b = 0; b < (1u << (len > m ? len - m : 0)); b++) { uint32_t s = 0; L_ lw = 0; for (size_t t = 0; t < len; t++) { int bit = (b >> t) & 1; for (uint32_t j = 0; j < nn; j++) lw += 2 * (L_)eb * y[t * nn + j] * (code(s, bit, j) ? 1 : -1); lw += std::log(bit ? (L_)ck : 1 - (L_)ck); s = s >> 1 | (uint32_t)bit << (m - 1); } if (s != 0) { continue; } seqs.push_back({b, lw}); best = std::max(best, lw); }
    for (auto& q : seqs) { L_ w = std::exp(q.second - best); for (size_t t = 0; t < len; t++) (((q.first >> t) & 1) ? one : zero)[t] += w; }
    if (lr.size() != x.size()) { violation("bcjr_size", std::to_string(lr.size())); continue; } int agree = 0;
    for (size_t t = 0; t < len; t++) { L_ w = one[t] / zero[t]; double got = lr(t); L_ e2 = std::fabs((L_)got - w); stat_max("ratio_rel_err", w > 0 ? (double)(e2 / w) : (double)e2); if (!(e2 <= 1e-9L * w)) { violation("bcjr_ratio", "ratio of bit " + std::to_string(t) + " is " + vstr(got) + " instead of " + vstr((double)w)); break; } agree++; }
    // noiseless: the sent bits, whenever they are the bitwise MAP decision
    if (sg == 0 && !seqs.empty()) for (size_t t = 0; t < len; t++) { L_ w = one[t] / zero[t]; if (std::fabs(w - 1) < 1e-6L) continue; if ((lr(t) > 1) != (w > 1)) violation("bcjr_decision", "bit " + std::to_string(t)); }
    if (!(x == x0)) violation("bcjr_argument", "input modified"); stat_add("n_ratios", agree); seen(hvec(y, hvec(g, m)));
  }
  // long sequences: the same ratio from an independent rescaled forward-backward recursion
  uint64_t nl = N(500, 8); for (uint64_t c = 0; c < nl; c++) {
    if (!turn()) continue; Rng r = case_rng("long", c); uint32_t m = 1 + (uint32_t)r.below(r.chance(.2) ? (r.chance(.15) ? 9 : 7) : 4), nn = 1 + (uint32_t)r.below(4); std::vector<uint32_t> g(nn); std::string gs; for (auto& x : g) { x = (uint32_t)(r.u64() & ((1u << (m + 1)) - 1)); x |= 1u << m; gs += std::to_string(octal(x)) + " "; }
    size_t len = 20 + r.below(thorough() ? 400 : 150); if (r.chance(.02) && m < 6) len = 260 + r.below(600); if (m > 7) len = m + r.below(12); std::vector<int> bits(len, 0); for (size_t i = 0; i + m < len; i++) bits[i] = (int)r.below(2); size_t S = (size_t)1 << m;
    auto code = [&](uint32_t s, int b, uint32_t j) { return __builtin_popcount((s | (uint32_t)b << m) & g[j]) & 1; }; auto nx = [&](uint32_t s, int b) { return s >> 1 | (uint32_t)b << (m - 1); };
    std::vector<double> y(len * nn); { uint32_t s = 0; for (size_t t = 0; t < len; t++) { for (uint32_t j = 0; j < nn; j++) y[t * nn + j] = code(s, bits[t], j) ? 1 : -1; s = nx(s, bits[t]); } }
    double sg = r.chance(.2) ? 0 : r.uni(.05, 1.5), eb = r.uni(.1, 3), big = 0, ck = r.below(2) ? .5 : r.chance(.1) ? 0 : r.uni(.02, .98); for (auto& v : y) { v += sg * r.gauss(); big = std::max(big, std::fabs(v)); } if (4 * eb * big * nn * (m + 1) * 2 > 500) eb = 500 / (8 * big * nn * (m + 1));
    begin("long", "n=" + std::to_string(nn) + " m=" + std::to_string(m) + " generators " + gs + " ebn0 " + vstr(eb) + " prior " + vstr(ck) + " sent " + vecstr(bits) + " received " + vecstr(y));
    susa::ccode e(nn, 1, m); for (uint32_t i = 0; i < nn; i++) e.set_generator(octal(g[i]), i); susa::matrix<double> x(y.size(), 1); for (size_t i = 0; i < y.size(); i++) x(i) = y[i]; auto lr = e.decode_bcjr(x, eb, ck);
    auto gam = [&](size_t t, uint32_t s, int b) { L_ w = 0; for (uint32_t j = 0; j < nn; j++) w += 2 * (L_)eb * y[t * nn + j] * (code(s, b, j) ? 1 : -1); return std::exp(w) * (b ? (L_)ck : 1 - (L_)ck); };
    std::vector<std::vector<L_>> A(len + 1, std::vector<L_>(S, 0)), B = A; A[0][0] = 1; B[len][0] = 1; auto scale = [](std::vector<L_>& v) { L_ q = 0; for (L_ z : v) q = std::max(q, z); if (q > 0) for (L_& z : v) z /= q; };
    for (size_t t = 0; t < len; t++) { for (uint32_t s = 0; s < S; s++) for (int b = 0; b < 2; b++) A[t + 1][nx(s, b)] += A[t][s] * gam(t, s, b); scale(A[t + 1]); } for (size_t t = len; t-- > 0;) { for (uint32_t s = 0; s < S; s++) for (int b = 0; b < 2; b++) B[t][s] += B[t + 1][nx(s, b)] * gam(t, s, b); scale(B[t]); }
    for (size_t t = 0; t < len; t++) { L_ o = 0, z = 0; for (uint32_t s = 0; s < S; s++) { z += A[t][s] * gam(t, s, 0) * B[t + 1][nx(s, 0)]; o += A[t][s] * gam(t, s, 1) * B[t + 1][nx(s, 1)]; } L_ w = o / z, e2 = std::fabs((L_)lr(t) - w); stat_add("n_ratios", 1); stat_max("ratio_rel_err_long", w > 0 ? (double)(e2 / w) : (double)e2); if (!(e2 <= 1e-9L * w)) { violation("bcjr_ratio_long", "ratio of bit " + std::to_string(t) + " is " + vstr(lr(t)) + " instead of " + vstr((double)w)); break; } }
    seen(hvec(y, hvec(g, m))); }
  return finish();
}
