// C01: encoder output against the modulo-2 convolution with each generator; state machine queries; copies.
#include "mat.h"
#include <memory>
using namespace mon;
// decimal number whose digits are the octal digits of g
static uint32_t octal(uint32_t g) { uint64_t o = 0, p = 1; while (g) { o += (g & 7) * p; p *= 10; g >>= 3; } return (uint32_t)o; }
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(4000);
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("ccode", c); uint32_t m = 1 + (uint32_t)r.below(r.chance(.3) ? 31 : 8), nn = 1 + (uint32_t)r.below(r.chance(.1) ? 20 : 8); uint32_t gb = std::min<uint32_t>(m + 1, 29); std::vector<uint32_t> g(nn); std::string gs; for (auto& x : g) { x = (uint32_t)(r.u64() & ((1ull << gb) - 1)); if (r.chance(.3)) x |= 1; if (r.chance(.3)) x |= 1u << (gb - 1); if (r.chance(.05)) x = 0; if (m >= 29 && r.chance(.2)) x = 1u << 29 | (x & 0xFFFFFF); gs += std::to_string(octal(x)) + " "; }
    size_t L = 1 + r.below(r.chance(.05) ? 400 : 40); if (r.chance(.004)) L = 3000 + r.below(70000); std::vector<uint8_t> in(L); for (auto& b : in) b = (uint8_t)(r.below(2) ? (r.chance(.05) ? 7 : 1) : 0); begin("ccode", "n=" + std::to_string(nn) + " m=" + std::to_string(m) + " generators " + gs + " input " + vecstr(in));
    susa::ccode first(nn, 1, m); if (r.chance(.3)) for (uint32_t i = 0; i < nn; i++) first.set_generator(octal((uint32_t)(r.u64() & ((1ull << gb) - 1))), i);
    for (uint32_t i = 0; i < nn; i++) first.set_generator(octal(g[i]), i); if (r.chance(.2)) for (uint32_t i = nn; i-- > 0;) first.set_generator(octal(g[i]), i);
    // a copy, an assigned copy and the original behave alike and outlive each other
    std::unique_ptr<susa::ccode> held; susa::ccode other(1 + (uint32_t)r.below(3), 1, 1 + (uint32_t)r.below(3)); int mode = (int)r.below(5); susa::ccode* e = &first; if (mode == 1) { held.reset(new susa::ccode(first)); first = susa::ccode(2, 1, 2); e = held.get(); } if (mode == 2) { other = first; e = &other; } if (mode == 3) { susa::ccode z; z = first; std::swap(other, z); e = &other; } if (mode == 4) { susa::ccode& q = first; first = q; }
    susa::matrix<uint8_t> x = r.below(2) ? susa::matrix<uint8_t>(L, 1) : susa::matrix<uint8_t>(1, L); if (L % 4 == 0 && r.chance(.3)) x = susa::matrix<uint8_t>(4, L / 4); for (size_t i = 0; i < L; i++) x(i) = in[i]; auto x0 = x;
    for (int rep = 0; rep < 2; rep++) { if (r.chance(.4)) e->set_internal_state((uint32_t)(r.u64() & ((1ull << m) - 1))); auto y = e->encode(x); if (y.size() != L * nn || y.no_cols() != 1) { violation("encode_shape", std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols())); break; }
      bool bad = false; for (size_t t = 0; t < L && !bad; t++) for (uint32_t j = 0; j < nn; j++) { int w = 0; for (uint32_t k = 0; k <= m && k <= t; k++) if (in[t - k]) w ^= (g[j] >> (m - k)) & 1; if (y(t * nn + j) != w) { violation("encode", "bit " + std::to_string(j) + " of group " + std::to_string(t) + " is " + std::to_string(y(t * nn + j)) + " instead of " + std::to_string(w) + " (copy mode " + std::to_string(mode) + ", call " + std::to_string(rep) + ")"); bad = true; break; } } if (bad) break; }
    if (!(x == x0)) violation("encode_argument", "input modified"); MON_CHECK(std::fabs(e->rate() - 1. / nn) < 1e-6, "rate", e->rate());
    for (int k = 0; k < 40; k++) { uint32_t s = (uint32_t)(r.u64() & ((1ull << m) - 1)); bool b = r.below(2); uint32_t w = (s >> 1) | ((uint32_t)b << (m - 1)), ns = e->next_state(s, b); if (ns != w) { violation("next_state", "next_state(" + std::to_string(s) + "," + std::to_string(b) + ") = " + std::to_string(ns) + " instead of " + std::to_string(w)); break; } if (nn <= 8 && m < 31) { unsigned o = 0; for (uint32_t j = 0; j < nn; j++) o |= (unsigned)(__builtin_popcount((s | (uint32_t)b << m) & g[j]) & 1) << j; unsigned q = e->next_output(s, b); if (q != o) { violation("next_output", "next_output(" + std::to_string(s) + "," + std::to_string(b) + ") = " + std::to_string(q) + " instead of " + std::to_string(o)); break; } } }
    // walking the state machine reproduces the encoder
    if (nn <= 8 && m < 31) { uint32_t s = 0; auto y = e->encode(x); for (size_t t = 0; t < L; t++) { unsigned o = e->next_output(s, in[t] != 0); for (uint32_t j = 0; j < nn; j++) if (y(t * nn + j) != ((o >> j) & 1)) { violation("machine", "the state machine and encode() disagree at group " + std::to_string(t)); t = L; break; } if (t < L) s = e->next_state(s, in[t] != 0); } }
    seen(hvec(in, hvec(g, m)));
  }
  return finish();
}
