// R01: the raw streams of both generators against std::mt19937, under random draw histories, re-seeding and copies.
#include "mat.h"
#include <random>
#include <memory>
using namespace mon;
static uint32_t seed(Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 0xffffffffu; case 3: return 5489; case 4: return 0x80000000u; case 5: return (uint32_t)r.below(1000); default: return (uint32_t)r.u64(); } }
static bool near(double a, double b) { return std::fabs(a - b) <= 4e-16 * std::fabs(b); }
struct Ref { std::mt19937 g; bool touched = false; Ref(uint32_t s) : g(s) {} };
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(900);
  // rng: uniform doubles, masks, bits, re-seeding, copies; several generators interleaved
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("rng", c); std::string log; begin("rng", log); struct P { susa::rng g; std::mt19937 o; }; std::vector<P> ps; uint64_t sig = 0; auto note = [&](const std::string& x) { if (log.size() < 3000) log += x + " "; begin("rng", log); sig = hbytes(x.data(), x.size(), sig); };
    { uint32_t s = seed(r); note("rng(" + std::to_string(s) + ")"); ps.push_back({susa::rng(s), std::mt19937(s)}); } { note("rng()"); ps.push_back({susa::rng(), std::mt19937(5489u)}); }
    int len = 10 + (int)r.below(40); uint64_t draws = 0;
    for (int k = 0; k < len; k++) { size_t i = r.below(ps.size()); P& p = ps[i]; size_t cnt = r.below(6) == 0 ? 500 + r.below(900) : 1 + r.below(40); if (r.below(800) == 0) cnt = 66000; std::string I = std::to_string(i) + ":" + std::to_string(cnt); draws += cnt;
      switch (r.below(8)) {
        case 0: { note("rand" + I); for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o(); double g = p.g.rand(); if (!near(g, u / 4294967295.0) || g < 0 || g > 1) { violation("rng_rand", "draw is " + vstr(g) + " instead of " + vstr(u / 4294967295.0)); k = len; break; } } break; }
        case 1: { unsigned m = r.below(3) ? 0xffffffffu : (unsigned)r.u64(); note("mask" + I); for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o() & m, g = p.g.rand_mask(m); if (g != u) { violation("rng_stream", "masked draw " + std::to_string(g) + " instead of " + std::to_string(u)); k = len; break; } } break; }
        case 2: { note("maskv" + I); unsigned m = r.below(3) ? 0xffffffffu : (unsigned)r.u64(); auto v = p.g.rand_mask(m, (unsigned)cnt); if (v.no_rows() != cnt || v.no_cols() != 1) { violation("rng_mask_shape", "shape"); break; } for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o() & m; if (v(q) != u) { violation("rng_mask_matrix", "element " + std::to_string(q)); k = len; break; } } break; }
        case 3: { note("bits" + I); auto v = p.g.bernoulli(cnt); if (v.no_rows() != cnt || v.no_cols() != 1) { violation("rng_bits_shape", "shape"); break; } for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o() & 1; if ((uint32_t)v(q) != u) { violation("rng_bits", "element " + std::to_string(q)); k = len; break; } } break; }
        case 4: { note("randv" + I); auto v = p.g.rand((unsigned)cnt); if (v.no_rows() != cnt || v.no_cols() != 1) { violation("rng_rand_shape", "shape"); break; } for (size_t q = 0; q < cnt; q++) { double u = p.o() / 4294967295.0; if (!near(v(q), u)) { violation("rng_rand_matrix", "element " + std::to_string(q)); k = len; break; } } break; }
        case 5: { uint32_t s = seed(r); note("init" + std::to_string(i) + ":" + std::to_string(s)); p.g.init(s); p.o.seed(s); break; }
        case 6: { note("copy" + std::to_string(i)); if (ps.size() < 5) { P q = p; ps.push_back(q); } else { size_t j = r.below(ps.size()); if (r.below(2)) ps[j] = ps[i]; else { susa::rng t(ps[i].g); ps[j].g = t; ps[j].o = ps[i].o; } } break; }
        case 7: { note("self" + std::to_string(i)); susa::rng& a = p.g; a = p.g; uint32_t u = p.o(), g = p.g.rand_mask(0xffffffffu); if (g != u) violation("rng_self_assign", "stream broken after self-assignment"); break; }
      } }
    stat_add("n_rng_draws", (double)draws); seen(sig ^ c * 0 + mix(c));
  }
  // mt: the same with its own accessors
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("mt", c); std::string log; begin("mt", log); struct P { std::unique_ptr<susa::mt> g; std::mt19937 o; }; std::vector<P> ps; uint64_t sig = 0; auto note = [&](const std::string& x) { if (log.size() < 3000) log += x + " "; begin("mt", log); sig = hbytes(x.data(), x.size(), sig); };
    auto add = [&](susa::mt* g, const std::mt19937& o) { ps.push_back(P{std::unique_ptr<susa::mt>(g), o}); }; { uint32_t s = seed(r); note("mt(" + std::to_string(s) + ")"); add(new susa::mt(s), std::mt19937(s)); } { note("mt()"); add(new susa::mt(), std::mt19937(5489u)); }
    int len = 10 + (int)r.below(40); uint64_t draws = 0;
    for (int k = 0; k < len; k++) { size_t i = r.below(ps.size()); P& p = ps[i]; size_t cnt = r.below(6) == 0 ? 500 + r.below(900) : 1 + r.below(40); if (r.below(800) == 0) cnt = 66000; std::string I = std::to_string(i) + ":" + std::to_string(cnt); draws += cnt;
      switch (r.below(7)) {
        case 0: { unsigned m = r.below(3) ? 0xffffffffu : (unsigned)r.u64(); note("mask" + I); for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o() & m, g = p.g->rand_mask(m); if (g != u) { violation("mt_stream", "masked draw " + std::to_string(g) + " instead of " + std::to_string(u)); k = len; break; } } break; }
        case 1: { note("maskv" + I); unsigned m = r.below(3) ? 0xffffffffu : (unsigned)r.u64(); auto v = p.g->rand_mask(m, (unsigned)cnt); if (v.no_rows() != cnt || v.no_cols() != 1) { violation("mt_mask_shape", "shape"); break; } for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o() & m; if (v(q) != u) { violation("mt_mask_matrix", "element " + std::to_string(q)); k = len; break; } } break; }
        case 2: { note("rand" + I); auto v = p.g->rand((unsigned)cnt); if (v.no_rows() != cnt || v.no_cols() != 1) { violation("mt_rand_shape", "shape"); break; } for (size_t q = 0; q < cnt; q++) { double u = p.o() / 4294967295.0; if (!near(v(q), u) || v(q) < 0 || v(q) > 1) { violation("mt_rand_matrix", "element " + std::to_string(q) + " is " + vstr(v(q))); k = len; break; } } break; }
        case 3: { unsigned m = r.below(3) == 0 ? 0xffffffffu : 1 + (unsigned)(r.u64() >> (33 + r.below(30))); note("int" + I + ":" + std::to_string(m)); for (size_t q = 0; q < cnt; q++) { uint32_t u = p.o() % m + 1, g = p.g->randint(m); if (g != u || g < 1 || g > m) { violation("mt_randint", "randint(" + std::to_string(m) + ") gives " + std::to_string(g) + " instead of " + std::to_string(u)); k = len; break; } } break; }
        case 4: { double pr = r.below(5) == 0 ? 0. : r.below(5) == 0 ? 1. : r.unit(); note("bern" + I); for (size_t q = 0; q < cnt; q++) { double u = (p.o() + .5) / 4294967296.0; unsigned g = p.g->bernoulli(pr); if (std::fabs(u - pr) > 1e-15 && g != (unsigned)(u <= pr)) { violation("mt_bernoulli", "bernoulli(" + vstr(pr) + ") gives " + std::to_string(g) + " for the uniform " + vstr(u)); k = len; break; } } break; }
        case 5: { note("copy" + std::to_string(i)); susa::mt* g = new susa::mt(*p.g); std::mt19937 o = p.o; if (ps.size() < 5) add(g, o); else { size_t j = r.below(ps.size()); ps[j].g.reset(g); ps[j].o = o; } break; }
        case 6: { size_t j = r.below(ps.size()); note("assign" + std::to_string(i) + std::to_string(j)); *ps[j].g = *ps[i].g; ps[j].o = ps[i].o; break; }
      } }
    stat_add("n_mt_draws", (double)draws); seen(sig ^ mix(c));
  }
  // long runs
  for (int c = 0; c < (thorough() ? 40 : 8); c++) { if (!turn()) continue; Rng r = case_rng("long", c); uint32_t s = seed(r); begin("long", std::to_string(s)); susa::rng a(s); susa::mt b(s); std::mt19937 o(s); for (int k = 0; k < 300000; k++) { uint32_t u = o(), x = a.rand_mask(0xffffffffu), y = b.rand_mask(0xffffffffu); if (u != x) { violation("rng_long", "draw " + std::to_string(k)); break; } if (u != y) { violation("mt_long", "draw " + std::to_string(k)); break; } } seen(s + c * 7919ull); }
  return finish();
}
