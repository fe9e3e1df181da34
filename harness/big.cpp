// One operation each on objects of more than 2^31 or 2^32 elements: indices, counters and sizes must be wide enough.
// -DBIG_<property>: M01 M03 L01 S02 S03 N01 N01V G01 C01 M05
#include "mat.h"
#include <fstream>
#include <unistd.h>
using namespace mon;
typedef susa::matrix<uint8_t> M8;
static const size_t G4 = (size_t)1 << 32, G2 = (size_t)1 << 31;
static uint64_t K; static inline uint8_t val(size_t i) { return (uint8_t)(1 + ((i * K) >> 57)); }   // 1..128
static void fill(M8& m, size_t n) { uint8_t* p = &m(0); for (size_t i = 0; i < n; i++) p[i] = val(i); }
// first position where the n elements differ from f(i), or n
template <class F> static size_t differs(M8& m, size_t n, F f) { const uint8_t* p = &m(0); for (size_t i = 0; i < n; i++) if (p[i] != (uint8_t)f(i)) return i; return n; }
template <class F> static void same(const char* op, M8& m, size_t r, size_t c, F f, const std::string& what) {
  if (m.no_rows() != r || m.no_cols() != c || m.size() != r * c) { violation(std::string("big_") + op + "_shape", std::to_string(m.no_rows()) + "x" + std::to_string(m.no_cols()) + " instead of " + std::to_string(r) + "x" + std::to_string(c) + " for " + what); return; }
  size_t d = differs(m, r * c, f); stat_add("n_big_elements", (double)(r * c)); if (d < r * c) violation(std::string("big_") + op, "element " + std::to_string(d) + " of " + std::to_string(r * c) + " is " + std::to_string((int)(&m(0))[d]) + " for " + what); }
struct Case { size_t n, p, q; std::string what; };
static Case pick(Rng& r) { Case c; K = r.u64() | 1; c.n = G4 + 3 + r.below(5000); if (r.below(2)) { c.p = c.n; c.q = 1; } else { c.p = 1; c.q = c.n; } c.what = std::to_string(c.p) + "x" + std::to_string(c.q); return c; }
static void one(Rng& r, uint64_t no) {
  (void)no;
#if defined(BIG_M01)
  Case c = pick(r); begin("big", c.what); M8 a(c.p, c.q); fill(a, c.n); M8 b(a); same("copy", b, c.p, c.q, val, c.what); b(c.n - 1)++; b(5)++; if (a(c.n - 1) != val(c.n - 1) || a(5) != val(5)) violation("big_shared", c.what); b = a; same("assign", b, c.p, c.q, val, c.what); b.set_all(7); same("set_all", b, c.p, c.q, [](size_t) { return 7; }, c.what); M8 d(c.p, c.q, 9); same("initial", d, c.p, c.q, [](size_t) { return 9; }, c.what); seen(c.n * 3 + c.p);
#elif defined(BIG_M03)
  Case c = pick(r); begin("big", c.what); M8 a(c.p, c.q); fill(a, c.n); uint8_t s = (uint8_t)(1 + r.below(100));
  { M8 b = a + s; same("add_scalar", b, c.p, c.q, [s](size_t i) { return val(i) + s; }, c.what); M8 x = a + b; same("add", x, c.p, c.q, [s](size_t i) { return 2 * val(i) + s; }, c.what); }
  { M8 b(a); if (!(a == b) || a != b) violation("big_equal", c.what); b(c.n - 1 - r.below(3))++; if (a == b || !(a != b)) violation("big_unequal", c.what + " with one of the last elements changed"); b += a; if (b(0) != (uint8_t)(2 * val(0)) || b(c.n - 5) != (uint8_t)(2 * val(c.n - 5)) || b(c.n / 2) != (uint8_t)(2 * val(c.n / 2))) violation("big_add_assign", c.what); }
  { M8 b = a * s; same("mul_scalar", b, c.p, c.q, [s](size_t i) { return val(i) * s; }, c.what); } { M8 b = (uint8_t)200 - a; same("sub_scalar", b, c.p, c.q, [](size_t i) { return 200 - val(i); }, c.what); } seen(c.n * 3 + c.p);
#elif defined(BIG_L01)
  size_t p, q; K = r.u64() | 1; if (r.below(2)) { p = 2 + r.below(3); q = G4 / p + 3 + r.below(1000); } else { q = 2 + r.below(3); p = G4 / q + 3 + r.below(1000); } std::string what = std::to_string(p) + "x" + std::to_string(q); begin("big", what); M8 a(p, q); fill(a, p * q);
  { M8 t = susa::transpose(a); same("transpose", t, q, p, [p, q](size_t i) { return val((i / q) + (i % q) * p); }, what); } { M8 f = susa::fliplr(a); same("fliplr", f, p, q, [p, q](size_t i) { return val(i % p + (q - 1 - i / p) * p); }, what); } { M8 f = susa::flipud(a); same("flipud", f, p, q, [p](size_t i) { return val(p - 1 - i % p + (i / p) * p); }, what); }
  { M8 w(q, 1), v(1, p); for (size_t i = 0; i < q; i++) (&w(0))[i] = (uint8_t)(i % 3 == 0); for (size_t i = 0; i < p; i++) (&v(0))[i] = (uint8_t)(i % 3 == 0); if (q > p) { std::vector<uint8_t> s(p, 0); for (size_t j = 0; j < q; j += 3) for (size_t i = 0; i < p; i++) s[i] = (uint8_t)(s[i] + val(i + j * p)); M8 z = susa::matmul(a, w); same("matmul", z, p, 1, [&](size_t i) { return s[i]; }, what); } else { std::vector<uint8_t> s(q, 0); for (size_t j = 0; j < q; j++) for (size_t i = 0; i < p; i += 3) s[j] = (uint8_t)(s[j] + val(i + j * p)); M8 z = susa::matmul(v, a); same("matmul", z, 1, q, [&](size_t j) { return s[j]; }, what); } } seen(p * 31 + q);
#elif defined(BIG_S02)
  if (no % 3 == 0) { Case c = pick(r); begin("big", c.what); M8 a(c.p, c.q), h(r.below(2) ? 2 : 1, 1); if (h.size() == 1) h = M8(1, 2); h(0) = 1; h(1) = 2; fill(a, c.n); size_t n = c.n; M8 y = susa::conv(a, h); same("conv", y, c.p == 1 ? 1 : n + 1, c.p == 1 ? n + 1 : 1, [n](size_t i) { return (i < n ? val(i) : 0) + (i ? 2 * val(i - 1) : 0); }, c.what); seen(c.n * 3 + c.p); }
  if (no % 3 == 1) { size_t p = 32770 + r.below(100), q = 2 + r.below(40000); if (r.below(2)) q = 65540 + r.below(100); begin("big_toeplitz", std::to_string(p) + "x" + std::to_string(q)); M8 cl(p, 1), rw(1, q); uint64_t k1 = r.u64() | 1, k2 = r.u64() | 1; for (size_t i = 0; i < p; i++) cl(i) = (uint8_t)(i ? (i * k1) >> 57 : 77); for (size_t i = 0; i < q; i++) rw(i) = (uint8_t)(i ? (i * k2) >> 56 : 77); uint8_t *c0 = &cl(0), *r0 = &rw(0);
    { M8 t = susa::toeplitz(cl, rw); same("toeplitz", t, p, q, [&](size_t i) { size_t a = i % p, b = i / p; return b >= a ? r0[b - a] : c0[a - b]; }, std::to_string(p) + "x" + std::to_string(q)); } M8 s = susa::toeplitz(cl); same("toeplitz_symmetric", s, p, p, [&](size_t i) { size_t a = i % p, b = i / p; return c0[a > b ? a - b : b - a]; }, std::to_string(p)); seen(p * 77 + q); }
  if (no % 3 == 2) { size_t p = 2 + r.below(3), q = 3, p2 = G4 / (p * q) + 1 + r.below(100), q2 = 1; if (r.below(2)) { std::swap(p, q); std::swap(p2, q2); } std::string what = std::to_string(p) + "x" + std::to_string(q) + " (x) " + std::to_string(p2) + "x" + std::to_string(q2); begin("big_kron", what); M8 a(p, q), b(p2, q2); for (size_t i = 0; i < p * q; i++) a(i) = (uint8_t)(1 + r.below(100)); fill(b, p2 * q2); M8 k = susa::kron(a, b); uint8_t* a0 = &a(0); size_t P = p * p2; same("kron", k, P, q * q2, [&](size_t i) { size_t u = i % P, v = i / P; return a0[u / p2 + v / q2 * p] * val(u % p2 + v % q2 * p2); }, what); seen(p2 * 7 + q2); }
#elif defined(BIG_S03)
  K = r.u64() | 1; size_t p = 2 + r.below(3), d = G4 / (p - 1) + 1 + r.below(1000); if (r.below(2)) std::swap(p, d); std::string what = std::to_string(p) + "x1 by " + std::to_string(d); begin("big", what); M8 a(p, 1); fill(a, p); M8 u = susa::upsample(a, d); same("upsample", u, p * d, 1, [d](size_t i) { return i % d ? 0 : val(i / d); }, what); M8 b = susa::downsample(u, d); same("downsample", b, p, 1, val, what); seen(p * 31 + d);
#elif defined(BIG_N01)
  { Case c = pick(r); begin("big", c.what); M8 a(c.p, c.q); fill(a, c.n); unsigned __int128 s = 0; for (size_t i = 0; i < c.n; i++) s += val(i); M8 g = susa::sum(a); if (g.size() != 1 || g(0) != (uint8_t)s) violation("big_sum", c.what); { M8 b = susa::abs(susa::matrix<uint8_t>(a)); same("abs", b, c.p, c.q, val, c.what); } { susa::matrix<int8_t> z = susa::sign(a); bool ok = z.size() == c.n; const int8_t* zp = &z(0); for (size_t i = 0; ok && i < c.n; i++) if (zp[i] != 1) ok = false; if (!ok) violation("big_sign", c.what); } seen(c.n * 3 + c.p); }
#elif defined(BIG_N01V)
  { size_t n = G2 + 5 + r.below(1000); std::vector<uint8_t> v(n); long double s = 0, q = 0; uint64_t si = 0, qi = 0; for (size_t i = 0; i < n; i++) { v[i] = val(i); si += v[i]; qi += (uint64_t)v[i] * v[i]; } v[n - 1] = 250; si += 250 - val(n - 1); qi += 62500 - (uint64_t)val(n - 1) * val(n - 1); s = si; q = qi; begin("big_vector", std::to_string(n) + " elements"); long double m = s / n, va = q / n - m * m; uint8_t gm = susa::mean(v); if (gm != (uint8_t)m) violation("big_mean_vector", std::to_string((int)gm) + " instead of " + std::to_string((int)m) + " for " + std::to_string(n) + " elements"); double gv = susa::var(v); if (!(std::fabs(gv - va) <= 1e-5L * va)) violation("big_var_vector", vstr(gv) + " instead of " + vstr((double)va) + " for " + std::to_string(n) + " elements"); auto d = susa::diff(v); if (d.size() + 1 != n) violation("big_diff_size", std::to_string(d.size())); else for (size_t i = 0; i + 1 < n; i++) if (d[i] != (uint8_t)(v[i + 1] - v[i])) { violation("big_diff", "element " + std::to_string(i)); break; } stat_add("n_big_elements", (double)n); seen(n); }
#elif defined(BIG_G01)
  Case c = pick(r); begin("big", c.what); M8 a(c.p, c.q); fill(a, c.n); std::vector<size_t> at = {5, c.n - 1, G4 + 1, c.n / 2, G2}; uint8_t t = 255; for (size_t i : at) a(i) = t; susa::bitset b = susa::find(a, t); size_t got = 0, bad = c.n; uint8_t* p = &a(0); for (size_t i = 0; i < c.n; i++) { bool e = b.exists(i); if (e) got++; if (e != (p[i] == t)) { bad = i; break; } } stat_add("n_big_elements", (double)c.n); if (bad < c.n) violation("big_find", "position " + std::to_string(bad) + " of " + c.what + " is " + (p[bad] == t ? "missing" : "reported")); seen(c.n * 3 + c.p);
#elif defined(BIG_C01)
  uint32_t n = 150 + (uint32_t)r.below(150), m = 1 + (uint32_t)r.below(12); size_t k = G4 / n + 20 + r.below(1000); std::string what = std::to_string(k) + " bits, n=" + std::to_string(n) + " m=" + std::to_string(m); begin("big", what); susa::ccode e(n, 1, m); std::vector<uint32_t> g(n); for (uint32_t i = 0; i < n; i++) { g[i] = (uint32_t)(r.u64() & ((1u << (m + 1)) - 1)); uint64_t o = 0, t = 1; for (uint32_t x = g[i]; x; x >>= 3) { o += (x & 7) * t; t *= 10; } e.set_generator((uint32_t)o, i); }
  M8 x(k, 1); uint64_t kk = r.u64() | 1; uint8_t* px = &x(0); for (size_t i = 0; i < k; i++) px[i] = (uint8_t)((i * kk) >> 63); M8 y = e.encode(x); if (y.size() != k * n || y.no_cols() != 1) { violation("big_encode_size", std::to_string(y.size()) + " instead of " + std::to_string(k * n) + " for " + what); return; }
  uint32_t s = 0; const uint8_t* py = &y(0); for (size_t t = 0; t < k; t++) { for (uint32_t j = 0; j < n; j++) if (py[t * n + j] != (__builtin_popcount((s | (uint32_t)px[t] << m) & g[j]) & 1)) { violation("big_encode", "output " + std::to_string(t * n + j) + " for " + what); return; } s = s >> 1 | (uint32_t)px[t] << (m - 1); } stat_add("n_big_elements", (double)(k * n)); seen(k * 31 + n);
#elif defined(BIG_M05)
  size_t z = G2 + 10 + r.below(1000); int kind = (int)r.below(3), a = (int)r.below(200), b = (int)r.below(200); std::string w1 = std::to_string(a), w2 = std::to_string(b), what = std::to_string(z) + (kind == 0 ? " zeros before the first number" : kind == 1 ? " blanks between the numbers" : " zeros before the last number"); begin("big", what); std::string s; s.reserve(z + 20); if (kind == 0) { s.assign(z, '0'); s += w1 + " " + w2; } else if (kind == 1) { s = w1; s.append(z, ' '); s += w2; } else { s = w1 + ";"; s.append(z, '0'); s += w2; } M8 m(s); size_t wr = kind == 2 ? 2 : 1, wc = 3 - wr; if (m.no_rows() != wr || m.no_cols() != wc) violation("big_text_shape", std::to_string(m.no_rows()) + "x" + std::to_string(m.no_cols()) + " for " + w1 + " and " + w2 + " with " + what); else if (m(0) != a || m(1) != b) violation("big_text", std::to_string((int)m(0)) + " and " + std::to_string((int)m(1)) + " instead of " + w1 + " and " + w2 + " with " + what); seen(z * 3 + kind);
#endif
}
// these cases need up to 13 GB: without them they are left out, not judged
static bool room() { for (int k = 0; k < 30; k++) { std::ifstream f("/proc/meminfo"); std::string l; while (std::getline(f, l)) if (l.compare(0, 13, "MemAvailable:") == 0) { if (std::stoull(l.substr(13)) > 15500000ull) return true; break; } sleep(4); } return false; }
int main(int argc, char** argv) { init(argc, argv); 
#ifdef BIG_S02
  uint64_t n = thorough() ? 9 : 3;
#else
  uint64_t n = thorough() ? 6 : 1;
#endif
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; if (!room()) { stat_add("n_no_memory", 1); continue; } Rng r = case_rng("big", c); one(r, c); } return finish(); }
