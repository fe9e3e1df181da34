// N02: scalar mathematical functions against exact integer or long double references.
#include "mat.h"
using namespace mon;
typedef long double L; typedef __int128 I;
template <class T> static void lg(T v, const char* t) { begin(std::string("log2:") + t, std::to_string((unsigned long long)v)); unsigned w = 0; while (((uint64_t)v >> w) > 1) w++; T g = susa::log2(v); MON_CHECK((uint64_t)g == w, std::string("log2:") + t, (uint64_t)g << " instead of " << w); seen((uint64_t)v); }
template <class T> static void logs(uint64_t n, const char* t) {
  const int B = sizeof(T) * 8; if (turn()) { for (int b = 0; b < B; b++) for (int d = -2; d <= 2; d++) { T v = (T)(((uint64_t)1 << b) + d); if (v) lg<T>(v, t); } lg<T>(std::numeric_limits<T>::max(), t); for (unsigned v = 1; v < 256; v++) lg<T>((T)v, t); }
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(t, c); T v = (T)(r.u64() >> r.below(64)); if (v) lg<T>(v, t); } }
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(20000);
  logs<uint8_t>(n / 20, "uint8"); logs<uint16_t>(n / 20, "uint16"); logs<unsigned>(n / 10, "unsigned"); logs<size_t>(n / 5, "size_t");
  // powers: every base/exponent whose result is representable
  if (turn()) { auto one = [&](I b, unsigned e) { I w = 1; for (unsigned i = 0; i < e; i++) { w *= b; if (w > (I)UINT32_MAX || w < (I)INT32_MIN) return false; }
      if (b >= 0 && w <= (I)UINT32_MAX) { begin("pow:unsigned", std::to_string((long long)b) + "^" + std::to_string(e)); unsigned g = susa::pow((unsigned)b, e); MON_CHECK((I)g == w, "pow:unsigned", g << " instead of " << (long long)w); seen((uint64_t)b * 64 + e); }
      if (b >= INT32_MIN && b <= INT32_MAX && w <= (I)INT32_MAX) { begin("pow:int", std::to_string((long long)b) + "^" + std::to_string(e)); int g = susa::pow((int)b, e); MON_CHECK((I)g == w, "pow:int", g << " instead of " << (long long)w); seen((uint64_t)b * 64 + e); } return true; };
    for (long b = -70000; b <= 70000; b += (std::labs(b) < 300 ? 1 : 997)) for (unsigned e = 0; e < 40; e++) if (!one(b, e)) break;
    for (long b : {-46341L, -46340L, 46340L, 46341L, 65535L, -1290L, 1290L, 1625L, -1291L, -215L, -216L, 255L, 256L, 2147483647L, -2147483648L, 4294967295L}) for (unsigned e = 0; e < 35; e++) if (!one(b, e)) break; for (unsigned e : {100u, 1001u, 100000u}) { one(0, e); one(1, e); one(-1, e); } }
  // modulus: sign of the modulus
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("mod", c); auto v = [&]() -> long { switch (r.below(8)) { case 0: return LONG_MAX - (long)r.below(3); case 1: return LONG_MIN + (long)r.below(3); case 2: case 3: return r.range(-20, 20); case 4: return (long)((uint64_t)1 << r.below(63)) * (r.below(2) ? 1 : -1) + r.range(-1, 1); default: return (long)(r.u64() >> r.below(64)); } };
    long a = v(), m = v(); if (m == 0) m = 7; begin("mod", std::to_string(a) + " mod " + std::to_string(m)); I w = (I)a % (I)m; if (w != 0 && ((w < 0) != (m < 0))) w += m; long g = susa::mod(a, m); MON_CHECK((I)g == w, "mod", g << " instead of " << (long)w); seen(hbytes(&a, 8, hbytes(&m, 8))); }
  // Gaussian distribution (stated accuracy 7.5e-8 of the approximation; its constants are given with 8 digits)
  L mxe = 0; for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("cdf", c); double x = c < 2000 ? -10 + .01 * c : c == 2000 ? 0. : c == 2001 ? -0. : c < 2020 ? (c % 2 ? 1 : -1) * std::pow(10., (double)(r.chance(.3) ? r.range(-308, 308) : r.range(-12, 3))) : r.chance(.1) ? r.uni(-60, 60) : r.chance(.01) ? (r.below(2) ? 1 : -1) * std::numeric_limits<double>::infinity() : r.gauss() * 2; begin("gauss", vstr(x)); L w = .5L * std::erfc(-(L)x / std::sqrt(2.L)); double g = susa::normcdf(x), q = susa::qfunc(x); mxe = std::max(mxe, std::max(std::fabs(g - w), std::fabs(q - (1 - w)))); MON_CHECK(std::fabs(g - w) <= 1.5e-7L, "normcdf", g << " instead of " << (double)w); MON_CHECK(std::fabs(q - (1 - w)) <= 1.5e-7L, "qfunc", q << " instead of " << (double)(1 - w)); double gn = susa::normcdf(-x); MON_CHECK(std::fabs(g + gn - 1) <= 2e-7, "normcdf_symmetry", g << " + " << gn); seen(hval(x, 3)); }
  stat_max("gauss_abs_err", (double)mxe);
  // rounding
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("round", c); int d = r.below(4) ? (int)r.range(-2, 8) : (int)r.range(9, 16); double x; switch (r.below(5)) { case 0: x = (double)r.range(-2000, 2000) / 8; break; case 1: x = (double)r.range(-1000, 1000) + .5; break; case 2: x = r.gauss() * std::pow(10., (double)r.range(-8, 6)); break; case 3: x = (double)(int64_t)(r.u64() >> 12) * (r.below(2) ? 1 : -1); d = -1; break; default: x = r.uni(-10, 10); }
    if (r.below(8) == 0) d = -1; begin("round", vstr(x) + " to " + std::to_string(d)); double g = d == -1 && r.below(2) ? susa::round(x) : susa::round(x, d);
    if (d <= 0) { L f = std::floor(std::fabs((L)x) + .5L); L w = x < 0 ? -f : f; MON_CHECK((L)g == w, "round_integer", g << " instead of " << (double)w << " for " << x); }
    else { L p = std::pow(10.L, d), xs = (L)x * p; if (std::fabs(xs) < 1e14L) { L f = std::floor(std::fabs(xs) + .5L), w = (x < 0 ? -f : f) / p; bool tie = std::fabs(std::fabs(xs) - std::floor(std::fabs(xs)) - .5L) < 1e-9L * (std::fabs(xs) + 1); double dp = std::pow(10., d), prod = x * dp; bool exact_tie = tie && (L)prod == xs && xs * 2 == std::floor(xs * 2);
        if (!tie || exact_tie) MON_CHECK(std::fabs((L)g - w) <= 4e-16L * std::fabs(w), "round_decimals", g << " instead of " << (double)w << " for " << x << " to " << d << " decimals"); else MON_CHECK(std::fabs((L)g - (L)x) <= .5L / p * (1 + 1e-6L) + 4e-16L * std::fabs(x), "round_decimals_tie", g << " for " << x); } }
    size_t p, q; rnd_shape(r, p, q, 4); if (c % 8 == 0 && r.chance(.002)) { p = 65000 + r.below(80000); q = 1 + r.below(2); } Mod<double> m(p, q), w(p, q); for (size_t i = 0; i < p * q; i++) { m.v[i] = i ? r.gauss() * 100 : x; w.v[i] = susa::round(m.v[i], d); } if (c % 8 == 0) { auto sx = to_susa(m); std::string wh; MON_CHECK(matches(susa::round(sx, d), w, &wh), "round_matrix", wh); MON_CHECK(matches(sx, m, &wh), "round_argument", wh); } seen(hval(x, d + 100)); }
  return finish();
}
