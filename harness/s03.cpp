// S03: up- and down-sampling move samples to the right places.
#include "mat.h"
using namespace mon;
#define EXACT(key, x, m) do { std::string w_; if (!matches(x, m, &w_)) violation(std::string(key) + ":" + tn<T>(), w_ + " in " + mstr(from_susa(x)) + " expected " + mstr(m)); } while (0)
template <class T, class A = std::allocator<T>> static void run(uint64_t n) {
  std::string kind = std::string("sampling:") + tn<T>() + (std::is_same_v<A, std::allocator<T>> ? "" : "/log");
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t p, q; rnd_shape(r, p, q, 10); if (r.chance(.003)) { p = 1 + r.below(3000); q = 1 + r.below(40); } size_t d = 1 + r.below(r.chance(.1) ? 50 : 6); if (r.chance(.004)) { rnd_shape(r, p, q, 10); d = 250 + r.below(400); } if (r.chance(.0015)) { p = r.below(2) ? 65530 + r.below(3000) : 1 + r.below(9); q = 1; if (p < 10) { q = 250 + r.below(300); if (r.below(3) == 0) d = 66000 / q; } else d = 1 + r.below(3); } Mod<T> m(p, q); const bool wide = r.below(2); for (auto&& x : m.v) { do x = wide ? any_val<T>(r) : small_val<T>(r, 100); while (!is_cplx<T>::value && x == T(0)); } begin(kind, mstr(m) + " factor " + std::to_string(d)); auto x = to_susa<T, A>(m);
    Mod<T> up(p * d, q, T(0)); for (size_t j = 0; j < q; j++) for (size_t i = 0; i < p; i++) up.at(i * d, j) = m.at(i, j); auto u = susa::upsample(x, d); EXACT("upsample", u, up); if (u.no_rows() == p * d && u.no_cols() == q) EXACT("round_trip", susa::downsample(u, d), m);
    size_t e = 1 + r.below(r.below(3) || p < 300 ? p : 300); Mod<T> dn(p / e, q); for (size_t j = 0; j < q; j++) for (size_t i = 0; i < p / e; i++) dn.at(i, j) = m.at(i * e, j); EXACT("downsample", susa::downsample(x, e), dn);
    auto k = x; k = susa::upsample(k, d); EXACT("upsample_self", k, up); EXACT("argument", x, m); seen(hmod(m) ^ d * 77 ^ e * 1313, p * q > 1 && (d > 1 || e > 1));
  }
}
// columns of more than 2^24 samples
static void giant(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("giant", c); size_t p = (size_t)1 << 24, q = 1 + r.below(2); p += 1 + r.below(3000); size_t d = 1 + r.below(2), e = 1 + r.below(r.below(2) ? 3 : 3000); begin("giant", std::to_string(p) + "x" + std::to_string(q) + " factor " + std::to_string(d) + " then " + std::to_string(e)); uint64_t k = r.u64() | 1; auto val = [k](size_t i) { return (uint8_t)(1 + ((i * k) >> 57)); };
    susa::matrix<uint8_t> x(p, q); for (size_t i = 0; i < p * q; i++) x(i) = val(i);
    { auto y = susa::downsample(x, e); if (y.no_rows() != p / e || y.no_cols() != q) violation("giant_down_shape", std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols())); else for (size_t j = 0; j < q; j++) for (size_t i = 0; i < p / e; i++) if (y(i, j) != val(j * p + i * e)) { violation("giant_down", "row " + std::to_string(i)); j = q; break; } }
    { auto y = susa::upsample(x, d); if (y.no_rows() != p * d || y.no_cols() != q) violation("giant_up_shape", std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols())); else for (size_t j = 0; j < q; j++) for (size_t i = 0; i < p * d; i++) if (y(i, j) != (i % d ? 0 : val(j * p + i / d))) { violation("giant_up", "row " + std::to_string(i)); j = q; break; } } seen(p * 31 + e); }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(3000);
  run<int>(n); run<double>(n); run<uint8_t>(n / 2); run<std::complex<double>>(n / 2); run<float>(n / 2); run<double, susa::allocator_log<double>>(n / 2); run<int8_t>(n / 2);
  giant(N(2) < 2 ? 2 : 4);
  return finish();
}
