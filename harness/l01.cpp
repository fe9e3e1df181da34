// L01: products, transposes, assembly, flips and identity against their definitions.
#include "mat.h"
using namespace mon;
template <class T> static Mod<T> o_mm(const Mod<T>& a, const Mod<T>& b, Mod<double>* mag = nullptr) {
  Mod<T> m(a.r, b.c); if (mag) *mag = Mod<double>(a.r, b.c);
  for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) {
    if constexpr (std::is_integral_v<T>) { uint64_t s = 0; for (size_t k = 0; k < a.c; k++) s += (uint64_t)(int64_t)a.at(i, k) * (uint64_t)(int64_t)b.at(k, j); m.at(i, j) = (T)s; }
    else if constexpr (is_cplx<T>::value) { std::complex<long double> s = 0; long double g = 0; for (size_t k = 0; k < a.c; k++) { std::complex<long double> x(a.at(i, k).real(), a.at(i, k).imag()), y(b.at(k, j).real(), b.at(k, j).imag()); s += x * y; g += (std::abs(x.real()) + std::abs(x.imag())) * (std::abs(y.real()) + std::abs(y.imag())); }
      m.at(i, j) = T((typename T::value_type)s.real(), (typename T::value_type)s.imag()); if (mag) mag->at(i, j) = (double)g; }
    else { long double s = 0, g = 0; for (size_t k = 0; k < a.c; k++) { s += (long double)a.at(i, k) * b.at(k, j); g += std::fabs((long double)a.at(i, k) * b.at(k, j)); } m.at(i, j) = (T)s; if (mag) mag->at(i, j) = (double)g; } }
  return m; }
template <class T> static Mod<T> o_tr(const Mod<T>& a) { Mod<T> m(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) m.at(j, i) = a.at(i, j); return m; }
template <class T> static double eps() { if constexpr (is_cplx<T>::value) return std::numeric_limits<typename T::value_type>::epsilon(); else if constexpr (std::is_floating_point_v<T>) return std::numeric_limits<T>::epsilon(); else return 0; }
template <class T, class A> static std::string cmp(const susa::matrix<T, A>& x, const Mod<T>& m) { std::string w; matches(x, m, &w); return w; }
#define EXACT(key, x, m) do { std::string w_ = cmp(x, m); if (!w_.empty()) violation(std::string(key) + ":" + tn<T>(), w_ + " in " + mstr(from_susa(x)) + " expected " + mstr(m)); } while (0)

template <class T, class A> static void one(Rng& r, const char* kind, bool reals) {
  size_t p = 1 + r.below(r.chance(.1) ? 40 : 8), q = 1 + r.below(r.chance(.1) ? 40 : 8), s = 1 + r.below(r.chance(.1) ? 40 : 8); if (r.chance(.02)) { p = 1 + r.below(140); q = 1 + r.below(140); s = 1 + r.below(140); } if (r.chance(.005)) q = 300 + r.below(900); if (r.chance(.004)) { p = 250 + r.below(80); if (r.below(2)) std::swap(p, s); if (q > 30) q = 1 + r.below(9); } if (r.chance(.15)) p = 1; if (r.chance(.15)) q = 1; if (r.chance(.15)) s = 1; if (r.chance(.2)) q = p;
  // elements as large as an exact product of this inner length allows (narrow and unsigned types wrap, so that they take any value)
  int64_t big = 0; if (!reals && r.chance(.2)) { using S = decltype(std::abs(std::declval<std::conditional_t<is_cplx<T>::value, T, double>>())); double room = is_cplx<T>::value ? (sizeof(S) == 4 ? 8388608. : 4503599627370496.) : std::is_same_v<T, float> ? 16777216. : std::is_same_v<T, double> ? 9007199254740992. : sizeof(T) == 8 ? 9.2e18 : 2147483647.; big = sizeof(T) == 1 ? 127 : std::is_same_v<T, unsigned> ? 4294967295ll : std::max<int64_t>(9, (int64_t)std::sqrt(room / q) - 1); if (is_cplx<T>::value || std::is_floating_point_v<T>) { while ((double)big * big * q > room && big > 1) big--; } stat_add("n_large_elements", 1); }
  auto gen = [&](size_t a, size_t b) { if (big) { Mod<T> m(a, b); for (auto&& x : m.v) { if constexpr (is_cplx<T>::value) { using U = typename T::value_type; x = T((U)r.range(-big, big), (U)r.range(-big, big)); } else if constexpr (std::is_unsigned_v<T>) x = (T)r.range(0, sizeof(T) == 1 ? 255 : big); else x = (T)(r.below(3) ? r.range(-big, big) : r.below(2) ? big - (int64_t)r.below(3) : -big); } return m; } if (!reals) return rnd_mod<T>(r, a, b, 9); Mod<T> m(a, b); for (auto&& x : m.v) { if constexpr (is_cplx<T>::value) x = T((typename T::value_type)(r.gauss() * std::pow(10., (double)r.range(-3, 3))), (typename T::value_type)r.gauss()); else x = (T)(r.gauss() * std::pow(10., (double)r.range(-3, 3))); } return m; };
  Mod<T> a = gen(p, q), b = gen(q, s); begin(kind, mstr(a) + " , " + mstr(b));
  susa::matrix<T, A> x = to_susa<T, A>(a), y = to_susa<T, A>(b);
  { // product
    Mod<double> mag; Mod<T> w = o_mm(a, b, &mag); auto z = susa::matmul(x, y);
    if (!reals) EXACT("matmul", z, w);
    else if constexpr (!std::is_integral_v<T>) { if (z.no_rows() != p || z.no_cols() != s) violation(std::string("matmul_shape:") + tn<T>(), "wrong shape"); else for (size_t i = 0; i < p; i++) for (size_t j = 0; j < s; j++) { double e = std::abs(z(i, j) - w.at(i, j)), t = 4 * eps<T>() * (q + 2) * mag.at(i, j) + 1e-300; if (eps<T>() > 1e-10) t += 1e-43; stat_max("matmul_err_over_tol", e / t); MON_CHECK(e <= t, std::string("matmul:") + tn<T>(), "(" << i << "," << j << ") " << vstr(z(i, j)) << " expected " << vstr(w.at(i, j))); } }
    if (p == q) { // aliasing: the same matrix twice, and assigned to itself
      Mod<T> ww = o_mm(a, a); if (!reals) { EXACT("matmul_same", susa::matmul(x, x), ww); susa::matrix<T, A> k = x; k = susa::matmul(k, k); EXACT("matmul_self_assign", k, ww); } }
    if (!reals) { // laws
      auto l = susa::transpose(z), rr = susa::matmul(susa::transpose(y), susa::transpose(x)); if (!(l == rr)) violation(std::string("law_transpose_product:") + tn<T>(), mstr(from_susa(l)) + " / " + mstr(from_susa(rr)));
    }
    // operator matmul with identity
    auto e1 = susa::eye<T, A>(p); auto e2 = susa::eye<T, A>(q);
    Mod<T> id(p, p, T(0)); for (size_t i = 0; i < p; i++) id.at(i, i) = T(1); EXACT("eye", e1, id);
    EXACT("identity_left", susa::matmul(e1, x), a); EXACT("identity_right", susa::matmul(x, e2), a);
  }
  { Mod<T> w = o_tr(a); EXACT("transpose", susa::transpose(x), w); EXACT("transpose_twice", susa::transpose(susa::transpose(x)), a); susa::matrix<T, A> k = x; k = susa::transpose(k); EXACT("transpose_self", k, w); }
  if constexpr (is_cplx<T>::value) { Mod<T> w = o_tr(a); for (auto& v : w.v) v = T(v.real(), -v.imag()); if constexpr (std::is_same_v<A, std::allocator<T>>) { EXACT("hermitian", susa::hermitian(x), w); EXACT("hermitian_twice", susa::hermitian(susa::hermitian(x)), a); } }
  { // concatenation
    auto other = [&]() -> size_t { return r.chance(.06) ? 10 + r.below(300) : r.chance(.003) && p * q < 9 ? 65500 + r.below(90) : 1 + r.below(9); };   // also one much longer than the other
    Mod<T> c1 = gen(p, q), c2 = gen(other(), q), c3 = gen(p, other());
    for (int k = 0; k < 3; k++) { Mod<T>& o = k == 0 ? c1 : k == 1 ? c2 : c3; auto y0 = to_susa<T, A>(o); auto z = susa::concat(x, y0); Mod<T> w;
      if (o.c == q) { w = Mod<T>(p + o.r, q); for (size_t j = 0; j < q; j++) { for (size_t i = 0; i < p; i++) w.at(i, j) = a.at(i, j); for (size_t i = 0; i < o.r; i++) w.at(p + i, j) = o.at(i, j); } }
      else { w = Mod<T>(p, q + o.c); for (size_t i = 0; i < p; i++) { for (size_t j = 0; j < q; j++) w.at(i, j) = a.at(i, j); for (size_t j = 0; j < o.c; j++) w.at(i, q + j) = o.at(i, j); } }
      EXACT(k == 2 ? "concat_columns" : "concat_rows", z, w);
      auto z2 = susa::concat(y0, x); Mod<T> w2(w.r, w.c); if (o.c == q) { for (size_t j = 0; j < q; j++) { for (size_t i = 0; i < o.r; i++) w2.at(i, j) = o.at(i, j); for (size_t i = 0; i < p; i++) w2.at(o.r + i, j) = a.at(i, j); } } else for (size_t i = 0; i < p; i++) { for (size_t j = 0; j < o.c; j++) w2.at(i, j) = o.at(i, j); for (size_t j = 0; j < q; j++) w2.at(i, o.c + j) = a.at(i, j); }
      EXACT(k == 2 ? "concat_columns" : "concat_rows", z2, w2); }
    { susa::matrix<T, A> k = x; k = susa::concat(k, k); Mod<T> w(2 * p, q); for (size_t j = 0; j < q; j++) for (size_t i = 0; i < p; i++) w.at(i, j) = w.at(p + i, j) = a.at(i, j); EXACT("concat_self", k, w); }
    Mod<T> bad = gen(p + 1, q + 1 + r.below(3)); auto z = susa::concat(x, to_susa<T, A>(bad)); if (z.size() != 0) violation(std::string("concat_mismatch:") + tn<T>(), "a concatenation of shapes that do not fit is not empty: " + mstr(from_susa(z)));
  }
  { // flips
    Mod<T> lr(p, q), ud(p, q); bool vec = p == 1 || q == 1;
    for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) { lr.at(i, j) = vec ? a.v[p * q - 1 - (i + j * p)] : a.at(i, q - 1 - j); ud.at(i, j) = vec ? a.v[p * q - 1 - (i + j * p)] : a.at(p - 1 - i, j); }
    EXACT("fliplr", susa::fliplr(x), lr); EXACT("flipud", susa::flipud(x), ud); EXACT("fliplr_twice", susa::fliplr(susa::fliplr(x)), a); EXACT("flipud_twice", susa::flipud(susa::flipud(x)), a); susa::matrix<T, A> k = x; k = susa::fliplr(k); EXACT("fliplr_self", k, lr); }
  EXACT("argument_left", x, a); EXACT("argument_right", y, b);
  seen(hmod(a) ^ hmod(b) * 3, p * q > 1);
}
template <class T, class A = std::allocator<T>> static void run(uint64_t n, bool reals) {
  std::string kind = std::string(reals ? "real:" : "exact:") + tn<T>() + (std::is_same_v<A, std::allocator<T>> ? "" : "/log");
  for (uint64_t i = 0; i < n; i++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), i); one<T, A>(r, kind.c_str(), reals); }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(700);
#if PART(0)
  run<int>(n, false); run<int8_t>(n / 2, false);
#endif
#if PART(1)
  run<uint8_t>(n / 2, false); run<unsigned>(n / 2, false); run<long>(n, false);
#endif
#if PART(2)
  run<float>(n, false); run<float>(n, true);
#endif
#if PART(3)
  run<double>(n, false); run<double>(n, true); run<double, susa::allocator_log<double>>(n / 2, false);
#endif
#if PART(4)
  run<std::complex<double>>(n, false); run<std::complex<double>>(n, true);
#endif
#if PART(5)
  run<std::complex<float>>(n, false); run<std::complex<float>>(n, true);
#endif
  return finish();
}
