// N01: reductions and statistics against long double / exact integer definitions.
#include "mat.h"
using namespace mon;
typedef long double L; typedef std::complex<L> C;
template <class T> static C cl(const T& v) { if constexpr (is_cplx<T>::value) return C(v.real(), v.imag()); else return C((L)v, 0); }
template <class T> struct U { typedef T t; }; template <class T> struct U<std::complex<T>> { typedef T t; };
template <class T> static L eps() { if constexpr (std::is_integral_v<T>) return 0; else return std::numeric_limits<typename U<T>::t>::epsilon(); }
#define EXACT(key, x, m) do { std::string w_; if (!matches(x, m, &w_)) violation(std::string(key) + ":" + t, w_ + " in " + mstr(from_susa(x)) + " expected " + mstr(m)); } while (0)
template <class M> static bool shp(const M& m, size_t r, size_t c, const std::string& key) { if (m.no_rows() == r && m.no_cols() == c) return true; violation(key, "shape " + std::to_string(m.no_rows()) + "x" + std::to_string(m.no_cols()) + " instead of " + std::to_string(r) + "x" + std::to_string(c)); return false; }
static double off = 0, scl = 1;
template <class T> static T gen(Rng& r, int mode) {
  if constexpr (is_cplx<T>::value) { typedef typename T::value_type V; return T(gen<V>(r, mode), gen<V>(r, mode)); }
  else if constexpr (std::is_integral_v<T>) { const bool wide = sizeof(T) >= 4; if (mode == 0) return small_val<T>(r, 5); if (mode == 1) { int64_t hi = wide ? 20000000 : (int64_t)std::numeric_limits<T>::max(); return (T)(std::is_unsigned_v<T> ? r.range(0, hi) : r.range(-hi, hi)); } if (mode == 2) return (T)(std::is_unsigned_v<T> ? r.range(0, 60) : r.range(-60, -1)); return small_val<T>(r, 100); }
  else if (mode == 4) return (T)(off + r.gauss()); else if (mode == 5) return (T)(r.gauss() * scl); else return mode == 0 ? (T)r.range(-5, 5) : mode == 1 ? (T)(r.gauss() * std::pow(10., (double)r.range(-6, 6))) : mode == 2 ? (T)(-std::fabs(r.gauss()) * 1e3) : (T)r.gauss(); }
template <class T, class A = std::allocator<T>> static void run(uint64_t n) {
  const bool cx = is_cplx<T>::value; std::string t = std::string(tn<T>()) + (std::is_same_v<A, std::allocator<T>> ? "" : "/log"), kind = "reduce:" + t; const L E = eps<T>(), D = E > 1e-10L ? 1e-42L : 1e-318L; (void)D;
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t p, q; rnd_shape(r, p, q, 7); if (r.chance(.004)) { p = 1 + r.below(600); q = 1 + r.below(200); if (r.below(3) == 0) { p = 1; q = 70000; } if (r.below(3) == 0) std::swap(p, q); } if (r.chance(.0006)) { p = 4000 + r.below(r.below(3) ? 6000 : 64000); q = 2 + r.below(3); if (r.below(4) == 0) std::swap(p, q); } int mode = (int)r.below(4); off = std::pow(10., (double)r.range(1, 7)) * (r.below(2) ? 1 : -1); if (!std::is_integral_v<T> && r.chance(.1)) mode = 4; if (!std::is_integral_v<T> && mode != 4 && r.chance(.1)) { mode = 5; scl = std::pow(10., (double)(E > 1e-10L ? r.range(-15, 16) : r.range(-140, 145))); } if (std::is_integral_v<T> && mode == 1 && p * q > 100) mode = 3; Mod<T> m(p, q); for (auto& v : m.v) v = gen<T>(r, mode); begin(kind, mstr(m)); auto x = to_susa<T, A>(m);
    bool vec = p == 1 || q == 1, vec2 = vec && p * q > 1; size_t cols = vec ? 1 : q, rows = vec ? p * q : p;
    auto col = [&](size_t j) { return std::vector<T>(m.v.begin() + j * rows, m.v.begin() + (j + 1) * rows); };
    auto S = susa::sum(x), M = susa::mean(x); bool nfits = true; if constexpr (std::is_integral_v<T>) for (size_t j = 0; j < cols; j++) { L q2 = 0; for (auto& e : col(j)) q2 += std::norm(cl(e)); nfits = nfits && std::sqrt(q2) < (L)std::numeric_limits<T>::max(); } auto Nn = nfits ? susa::norm(x) : decltype(x)(1, cols, T(0));  // a norm beyond the range of the type is not requested
    if (shp(S, 1, cols, "sum_shape:" + t) & shp(M, 1, cols, "mean_shape:" + t) & shp(Nn, 1, cols, "norm_shape:" + t)) for (size_t j = 0; j < cols; j++) { auto v = col(j); C s = 0; L g = 0, ss = 0; for (auto& e : v) { s += cl(e); g += std::abs(cl(e)); ss += std::norm(cl(e)); } std::string at = " of column " + std::to_string(j);
      if constexpr (std::is_integral_v<T>) { L sv = s.real(); bool fits = g <= (L)std::numeric_limits<T>::max(); if (fits) MON_CHECK((L)cl(S(j)).real() == sv, "sum:" + t, vstr(S(j)) << " instead of " << (double)sv << at); L mv = std::trunc(sv / (L)rows); MON_CHECK(cl(M(j)).real() == mv, "mean:" + t, vstr(M(j)) << " instead of " << (double)mv << at << " with sum " << (double)sv); L nv = std::sqrt(ss); L gn = cl(Nn(j)).real(); if (nfits) MON_CHECK(gn == std::floor(nv) || (ss > 9e15L && std::fabs(nv - std::round(nv)) < 1e-14L * nv && std::fabs(gn - nv) <= 1), "norm:" + t, vstr(Nn(j)) << " instead of " << (double)nv << at); }
      else { L tl = (rows + 4) * 2 * E * g + D; MON_CHECK(std::abs(cl(S(j)) - s) <= tl, "sum:" + t, vstr(S(j)) << " instead of " << (double)s.real() << "," << (double)s.imag() << at); MON_CHECK(std::abs(cl(M(j)) - s / (L)rows) <= tl / rows + D, "mean:" + t, vstr(M(j)) << " instead of " << (double)(s.real() / rows) << "," << (double)(s.imag() / rows) << at); L nv = std::sqrt(ss); MON_CHECK(std::abs(cl(Nn(j)) - C(nv, 0)) <= (rows + 8) * 2 * E * nv + 1e-15L * (E > 1e-10), "norm:" + t, vstr(Nn(j)) << " instead of " << (double)nv << at); } }
    if constexpr (!is_cplx<T>::value) { // extreme positions: the first among equals
      auto mi = susa::min(x), ma = susa::max(x); if (shp(mi, 1, cols == 1 && !vec2 ? q : cols, "min_shape:" + t) & shp(ma, 1, cols == 1 && !vec2 ? q : cols, "max_shape:" + t)) for (size_t j = 0; j < mi.size(); j++) { auto v = col(j); size_t a = std::min_element(v.begin(), v.end()) - v.begin(), b = 0; for (size_t i = 1; i < v.size(); i++) if (v[i] > v[b]) b = i; MON_CHECK(mi(j) == a, "min:" + t, "position " << mi(j) << " instead of " << a << " in column " << j); MON_CHECK(ma(j) == b, "max:" + t, "position " << ma(j) << " instead of " << b << " in column " << j); }
      if constexpr (std::is_same_v<A, std::allocator<T>>) { Mod<int8_t> sg(p, q); for (size_t i = 0; i < p * q; i++) { sg.v[i] = m.v[i] > T(0) ? 1 : m.v[i] < T(0) ? -1 : 0; MON_CHECK(susa::sign(m.v[i]) == sg.v[i], "sign_scalar:" + t, (int)susa::sign(m.v[i])); }
#ifndef NO_SIGN
        EXACT("sign", susa::sign(x), sg);
#endif
      }
      if constexpr (std::is_floating_point_v<T>) { Mod<std::complex<T>> z(p, q); for (size_t i = 0; i < p * q; i++) z.v[i] = std::complex<T>(m.v[i], 0); EXACT("to_complex", susa::to_complex(x), z); }
    }
    if constexpr (!(std::is_unsigned_v<T> && sizeof(T) >= 4)) { auto B = susa::abs(x); if (shp(B, p, q, "abs_shape:" + t)) for (size_t i = 0; i < p * q; i++) { if constexpr (std::is_integral_v<T>) { if (m.v[i] != std::numeric_limits<T>::min() || std::is_unsigned_v<T>) MON_CHECK(cl(B(i)).real() == std::fabs(cl(m.v[i]).real()), "abs:" + t, "element " << i << " " << vstr(B(i))); } else MON_CHECK(std::abs(cl(B(i)) - C(std::abs(cl(m.v[i])), 0)) <= 4 * E * std::abs(cl(m.v[i])) + D, "abs:" + t, "element " << i << " is " << vstr(B(i))); } 
      std::vector<T> av = susa::abs(m.v); if (av.size() != p * q) violation("abs_vector_size:" + t, ""); else for (size_t i = 0; i < p * q; i++) { L d = std::abs(cl(av[i]) - C(std::abs(cl(m.v[i])), 0)); MON_CHECK(d <= 4 * E * std::abs(cl(m.v[i])) + D || (std::is_integral_v<T> && m.v[i] == std::numeric_limits<T>::min()), "abs_vector:" + t, "element " << i << " is " << vstr(av[i])); } }
    if constexpr (cx && std::is_same_v<A, std::allocator<T>>) { typedef typename U<T>::t V; Mod<V> re(p, q), im(p, q); Mod<T> cj(p, q); for (size_t i = 0; i < p * q; i++) { re.v[i] = m.v[i].real(); im.v[i] = m.v[i].imag(); cj.v[i] = T(m.v[i].real(), -m.v[i].imag()); } EXACT("real", susa::real(x), re); EXACT("imag", susa::imag(x), im); EXACT("conj", susa::conj(x), cj); auto g = susa::mag(x); if (shp(g, p, q, "mag_shape:" + t)) for (size_t i = 0; i < p * q; i++) { L w = std::norm(cl(m.v[i])); MON_CHECK(std::fabs((L)g(i) - w) <= 8 * E * w + D, "mag:" + t, "element " << i << " is " << g(i) << " instead of " << (double)w); } }
    if constexpr (std::is_floating_point_v<T>) { Mod<T> ab(p, q); for (size_t i = 0; i < p * q; i++) ab.v[i] = mode == 5 ? std::fabs(m.v[i]) + std::numeric_limits<T>::min() : r.chance(.1) ? (T)(1 + (T)r.range(-40, 40) * (r.below(2) ? (T)E : (T)1e-5)) : std::fabs(m.v[i]) + (T)1e-3; auto la = to_susa<T, A>(ab); auto g = susa::log(la); if (shp(g, p, q, "log_shape:" + t)) for (size_t i = 0; i < p * q; i++) { L w = std::log((L)ab.v[i]); MON_CHECK(std::fabs((L)g(i) - w) <= 4 * E * std::fabs(w) + D, "log:" + t, "element " << i << " is " << g(i) << " instead of " << (double)w); } }
    { // standard vectors
      std::vector<T> v = m.v, v0 = v; C s = 0; L g = 0; for (auto& e : v) { s += cl(e); g += std::abs(cl(e)); } T sv = g <= (L)std::numeric_limits<typename U<T>::t>::max() ? susa::sum(v) : T(0); if (g <= (L)std::numeric_limits<typename U<T>::t>::max()) MON_CHECK(std::abs(cl(sv) - s) <= (v.size() + 4) * 2 * E * g + (E > 0 ? D : 0), "sum_vector:" + t, vstr(sv) << " instead of " << (double)s.real());
      if constexpr (!is_cplx<T>::value) { L mv = s.real() / (L)v.size(); T gm = susa::mean(v); if constexpr (std::is_integral_v<T>) MON_CHECK((L)gm == std::trunc(mv), "mean_vector:" + t, vstr(gm) << " instead of " << (double)std::trunc(mv)); else MON_CHECK(std::fabs((L)gm - mv) <= (v.size() + 4) * 2 * E * g / v.size() + D, "mean_vector:" + t, vstr(gm) << " instead of " << (double)mv);
        L va = 0, sq = 0; for (auto& e : v) { va += ((L)e - mv) * ((L)e - mv); sq += (L)e * e; } va /= v.size(); double gv = susa::var(v), gs = susa::stdv(v); L tl = (v.size() + 8) * 4 * 2.3e-16L * (va + std::sqrt(va) * std::fabs(mv) + 1e-15L * sq) + 1e-317L; MON_CHECK(std::fabs(gv - va) <= tl, "var:" + t, gv << " instead of " << (double)va); MON_CHECK(std::fabs((L)gs * gs - va) <= 2 * tl + 1e-15L * va, "stdv:" + t, gs << " instead of " << (double)std::sqrt(va)); }
      if (mode != 1 || !std::is_integral_v<T>) if (!std::is_unsigned_v<T>) { auto d = susa::diff(v); if (d.size() + 1 != v.size()) violation("diff_size:" + t, std::to_string(d.size())); else for (size_t i = 0; i + 1 < v.size(); i++) { T w = (T)(v0[i + 1] - v0[i]); MON_CHECK(same<T>(d[i], w) || (std::is_integral_v<T> && sizeof(T) < 4 && std::abs(cl(v0[i + 1]) - cl(v0[i])) > std::numeric_limits<typename U<T>::t>::max()), "diff:" + t, "element " << i << " is " << vstr(d[i]) << " instead of " << vstr(w)); } }
      MON_CHECK(v == v0, "vector_argument:" + t, "modified"); }
    EXACT("argument", x, m); seen(hmod(m), p * q > 1);
  }
}
// the functions whose results are exact or elementwise, over the whole range of the type: extremes, denormals, infinities, signed zeros
template <class T> static void ends(uint64_t n) {
  const bool cx = is_cplx<T>::value; std::string t = tn<T>(), kind = "extremes:" + t; typedef typename U<T>::t V; const L E = eps<T>(), D = E > 1e-10L ? 1e-42L : 1e-318L;
  auto one = [](Rng& r) -> V { if constexpr (std::is_integral_v<V>) { switch (r.below(4)) { case 0: return std::numeric_limits<V>::max() - (V)r.below(3); case 1: return std::numeric_limits<V>::min() + (V)r.below(3); case 2: return (V)(((uint64_t)1 << r.below(sizeof(V) * 8)) + (uint64_t)r.range(-1, 1)); default: return (V)r.u64(); } }
    else { V s = r.below(2) ? V(1) : V(-1); switch (r.below(8)) { case 0: return s * std::numeric_limits<V>::max(); case 1: return s * std::numeric_limits<V>::min(); case 2: return s * std::numeric_limits<V>::denorm_min() * (V)(1 + r.below(3)); case 3: return s * V(0); case 4: return r.below(4) ? s : s * std::numeric_limits<V>::infinity(); case 5: return s * (V)std::ldexp(1 + r.uni(0, 1), (int)r.range(-std::numeric_limits<V>::max_exponent + 3, std::numeric_limits<V>::max_exponent - 2)); case 6: return s * (V)((uint64_t)1 << r.below(63)) + (V)r.range(-1, 1); default: return (V)r.gauss(); } } };
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t p, q; rnd_shape(r, p, q, 6); Mod<T> m(p, q); V base = one(r); bool near = r.chance(.3); for (auto& v : m.v) { if constexpr (is_cplx<T>::value) v = T(one(r), one(r)); else v = near && r.chance(.6) ? base : one(r); } begin(kind, mstr(m)); auto x = to_susa<T>(m); size_t cols = p == 1 || q == 1 ? (p * q == 1 ? 1 : 1) : q, rows = p * q / cols;
    if constexpr (!cx) { auto mi = susa::min(x), ma = susa::max(x); if (mi.size() != cols || ma.size() != cols) violation("min_shape:" + t, std::to_string(mi.size())); else for (size_t j = 0; j < cols; j++) { size_t a = 0, b = 0; for (size_t i = 1; i < rows; i++) { if (m.v[j * rows + i] < m.v[j * rows + a]) a = i; if (m.v[j * rows + i] > m.v[j * rows + b]) b = i; } MON_CHECK(mi(j) == a, "min:" + t, "position " << mi(j) << " instead of " << a << " in column " << j); MON_CHECK(ma(j) == b, "max:" + t, "position " << ma(j) << " instead of " << b << " in column " << j); }
      Mod<int8_t> sg(p, q); for (size_t i = 0; i < p * q; i++) { sg.v[i] = m.v[i] > T(0) ? 1 : m.v[i] < T(0) ? -1 : 0; MON_CHECK(susa::sign(m.v[i]) == sg.v[i], "sign_scalar:" + t, (int)susa::sign(m.v[i]) << " for " << vstr(m.v[i])); } EXACT("sign", susa::sign(x), sg);
      if constexpr (std::is_signed_v<T>) { for (auto& v : m.v) if (std::is_integral_v<T> && v == std::numeric_limits<T>::min()) v++; x = to_susa<T>(m); Mod<T> w(p, q); for (size_t i = 0; i < p * q; i++) w.v[i] = m.v[i] < 0 ? -m.v[i] : m.v[i] == T(0) ? T(0) : m.v[i]; EXACT("abs", susa::abs(x), w); std::vector<T> av = susa::abs(m.v); MON_CHECK(av == w.v, "abs_vector:" + t, vecstr(av)); }
      if constexpr (std::is_floating_point_v<T>) { Mod<std::complex<T>> z(p, q); for (size_t i = 0; i < p * q; i++) z.v[i] = std::complex<T>(m.v[i], 0); EXACT("to_complex", susa::to_complex(x), z); Mod<T> ab(p, q); for (size_t i = 0; i < p * q; i++) { ab.v[i] = std::fabs(m.v[i]); if (!(ab.v[i] > 0) || std::isinf(ab.v[i])) ab.v[i] = 1; } auto g = susa::log(to_susa<T>(ab)); for (size_t i = 0; i < p * q; i++) { L w = std::log((L)ab.v[i]); MON_CHECK(std::fabs((L)g(i) - w) <= 4 * E * std::fabs(w) + D, "log:" + t, "log of " << vstr(ab.v[i]) << " is " << g(i) << " instead of " << (double)w); } }
      if constexpr (!std::is_integral_v<T>) { auto d = susa::diff(m.v); if (d.size() + 1 != m.v.size()) violation("diff_size:" + t, std::to_string(d.size())); else for (size_t i = 0; i + 1 < m.v.size(); i++) { T w = (T)(m.v[i + 1] - m.v[i]); MON_CHECK(d[i] == w || (d[i] != d[i] && w != w), "diff:" + t, "element " << i << " is " << vstr(d[i]) << " instead of " << vstr(w)); } } }
    else { Mod<V> re(p, q), im(p, q); Mod<T> cj(p, q); for (size_t i = 0; i < p * q; i++) { re.v[i] = m.v[i].real(); im.v[i] = m.v[i].imag(); cj.v[i] = T(m.v[i].real(), -m.v[i].imag()); } EXACT("real", susa::real(x), re); EXACT("imag", susa::imag(x), im); EXACT("conj", susa::conj(x), cj);
      // absolute value over the whole range: only results beyond the type's own range may overflow
      auto B = susa::abs(x); std::vector<T> av = susa::abs(m.v); auto G = susa::mag(x); if (shp(B, p, q, "abs_shape:" + t) & shp(G, p, q, "mag_shape:" + t)) for (size_t i = 0; i < p * q; i++) { L re_ = m.v[i].real(), im_ = m.v[i].imag(); if (std::isinf(re_) || std::isinf(im_)) continue; L w = std::hypot(re_, im_); if (w <= .999L * (L)std::numeric_limits<V>::max()) { L tl = 4 * E * w + D; MON_CHECK(std::abs(cl(B(i)) - C(w, 0)) <= tl, "abs:" + t, "of " << vstr(m.v[i]) << " is " << vstr(B(i)) << " instead of " << (double)w); MON_CHECK(std::abs(cl(av[i]) - C(w, 0)) <= tl, "abs_vector:" + t, "of " << vstr(m.v[i]) << " is " << vstr(av[i]) << " instead of " << (double)w); } L w2 = re_ * re_ + im_ * im_; if (w2 <= .999L * (L)std::numeric_limits<V>::max()) MON_CHECK(std::fabs((L)G(i) - w2) <= 4 * E * w2 + 2 * (L)std::numeric_limits<V>::denorm_min(), "mag:" + t, "of " << vstr(m.v[i]) << " is " << G(i) << " instead of " << (double)w2); } }
    EXACT("argument", x, m); seen(hmod(m), p * q > 1);
  }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(2000);
#if PART(0)
  run<double>(n); run<float>(n); ends<double>(n / 2); ends<float>(n / 2);
#endif
#if PART(1)
  run<int>(n); run<int8_t>(n); run<long>(n / 2); ends<int>(n / 4); ends<int8_t>(n / 4); ends<long>(n / 4);
#endif
#if PART(2)
  run<uint8_t>(n / 2); run<unsigned>(n); run<short>(n / 2); run<size_t>(n / 2); ends<uint8_t>(n / 4); ends<unsigned>(n / 4); ends<short>(n / 4); ends<size_t>(n / 4);
#endif
#if PART(3)
  run<std::complex<double>>(n); run<std::complex<float>>(n); ends<std::complex<double>>(n / 4); ends<std::complex<float>>(n / 4);
#endif
#if PART(4)
  run<double, susa::allocator_log<double>>(n / 2); run<int, susa::allocator_log<int>>(n / 2);
#endif
  return finish();
}
