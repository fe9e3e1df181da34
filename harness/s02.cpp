// S02: filter, conv, convmtx, toeplitz and kron against the equations that define them.
#include "mat.h"
using namespace mon;
typedef long double L;
template <class T> static L mg(const T& v) { return (L)std::abs(std::complex<double>(v)); }
template <class T> struct U { typedef T t; }; template <class T> struct U<std::complex<T>> { typedef T t; };
template <class T> static L eps() { if constexpr (std::is_integral_v<T>) return 0; else return std::numeric_limits<typename U<T>::t>::epsilon(); }
typedef std::complex<L> C; template <class T> static C cl(const T& v) { if constexpr (is_cplx<T>::value) return C(v.real(), v.imag()); else return C((L)v, 0); }
#define EXACT(key, x, m) do { std::string w_; if (!matches(x, m, &w_)) violation(std::string(key) + ":" + tn<T>(), w_ + " in " + mstr(from_susa(x)) + " expected " + mstr(m)); } while (0)
template <class T> static std::vector<T> poly(const std::vector<T>& a, const std::vector<T>& b) { std::vector<T> c(a.size() + b.size() - 1, T(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] = (T)(c[i + j] + a[i] * b[j]); return c; }
// elements as large as exact sums of `inner` products allow (narrow types wrap, so that they take any value)
template <class T> static bool grow(Rng& r, Mod<T>& a, Mod<T>& b, size_t inner) {
  if (!r.chance(.2)) return false; double room; if constexpr (is_cplx<T>::value) room = sizeof(T) == 8 ? 8388608. : 4503599627370496.; else if constexpr (std::is_floating_point_v<T>) room = sizeof(T) == 4 ? 16777216. : 9007199254740992.; else room = sizeof(T) == 8 ? 9.2e18 : 2147483647.;
  int64_t big = sizeof(T) == 1 ? 127 : (int64_t)std::sqrt(room / inner) - 1; if (big < 5) return false;
  for (Mod<T>* m : {&a, &b}) for (auto&& v : m->v) { if constexpr (is_cplx<T>::value) { using Q = typename T::value_type; v = T((Q)r.range(-big, big), (Q)r.range(-big, big)); } else if constexpr (std::is_unsigned_v<T>) v = (T)r.range(0, sizeof(T) == 1 ? 255 : big); else v = (T)(r.below(3) ? r.range(-big, big) : r.below(2) ? big - (int64_t)r.below(3) : -big); }
  stat_add("n_large_elements", 1); return true; }
// difference equation at every sample
template <class T, class TT> static void filt(uint64_t n) {
  std::string kind = std::string("filter:") + tn<T>() + "/" + tn<TT>(), t = kind.substr(7);
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t nb = 1 + r.below(8), na = r.chance(.4) ? 1 : 1 + r.below(6), R, K; rnd_shape(r, R, K, 8); if (r.chance(.05)) nb = 1 + r.below(70); if (r.chance(.03)) na = 1 + r.below(30); if (r.chance(.005)) { R = 300 + r.below(2000); K = 1 + r.below(3); if (r.below(3) == 0) { K = R; R = 1; } } size_t len = r.chance(.3) ? 0 : r.below(12); if (r.chance(.006)) na = 257 + r.below(80); if (r.chance(.006)) nb = 257 + r.below(80); if (r.chance(.01)) len = 257 + r.below(80); if (r.chance(.006)) { K = 257 + r.below(60); R = 2 + r.below(4); } if (c % 700 == 5) { R = 65600 + r.below(2000); K = 1; nb = 1 + r.below(3); na = 1 + r.below(3); if (r.below(2)) { K = R; R = 1; } } if (r.chance(.05) && R * K < 3000) R += na > 256 || nb > 256 ? 300 : 0; bool exact = eps<T>() == 0 || r.below(2);
    Mod<TT> b = r.below(2) ? Mod<TT>(nb, 1) : Mod<TT>(1, nb), a = r.below(2) ? Mod<TT>(na, 1) : Mod<TT>(1, na); Mod<T> x(R, K);
    for (auto& v : b.v) v = exact ? small_val<TT>(r, 3) : TT(r.gauss()); for (auto& v : a.v) v = exact ? small_val<TT>(r, 1) : TT(r.gauss() * .4); a.v[0] = TT(1); for (auto& v : x.v) v = exact ? small_val<T>(r, 5) : T(r.gauss() * 10);
    if (std::max(R, K) + len > 200 || na > 6) { double q = 0; for (size_t k = 1; k < na; k++) q += (double)mg(a.v[k]); if (q > .95) for (size_t k = 1; k < na; k++) a.v[k] = (TT)(a.v[k] / (TT)(q / .95 + (eps<T>() == 0))); }  // long recursions stay stable
    if (eps<T>() == 0 && (std::max(R, K) + len > 24 || na > 6)) { for (size_t k = 1; k < na; k++) a.v[k] = 0; } // keep integer recursions in range
    if constexpr (std::is_same_v<T, TT> && std::is_integral_v<T>) { bool ma = true; for (size_t k = 1; k < na; k++) if (a.v[k] != TT(0)) ma = false; if (ma) grow<T>(r, b, x, nb); }
    begin(kind, "b=" + mstr(b) + " a=" + mstr(a) + " x=" + mstr(x) + " len=" + std::to_string(len));
    auto sb = to_susa(b), sa = to_susa(a); auto sx = to_susa(x); auto y = susa::filter(sb, sa, sx, len); bool row = R == 1 && K > 1; size_t N_ = row ? K : R, cols = row ? 1 : K, M = N_ + len;
    if (y.no_rows() != (row ? 1 : M) || y.no_cols() != (row ? M : K)) { violation("filter_shape:" + t, "shape " + std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols())); continue; }
    bool stop = false; for (size_t j = 0; j < cols && !stop; j++) for (size_t i = 0; i < M; i++) { C s = 0; L g = 0; for (size_t k = 0; k < nb && k <= i; k++) if (i - k < N_) { C v = cl(b.v[k]) * cl(x.v[i - k + j * N_]); s += v; g += std::abs(v); } for (size_t k = 1; k < na && k <= i; k++) { C v = cl(a.v[k]) * cl(y(i - k + j * M)); s -= v; g += std::abs(v); }
      C got = cl(y(i + j * M)); L e = std::abs(got - s), tl = 4 * (nb + na) * eps<T>() * g; if constexpr (!std::is_integral_v<T>) tl += 8 * (nb + na) * (L)std::numeric_limits<typename U<T>::t>::denorm_min(); if (g > 0 && tl > 0) stat_max("filter_res_over_tol", (double)(e / tl)); if (!(e <= tl)) { violation("filter:" + t, "sample " + std::to_string(i) + " of column " + std::to_string(j) + " is " + vstr(y(i + j * M)) + " but the difference equation gives " + std::to_string((double)s.real()) + "+" + std::to_string((double)s.imag()) + "i"); stop = true; break; } }
    std::string w; MON_CHECK(matches(sb, b, &w) && matches(sa, a, &w) && matches(sx, x, &w), "filter_arguments:" + t, w); seen(hmod(x) ^ hmod(b) * 3 ^ hmod(a) * 7 ^ len, R * K > 1);
  }
}
template <class T, class A = std::allocator<T>> static void conv(uint64_t n) {
  std::string kind = std::string("conv:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); auto V = [&](size_t k) { return r.below(2) ? rnd_mod<T>(r, k, 1, 5) : rnd_mod<T>(r, 1, k, 5); };
    { // vectors and scalars
      Mod<T> a = V(1 + r.below(r.chance(.1) ? 60 : 10)), b = V(1 + r.below(r.chance(.1) ? 60 : 10)); if (r.chance(.01)) { a = V(200 + r.below(900)); if (r.below(2)) b = V(100 + r.below(300)); } if (c % 350 == 3) { a = V(65600 + r.below(100)); b = V(1 + r.below(4)); } grow<T>(r, a, b, std::min(a.size(), b.size())); begin(kind, mstr(a) + " * " + mstr(b)); auto sa = to_susa<T, A>(a), sb = to_susa<T, A>(b); auto y = susa::conv(sa, sb); std::vector<T> w = poly(a.v, b.v);
      bool ok = y.size() == w.size() && (y.no_rows() == 1 || y.no_cols() == 1); const Mod<T>& lead = a.size() == 1 ? b : a; if (ok && w.size() > 1) ok = (lead.r == 1) == (y.no_rows() == 1); if (!ok) violation("conv_shape:" + std::string(tn<T>()), std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols())); else for (size_t i = 0; i < w.size(); i++) if (!same<T>(y(i), w[i])) { violation(std::string("conv:") + tn<T>(), "coefficient " + std::to_string(i) + " is " + vstr(y(i)) + " instead of " + vstr(w[i])); break; }
      auto z = susa::conv(a.size() > 5000 ? sa : sb, a.size() > 5000 ? sb : sa);   // the other order is quadratic for long signals
       for (size_t i = 0; i < w.size() && i < z.size(); i++) if (!same<T>(z(i), w[i])) { violation(std::string("conv_commute:") + tn<T>(), "coefficient " + std::to_string(i)); break; }
      std::string q; MON_CHECK(matches(sa, a, &q) && matches(sb, b, &q), std::string("conv_arguments:") + tn<T>(), q); seen(hmod(a) ^ hmod(b) * 5, w.size() > 1); }
    { // matrix with vector: column by column
      size_t R = 2 + r.below(r.chance(.1) ? 60 : 6), K = 2 + r.below(r.chance(.1) ? 20 : 4); if (r.chance(.01)) K = 257 + r.below(40); if (r.chance(.01)) R = 257 + r.below(40); Mod<T> a = rnd_mod<T>(r, R, K, 5), b = V(1 + r.below(r.chance(.1) ? 50 : 6)); grow<T>(r, a, b, std::min(R, b.size())); begin(kind + "_columns", mstr(a) + " * " + mstr(b)); auto sa = to_susa<T, A>(a), sb = to_susa<T, A>(b); Mod<T> w(R + b.size() - 1, K); for (size_t j = 0; j < K; j++) { std::vector<T> cc(a.v.begin() + j * R, a.v.begin() + (j + 1) * R), p = poly(cc, b.v); for (size_t i = 0; i < p.size(); i++) w.at(i, j) = p[i]; } EXACT("conv_matrix", susa::conv(sa, sb), w); EXACT("conv_matrix_swapped", susa::conv(sb, sa), w); seen(hmod(a) ^ hmod(b) * 5); }
    { // structured matrices
      size_t m = 2 + r.below(r.chance(.1) ? 70 : 8), len = 1 + r.below(r.chance(.1) ? 70 : 8); if (r.chance(.012)) m = 257 + r.below(40); if (r.chance(.012)) len = 257 + r.below(40); if (r.chance(.002)) { m = 500 + r.below(2000); len = 2 + r.below(700); if (r.below(3) == 0) std::swap(m, len); } Mod<T> a = V(m); begin(kind + "_convmtx", mstr(a) + " len " + std::to_string(len)); bool row = a.r == 1; Mod<T> w = row ? Mod<T>(len, m + len - 1, T(0)) : Mod<T>(m + len - 1, len, T(0)); for (size_t k = 0; k < len; k++) for (size_t i = 0; i < m; i++) { if (row) w.at(k, k + i) = a.v[i]; else w.at(k + i, k) = a.v[i]; } auto sa = to_susa<T, A>(a); auto M = susa::convmtx(sa, len); EXACT("convmtx", M, w);
      if (M.no_rows() == w.r && M.no_cols() == w.c) { Mod<T> v = row ? rnd_mod<T>(r, 1, len, 4) : rnd_mod<T>(r, len, 1, 4); auto sv = to_susa<T, A>(v); auto p = row ? susa::matmul(sv, M) : susa::matmul(M, sv); std::vector<T> pw = poly(a.v, v.v); for (size_t i = 0; i < pw.size(); i++) if (!same<T>(p(i), pw[i])) { violation(std::string("convmtx_product:") + tn<T>(), "entry " + std::to_string(i)); break; } } std::string q; MON_CHECK(matches(sa, a, &q), std::string("convmtx_argument:") + tn<T>(), q); seen(hmod(a) ^ len); }
    { size_t p = 1 + r.below(r.chance(.1) ? 90 : 9), q = 1 + r.below(r.chance(.1) ? 90 : 9); if (r.chance(.012)) p = 257 + r.below(40); if (r.chance(.012)) q = 257 + r.below(40); if (r.chance(.002)) { p = 500 + r.below(900); q = 2 + r.below(1500); } Mod<T> cl = V(p), rw = V(q); if (r.chance(.3)) { for (auto&& v : cl.v) v = any_val<T>(r); for (auto&& v : rw.v) v = any_val<T>(r); } rw.v[0] = cl.v[0]; begin(kind + "_toeplitz", mstr(cl) + " / " + mstr(rw)); Mod<T> w(p, q), s(p, p); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) w.at(i, j) = j >= i ? rw.v[j - i] : cl.v[i - j]; for (size_t i = 0; i < p; i++) for (size_t j = 0; j < p; j++) s.at(i, j) = cl.v[i > j ? i - j : j - i]; auto sc = to_susa<T, A>(cl), sr = to_susa<T, A>(rw); EXACT("toeplitz", susa::toeplitz(sc, sr), w); EXACT("toeplitz_symmetric", susa::toeplitz(sc), s); std::string u; MON_CHECK(matches(sc, cl, &u) && matches(sr, rw, &u), std::string("toeplitz_arguments:") + tn<T>(), u); seen(hmod(cl) ^ hmod(rw) * 5, p * q > 1); }
    { size_t p, q, s, t; p = 1 + r.below(5); q = 1 + r.below(5); s = 1 + r.below(5); t = 1 + r.below(5); if (r.chance(.03)) { p = 1 + r.below(20); q = 1 + r.below(20); }  if (r.chance(.03)) { s = 1 + r.below(40); t = 1 + r.below(40); } if (r.chance(.02)) { size_t& z = r.below(4) == 0 ? p : r.below(3) == 0 ? q : r.below(2) ? s : t; size_t o = p * q * s * t; (void)o; p = 1 + r.below(3); q = 1 + r.below(3); s = 1 + r.below(3); t = 1 + r.below(3); z = 257 + r.below(30); } Mod<T> a = rnd_mod<T>(r, p, q, 5), b = rnd_mod<T>(r, s, t, 5), w(p * s, q * t); grow<T>(r, a, b, 1); begin(kind + "_kron", mstr(a) + " (x) " + mstr(b)); for (size_t i = 0; i < p * s; i++) for (size_t j = 0; j < q * t; j++) w.at(i, j) = (T)(a.at(i / s, j / t) * b.at(i % s, j % t)); auto sa = to_susa<T, A>(a), sb = to_susa<T, A>(b); EXACT("kron", susa::kron(sa, sb), w); std::string u; MON_CHECK(matches(sa, a, &u) && matches(sb, b, &u), std::string("kron_arguments:") + tn<T>(), u); auto k2 = sa; k2 = susa::kron(k2, k2); Mod<T> w2(p * p, q * q); for (size_t i = 0; i < p * p; i++) for (size_t j = 0; j < q * q; j++) w2.at(i, j) = (T)(a.at(i / p, j / q) * a.at(i % p, j % q)); EXACT("kron_self", k2, w2); seen(hmod(a) ^ hmod(b) * 5, p * q * s * t > 1); }
  }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(1500);
#if PART(0)
  filt<double, double>(n); filt<int, int>(n); 
#endif
#if PART(1)
  filt<float, float>(n); filt<std::complex<double>, double>(n); filt<std::complex<double>, std::complex<double>>(n);
#endif
#if PART(2)
  conv<int>(n / 2); conv<double>(n / 2); conv<uint8_t>(n / 8);
#endif
#if PART(3)
  conv<std::complex<double>>(n / 2); conv<long>(n / 4); conv<float>(n / 4); conv<std::complex<float>>(n / 8);
#endif
  return finish();
}
