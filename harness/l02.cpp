// L02: determinant and rank against exact integer / modular and long double oracles.
#include "mat.h"
using namespace mon;
typedef __int128 I;
static std::string i128(I v) { if (v == 0) return "0"; bool n = v < 0; if (n) v = -v; std::string s; while (v) { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return (n ? "-" : "") + s; }
// exact determinant (Bareiss); entries small enough for 128 bits
static I bareiss(std::vector<std::vector<I>> m) {
  size_t n = m.size(); I prev = 1; int sg = 1;
  for (size_t k = 0; k + 1 < n; k++) { if (m[k][k] == 0) { size_t p = k + 1; while (p < n && m[p][k] == 0) p++; if (p == n) return 0; std::swap(m[p], m[k]); sg = -sg; }
    for (size_t i = k + 1; i < n; i++) for (size_t j = k + 1; j < n; j++) m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev; prev = m[k][k]; }
  return sg * m[n - 1][n - 1]; }
static long double ldet(std::vector<std::vector<long double>> m) { size_t n = m.size(); long double d = 1; for (size_t k = 0; k < n; k++) { size_t p = k; for (size_t i = k; i < n; i++) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i; if (m[p][k] == 0) return 0; if (p != k) { std::swap(m[p], m[k]); d = -d; } d *= m[k][k]; for (size_t i = k + 1; i < n; i++) { long double f = m[i][k] / m[k][k]; for (size_t j = k; j < n; j++) m[i][j] -= f * m[k][j]; } } return d; }
// sum over permutations of the product of absolute values: scale of the cofactor expansion's rounding error
static double perm_abs(const std::vector<std::vector<double>>& m) { size_t n = m.size(); std::vector<double> f(1u << n, 0); f[0] = 1; for (unsigned s = 0; s + 1 < (1u << n); s++) { size_t i = __builtin_popcount(s); for (size_t j = 0; j < n; j++) if (!(s >> j & 1)) f[s | 1u << j] += f[s] * std::fabs(m[i][j]); } return f[(1u << n) - 1]; }
// rank modulo a prime (Gaussian integers through i -> root of -1)
static const uint64_t P = 998244353; // 1 mod 4, root of -1:
static uint64_t pw(uint64_t b, uint64_t e) { uint64_t x = 1; b %= P; while (e) { if (e & 1) x = x * b % P; b = b * b % P; e >>= 1; } return x; }
static const uint64_t IM = pw(3, (P - 1) / 4);
static size_t mrank(std::vector<std::vector<uint64_t>> m) { size_t R = m.size(), C = m[0].size(), rk = 0; for (size_t c = 0; c < C && rk < R; c++) { size_t p = rk; while (p < R && m[p][c] == 0) p++; if (p == R) continue; std::swap(m[p], m[rk]); uint64_t iv = pw(m[rk][c], P - 2); for (size_t i = rk + 1; i < R; i++) { uint64_t f = m[i][c] * iv % P; if (f) for (size_t j = c; j < C; j++) m[i][j] = (m[i][j] + P * P - f * m[rk][j] % P) % P; } rk++; } return rk; }
template <class T> static uint64_t modp(const T& v) { auto f = [](long long x) { return (uint64_t)((x % (long long)P + (long long)P) % (long long)P); }; if constexpr (is_cplx<T>::value) return (f((long long)v.real()) + IM * f((long long)v.imag())) % P; else return f((long long)v); }

// the elimination is only asked to decide ranks whose pivots are clearly zero or clearly not (any elimination order may be used)
// With a running bound of the rounding errors of the element type, for the first usable pivot and for the largest one.
template <class T> static bool clear_path(const Mod<T>& m, double eps, bool largest) {
  typedef std::complex<long double> C; size_t R = m.r, Q = m.c; std::vector<std::vector<C>> e(R, std::vector<C>(Q)); std::vector<std::vector<long double>> b(R, std::vector<long double>(Q, 0));
  for (size_t i = 0; i < R; i++) for (size_t j = 0; j < Q; j++) { if constexpr (is_cplx<T>::value) e[i][j] = C(m.at(i, j).real(), m.at(i, j).imag()); else e[i][j] = C((long double)m.at(i, j), 0); }
  const bool low = std::is_same_v<T, float> || std::is_same_v<T, std::complex<float>>; const long double u = (low ? 1.2e-7L : 2.3e-16L) * (is_cplx<T>::value ? 4 : 1), zero = low ? 1e-9L : 1e-13L; std::vector<bool> used(R, false);
  for (size_t c = 0; c < Q; c++) {
    for (size_t i = 0; i < R; i++) { long double a = std::abs(e[i][c]); if (a <= zero ? b[i][c] > eps / 4 : a - b[i][c] < 4 * eps) return false; }
    size_t p = R; for (size_t i = 0; i < R; i++) if (!used[i] && std::abs(e[i][c]) > zero && (p == R || (largest && std::abs(e[i][c]) > std::abs(e[p][c])))) p = i;
    if (p == R) continue; used[p] = true; const long double x = std::abs(e[p][c]), bx = b[p][c];
    for (size_t j = c + 1; j < Q; j++) { const C q = e[p][j] / e[p][c]; const long double aq = std::abs(q), bq = (b[p][j] + aq * bx) / (x - bx) + 3 * u * aq;
      for (size_t i = 0; i < R; i++) { if (i == p) continue; long double f = std::abs(e[i][c]), bf = b[i][c]; b[i][j] += bq * (f + bf) + aq * bf + 3 * u * (std::abs(e[i][j]) + aq * f); e[i][j] -= q * e[i][c]; } } }
  return true; }
template <class T> static bool clear(const Mod<T>& m, double eps) { return clear_path(m, eps, false) && clear_path(m, eps, true); }
template <class T> static void det_int(uint64_t n) {
  std::string kind = std::string("det:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t N_ = c % 400 == 211 ? 9 : thorough() && c % 4000 == 3001 ? 10 : c % 150 == 77 ? 8 : 1 + (c % 7 == 6 ? r.below(7) : r.below(6)); Mod<T> m(N_, N_);
    int mode = (int)r.below(6); long long lim = mode == 0 ? 9 : mode == 1 ? 2 : mode == 2 ? 100 : mode == 3 ? (std::is_floating_point_v<T> || sizeof(T) == 1 ? 200 : N_ <= 4 ? 30000 : 1000) : 50;
    if (N_ >= 8) lim = std::min<long long>(lim, N_ == 8 ? 100 : N_ == 9 ? 8 : 4); if (sizeof(T) == 1) lim = std::min<long long>(lim, std::is_signed_v<T> ? 127 : 255); if (sizeof(T) == 4 && std::is_integral_v<T> && mode == 3 && N_ <= 2) lim = 2000000000;
    for (auto&& x : m.v) x = (T)(std::is_unsigned_v<T> ? r.range(0, lim) : r.range(-lim, lim));
    if (mode == 4 && N_ > 1) { size_t i = r.below(N_), j = (i + 1 + r.below(N_ - 1)) % N_; for (size_t k = 0; k < N_; k++) { if (r.below(2)) m.at(i, k) = m.at(j, k); else m.at(i, k) = m.at(j, k); } }
    if (mode == 5) for (size_t k = 0; k < N_ * N_; k++) if (r.chance(.5)) m.v[k] = T(0);
    begin(kind, mstr(m)); std::vector<std::vector<I>> e(N_, std::vector<I>(N_)); std::vector<std::vector<double>> ab(N_, std::vector<double>(N_)); for (size_t i = 0; i < N_; i++) for (size_t j = 0; j < N_; j++) { e[i][j] = (I)m.at(i, j); ab[i][j] = (double)m.at(i, j); }
    I want = bareiss(e); double scale = perm_abs(ab), tol = scale < 9e15 ? 0 : 1e-14 * scale; auto x = to_susa(m); double got = susa::det(x);
    MON_CHECK(std::fabs(got - (double)want) <= tol + std::fabs((double)want) * 1e-16, std::string("det:") + tn<T>(), "det = " << got << " instead of " << i128(want)); std::string w; MON_CHECK(matches(x, m, &w), std::string("det_argument:") + tn<T>(), w);
    if (N_ > 1 && N_ < 9 && tol == 0) { size_t i = r.below(N_), j = (i + 1 + r.below(N_ - 1)) % N_; auto y = x; y.swap_rows(i, j); double g2 = susa::det(y); MON_CHECK(g2 == -got, std::string("det_swap:") + tn<T>(), g2 << " after swapping rows of a matrix with determinant " << got); double g3 = susa::det(susa::transpose(x)); MON_CHECK(g3 == got, std::string("det_transpose:") + tn<T>(), g3 << " vs " << got); }
    seen(hmod(m), N_ > 1);
  }
}
template <class T> static void det_real(uint64_t n) {
  std::string kind = std::string("detreal:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t N_ = 1 + r.below(6); Mod<T> m(N_, N_); int wide = c % 3 == 0 ? (std::is_same_v<T, float> ? 12 : 30) : 4; double sc = std::pow(10., (double)r.range(-wide, wide)); for (auto&& x : m.v) x = (T)(r.gauss() * sc);
    if (c % 5 == 1) { size_t i = r.below(N_); double f = std::pow(10., (double)r.range(-wide, wide)); for (size_t j = 0; j < N_; j++) m.at(i, j) = (T)(m.at(i, j) * f); } if (c % 5 == 2) { size_t j = r.below(N_); double f = std::pow(10., (double)r.range(-wide, wide)); for (size_t i = 0; i < N_; i++) m.at(i, j) = (T)(m.at(i, j) * f); }
    begin(kind, mstr(m)); std::vector<std::vector<long double>> e(N_, std::vector<long double>(N_)); std::vector<std::vector<double>> ab(N_, std::vector<double>(N_)); for (size_t i = 0; i < N_; i++) for (size_t j = 0; j < N_; j++) { e[i][j] = m.at(i, j); ab[i][j] = m.at(i, j); }
    long double want = ldet(e); double tol = perm_abs(ab) * 1e-14; auto x = to_susa(m); double got = susa::det(x); stat_max("det_err_over_tol", std::fabs(got - (double)want) / tol);
    MON_CHECK(std::fabs(got - (double)want) <= tol, std::string("detreal:") + tn<T>(), "det = " << got << " instead of " << (double)want); std::string w; MON_CHECK(matches(x, m, &w), std::string("det_argument:") + tn<T>(), w);
    Mod<T> m2(N_, N_); for (auto&& q : m2.v) q = (T)r.range(-4, 4); Mod<T> m1(N_, N_); for (auto&& q : m1.v) q = (T)r.range(-4, 4); auto a = to_susa(m1), b = to_susa(m2); double d1 = susa::det(a), d2 = susa::det(b), d12 = susa::det(susa::matmul(a, b));
    if (std::fabs(d1 * d2) < 1e12) MON_CHECK(std::fabs(d12 - d1 * d2) <= 1e-3 + 1e-9 * std::fabs(d1 * d2), std::string("det_product:") + tn<T>(), d12 << " instead of " << d1 << "*" << d2 << " for " << mstr(m1) << " " << mstr(m2));
    seen(hmod(m), N_ > 1);
  }
}
template <class T> static void ranks(uint64_t n) {
  std::string kind = std::string("rank:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t p = 1 + r.below(6), q = 1 + r.below(6), k = r.below(std::min(p, q) + 1); if (r.chance(.1)) { p = 1 + r.below(12); k = std::min(k, p); } int mode = (int)r.below(5); if (r.chance(.06)) { p = 1 + r.below(70); q = 1 + r.below(70); k = r.below(std::min<size_t>(std::min(p, q), 8) + 1); if (mode == 0 || mode == 2) mode = 5; if (r.chance(.05)) { p = 250 + r.below(60); q = 1 + r.below(9); k = r.below(q + 1); if (r.below(2)) std::swap(p, q); k = std::min(k, std::min(p, q)); } } Mod<T> m(p, q, T(0));
    if (mode == 5) { for (size_t i = 0; i < std::min(p, q); i++) if (r.chance(.8)) m.at(r.below(p), i) = T(1 + (int)r.below(3)); for (size_t i = 0; i < p / 2; i++) { size_t f = r.below(p), t = r.below(p); if (f != t) for (size_t j = 0; j < q; j++) m.at(t, j) = (T)m.at(f, j); } }
    else if (mode == 0) m = rnd_mod<T>(r, p, q, 3);
    else if (mode == 1) { for (auto&& x : m.v) if (r.chance(.4)) x = small_val<T>(r, 2); }
    else if (mode == 2) { for (size_t i = 0; i < p; i++) { size_t s = r.below(i + 1); for (size_t j = 0; j < q; j++) m.at(i, j) = i == s || s == 0 ? small_val<T>(r, 4) : T(m.at(s, j)); } }
    else for (size_t t = 0; t < k; t++) { std::vector<T> u(p), v(q); int lim = std::is_unsigned_v<T> ? 2 : 2; for (auto& x : u) x = small_val<T>(r, lim); for (auto& x : v) x = small_val<T>(r, lim); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) m.at(i, j) = (T)(m.at(i, j) + u[i] * v[j]); }
    begin(kind, mstr(m)); std::vector<std::vector<uint64_t>> e(p, std::vector<uint64_t>(q)); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) e[i][j] = modp(m.at(i, j));
    size_t want = mrank(e); auto x = to_susa(m); const bool low = std::is_same_v<T, float> || std::is_same_v<T, std::complex<float>>; double ep = low ? 1e-3 : 1e-9; auto ok = [&](const Mod<T>& mm) { return clear(mm, ep); };
    if (!ok(m)) { stat_add("n_rank_borderline_skipped", 1); continue; } if (std::max(p, q) > 12) stat_add("n_rank_large_judged", 1);
    unsigned got = ep == 1e-9 ? susa::rank(x) : susa::rank(x, ep); MON_CHECK(got == want, std::string("rank:") + tn<T>(), "rank " << got << " instead of " << want); std::string w; MON_CHECK(matches(x, m, &w), std::string("rank_argument:") + tn<T>(), w);
    auto y = susa::transpose(x); if (ok(from_susa(y))) { unsigned g2 = ep == 1e-9 ? susa::rank(y) : susa::rank(y, ep); MON_CHECK(g2 == want, std::string("rank_transpose:") + tn<T>(), "rank of the transpose " << g2 << " instead of " << want); }
    if (p > 1) { auto z = x; z.swap_rows(r.below(p), r.below(p)); if (!ok(from_susa(z))) continue; unsigned g3 = ep == 1e-9 ? susa::rank(z) : susa::rank(z, ep); MON_CHECK(g3 == want, std::string("rank_swapped:") + tn<T>(), "rank " << g3 << " instead of " << want << " with swapped rows"); }
    stat_add("n_rank_deficient", want < std::min(p, q)); seen(hmod(m), p * q > 1);
  }
}
// rank with an explicit precision on matrices with one entry per row and column, and on a large constant plus a small regular matrix
template <class T> static void rank_scaled(uint64_t n) {
  std::string kind = std::string("rankeps:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); constexpr bool integral = std::is_integral_v<T>;
    if (c % 2 == 0) { size_t p = 1 + r.below(9), q = 1 + r.below(9); Mod<T> m(p, q, T(0)); double eps; switch (r.below(5)) { case 0: eps = 1e-9; break; case 1: eps = integral ? .5 : 1e-5; break; case 2: eps = 2.5; break; case 3: eps = 20.5; break; default: eps = integral ? 7 : 1e-3; } std::vector<size_t> rows(p); for (size_t i = 0; i < p; i++) rows[i] = i; for (size_t i = 0; i < p; i++) std::swap(rows[i], rows[r.below(p)]);
      unsigned want = 0; for (size_t j = 0; j < std::min(p, q); j++) { T v = T(0); if (r.chance(.2)) ; else if constexpr (integral) { long k = r.range(std::is_signed_v<T> ? -60 : 0, 60); if (std::fabs((double)k) == eps) k++; v = (T)k; } else { double f = r.chance(.5) ? r.uni(2, 1e4) : r.uni(.001, .5); v = T((r.below(2) || std::is_unsigned_v<T> ? 1 : -1) * eps * f); if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>) if (r.below(2)) v = T(0, std::real(v)); }
        m.at(rows[j], j) = v; if (std::abs(std::complex<double>(v)) > eps) want++; }
      begin(kind, "epsilon " + vstr(eps) + " " + mstr(m)); auto x = to_susa(m); unsigned got = susa::rank(x, eps); MON_CHECK(got == want, std::string("rank_epsilon:") + tn<T>(), "rank " << got << " instead of " << want << " with precision " << eps); seen(hmod(m), p * q > 1); }
    else { size_t p = 2 + r.below(6); double amax = std::is_same_v<T, float> || std::is_same_v<T, std::complex<float>> ? 16 : sizeof(T) == 1 ? 6 : sizeof(T) == 2 ? 14 : sizeof(T) == 4 ? 30 : 40; double a = std::floor(std::pow(2., r.uni(3, amax))); bool transposed = r.below(2); Mod<T> m(p, p, T(0)); long d[8]; for (size_t i = 0; i < p; i++) d[i] = 1 + r.below(5); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < p; j++) { size_t k = transposed ? j : i; m.at(i, j) = (T)(a + (double)(i == j ? d[k] : 0)); }
      begin(kind, mstr(m)); auto x = to_susa(m); unsigned got = susa::rank(x, 1e-4); MON_CHECK(got == p, std::string("rank_offset:") + tn<T>(), "rank " << got << " of a regular " << p << "x" << p << " matrix"); seen(hmod(m), true); }
  }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(1200);
#if PART(0)
  det_int<int>(n); det_int<int8_t>(n / 2); det_int<uint8_t>(n / 2); det_int<unsigned>(n / 2); det_int<short>(n / 2);
#endif
#if PART(1)
  det_int<double>(n); det_int<float>(n / 2); det_real<double>(n); det_real<float>(n / 2);
#endif
#if PART(2)
  ranks<double>(2 * n); ranks<int>(n); ranks<uint8_t>(n / 2); ranks<long>(n / 2); ranks<int8_t>(n / 2); rank_scaled<double>(n / 4); rank_scaled<int>(n / 4); rank_scaled<uint8_t>(n / 8); rank_scaled<long>(n / 8);
#endif
#if PART(3)
  ranks<float>(n); ranks<std::complex<double>>(n); ranks<std::complex<float>>(n / 2); ranks<unsigned>(n / 2); rank_scaled<float>(n / 4); rank_scaled<std::complex<double>>(n / 8); rank_scaled<std::complex<float>>(n / 8); rank_scaled<unsigned>(n / 8);
#endif
  return finish();
}
