// S01: fft::radix2 and fft::dft against a long double DFT with an exact phase table.
#include "mat.h"
using namespace mon;
typedef long double L; typedef std::complex<long double> C;
static const L PI_L = 3.14159265358979323846264338327950288L;
static std::vector<C> table(size_t n) { std::vector<C> w(n); for (size_t k = 0; k < n; k++) w[k] = C(std::cos(2 * PI_L * k / n), -std::sin(2 * PI_L * k / n)); return w; }
// the oracle's own transform for long signals (recursive splitting, exact phase table); cross-checked against the definition
static std::vector<C> split(const std::vector<C>& x, const std::vector<C>& w) { size_t n = x.size(); if (n == 1) return x; std::vector<C> e(n / 2), o(n / 2); for (size_t i = 0; i < n / 2; i++) { e[i] = x[2 * i]; o[i] = x[2 * i + 1]; } e = split(e, w); o = split(o, w); std::vector<C> y(n); size_t st = w.size() / n; for (size_t k = 0; k < n / 2; k++) { C t = w[k * st] * o[k]; y[k] = e[k] + t; y[k + n / 2] = e[k] - t; } return y; }
template <class T, class A> static void run(uint64_t N_, const char* tag) {
  std::string kind = std::string("fft:") + tn<T>() + tag, t = tn<T>(); const L E = std::numeric_limits<T>::epsilon();
  for (uint64_t c = 0; c < N_; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); bool p2 = c % 3 != 0; bool huge = c % 150 == 1; size_t n = huge ? (size_t)2048 << (c == 451 ? 6 : r.below(c % 300 == 1 ? 6 : 2)) : p2 ? (size_t)1 << r.below(c % 30 == 1 ? 11 : 7) : 1 + r.below(c % 30 == 0 ? 700 : 90), cols = 1; int shape = (int)r.below(3); if (shape == 2) cols = 1 + r.below(n <= 64 && c % 10 == 3 ? 40 : 4);
    if (n == 1 && cols > 1) n = 2; // a single row is one signal
    bool row = shape == 0; size_t R = row ? 1 : n, K = row ? n : cols; if (R == 1 && K > 1 && !row) { cols = 1; K = 1; }
    Mod<T> m(R, K); int sig = (int)r.below(6); size_t imp = r.below(n); double sc = std::pow(10., (double)r.range(-3, 3)); size_t tone = r.below(n);
    for (size_t j = 0; j < (row ? 1 : cols); j++) for (size_t i = 0; i < n; i++) m.v[i + j * n] = (T)(sig == 0 ? (i == imp ? 1 : 0) : sig == 1 ? 1 : sig == 2 ? std::cos(6.283185307179586 * tone * i / n) : sig == 3 ? (double)r.range(-9, 9) : r.gauss() * sc);
    begin(kind, std::string(p2 ? "radix2 " : "dft ") + mstr(m)); auto x = to_susa<T, A>(m); susa::fft<T, A> f; std::vector<C> w = table(n); std::vector<std::vector<C>> want(row ? 1 : cols, std::vector<C>(n)); std::vector<L> mag(want.size(), 0);
    for (size_t j = 0; j < want.size(); j++) { for (size_t i = 0; i < n; i++) mag[j] += std::fabs((L)m.v[i + j * n]); if (p2 && n >= 512) { std::vector<C> z(n); for (size_t i = 0; i < n; i++) z[i] = (L)m.v[i + j * n]; want[j] = split(z, w); for (int q = 0; q < 8; q++) { size_t k = r.below(n); C s = 0; for (size_t i = 0; i < n; i++) s += z[i] * w[(i * k) % n]; if (std::abs(s - want[j][k]) > 1e-17L * n * mag[j]) violation("ORACLE", "reference transforms disagree"); } } else for (size_t k = 0; k < n; k++) { C s = 0; for (size_t i = 0; i < n; i++) s += (L)m.v[i + j * n] * w[(i * k) % n]; want[j][k] = s; } }
    for (int alg = 0; alg < 2; alg++) { if (alg && !p2) continue; if (!alg && n > 300 && (c % 2 || n > 1000)) continue; std::string ks = alg ? "radix2" : "dft"; auto y = alg ? f.radix2(x) : f.dft(x); if (y.no_rows() != R || y.no_cols() != K) { violation(ks + "_shape:" + t, "shape " + std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols())); continue; }
      L fac = alg ? 4 * (std::log2((L)n) * std::log2((L)n) + (L)n / 4 + 4) : 16 * ((L)n * 2 + 8);
      for (size_t j = 0; j < want.size(); j++) { L e2 = 0, p2s = 0, ps = 0; for (size_t k = 0; k < n; k++) { C g(y(k + j * n).real(), y(k + j * n).imag()); L e = std::abs(g - want[j][k]), tl = fac * E * mag[j] + 1e-40L; stat_max(ks + "_err_over_tol:" + t, (double)(e / tl)); if (!(e <= tl)) { violation(ks + ":" + t, "bin " + std::to_string(k) + " of column " + std::to_string(j) + " is " + vstr(y(k + j * n)) + " instead of (" + std::to_string((double)want[j][k].real()) + "," + std::to_string((double)want[j][k].imag()) + ")"); break; } p2s += std::norm(g); e2 = std::max(e2, e); }
        for (size_t i = 0; i < n; i++) ps += (L)m.v[i + j * n] * m.v[i + j * n]; MON_CHECK(std::fabs(p2s - n * ps) <= 4 * fac * E * mag[j] * std::sqrt((L)n) * (std::sqrt(p2s) + std::sqrt(n * ps)) + 1e-40L, ks + "_parseval:" + t, "energy " << (double)p2s << " instead of " << (double)(n * ps)); } stat_add("n_" + ks, 1); }
    // the same object, and others, transform signals of other lengths in between
    if (n <= 1024 && r.chance(.3)) { size_t n2 = (size_t)1 << r.below(9); std::vector<C> w2 = table(n2); susa::matrix<T, A> z(n2, 1); L mg2 = 0; for (size_t i = 0; i < n2; i++) { z(i) = (T)r.gauss(); mg2 += std::fabs((L)z(i)); } bool own = r.below(2); susa::fft<T, A> f2; auto& ff = own ? f : f2; auto a = ff.radix2(z), b = ff.dft(z); for (size_t k = 0; k < n2; k++) { C s = 0; for (size_t i = 0; i < n2; i++) s += (L)z(i) * w2[(i * k) % n2]; L tl = 64 * (n2 + 8) * E * mg2; if (!(std::abs(C(a(k).real(), a(k).imag()) - s) <= tl) || !(std::abs(C(b(k).real(), b(k).imag()) - s) <= tl)) { violation("other_length:" + t, "bin " + std::to_string(k) + " of a transform of length " + std::to_string(n2) + " after one of length " + std::to_string(n)); break; } }
      if (p2) { auto y = f.radix2(x); for (size_t k = 0; k < n; k++) { L tl = 64 * (n + 8) * E * mag[0]; if (!(std::abs(C(y(k).real(), y(k).imag()) - want[0][k]) <= tl)) { violation("again:" + t, "bin " + std::to_string(k) + " of a repeated transform of length " + std::to_string(n) + " after one of length " + std::to_string(n2)); break; } } } }
    // linearity and repeated use of the object
    if (n <= 64) { auto y = p2 ? f.radix2(x) : f.dft(x); auto y2 = p2 ? f.radix2(x + x) : f.dft(x + x); for (size_t i = 0; i < y.size(); i++) { L e = std::abs(C(y2(i).real(), y2(i).imag()) - (L)2 * C(y(i).real(), y(i).imag())); MON_CHECK(e <= 64 * n * E * *std::max_element(mag.begin(), mag.end()) + 1e-40L, "linearity:" + t, "bin " << i << " of the doubled signal is " << vstr(y2(i)) << " versus " << vstr(y(i))); } }
    std::string wh; MON_CHECK(matches(x, m, &wh), "argument:" + t, wh); seen(hmod(m), n > 1);
  }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(1500);
  run<double, std::allocator<double>>(n, ""); run<float, std::allocator<float>>(n, ""); run<double, susa::allocator_log<double>>(n / 4, "/log");
  return finish();
}
