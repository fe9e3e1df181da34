// V01: routines given arguments that break a condition they assert. Built with assertions (every such call must be
// trapped) and with SUSA_NASSERT (the call ends, touches nothing outside its objects and changes no argument).
#include "mat.h"
using namespace mon;
static const bool nas =
#ifdef SUSA_NASSERT
  true;
#else
  false;
#endif
template <class F, class G> static void request(const std::string& name, const std::string& what, uint64_t sig, F f, G after) {
  begin("reject:" + name, what);
  if (!nas) { Obs o = isolated([&] { f(); }); if (!o.trapped) violation("untrapped:" + name, obs_str(o)); }
  else { f(); std::string why = after(); if (why.size()) violation("after:" + name, why); }
  seen(sig ^ hstr(name.c_str())); }
static std::string none() { return ""; }
// an empty result
template <class M> static std::string empty(const M& m) { return m.size() == 0 && m.no_rows() == 0 && m.no_cols() == 0 ? "" : "the result is " + mstr(from_susa(m)) + " instead of empty"; }
template <class T> static void table(Rng& r, size_t& p, size_t& q, Mod<T>& m) { p = 2 + r.below(r.chance(.05) ? 30 : 5); q = 2 + r.below(r.chance(.05) ? 30 : 5); m = any_mod<T>(r, p, q); if constexpr (std::is_floating_point_v<T>) for (auto&& v : m.v) v = (T)(r.range(-40, 40) / 4.); }
template <class T> static void vect(Rng& r, Mod<T>& m) { size_t n = 2 + r.below(9); m = r.below(2) ? Mod<T>(1, n) : Mod<T>(n, 1); for (auto&& v : m.v) v = small_val<T>(r, 20); }
template <class T> static void search(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng((std::string("search:") + tn<T>()).c_str(), c); size_t p, q; Mod<T> m; table(r, p, q, m); bool mat = r.below(3) != 0; if (!mat) vect(r, m); const auto x = to_susa<T, std::allocator<T>>(m);
    unsigned k = mat ? (unsigned)r.below(p * q + 1) : (unsigned)m.size() + 1 + (unsigned)r.below(r.chance(.1) ? 100000 : 9); susa::matrix<unsigned> lim(1 + r.below(4), 1), s; for (size_t i = 0; i < lim.size(); i++) lim(i) = (unsigned)r.below(m.size()); susa::matrix<T> t; std::string w = " of " + mstr(m) + " k=" + std::to_string(k), why; int op = (int)r.below(mat ? 6 : 3); const char* names[] = {"select_least", "select_most", "select_limited_least", "find", "sort", "sort_indices"};
    request(std::string(names[op]) + (mat ? "_matrix" : "_too_many"), names[op] + w, hmod(m) + k, [&] { switch (op) { case 0: s = susa::select_least(x, k); break; case 1: s = susa::select_most(x, k); break; case 2: s = susa::select_limited_least(x, lim, k); break; case 3: { T v = m.v[0]; auto b = susa::find(x, v); (void)b.any(); break; } case 4: t = susa::sort(x); break; default: s = susa::sort_indices(x); } },
      [&]() -> std::string { if (!matches(x, m, &why)) return "argument: " + why; if (op < 3 && !mat) { if (s.no_rows() != k || s.no_cols() != 1) return "shape " + std::to_string(s.no_rows()) + "x" + std::to_string(s.no_cols()); for (size_t i = 0; i < s.size(); i++) if (s(i) != 0) return "element " + std::to_string(i) + " is " + std::to_string(s(i)) + " instead of 0"; } return ""; }); }
}
template <class T> static void graphs(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng((std::string("graph:") + tn<T>()).c_str(), c); size_t p = 1 + r.below(7), q; do q = 1 + r.below(7); while (q == p && r.below(4)); Mod<T> m(p, q); for (auto&& v : m.v) v = (T)r.below(6); const auto x = to_susa<T, std::allocator<T>>(m); unsigned src = p == q ? (unsigned)(p + (r.below(2) ? 0 : r.u64() % 4000000000u)) : (unsigned)r.below(8); if (p == q && src < p) continue; susa::matrix<unsigned> s; std::string why;
    request(p == q ? "dijkstra_source" : "dijkstra_shape", mstr(m) + " from " + std::to_string(src), hmod(m) + src, [&] { s = susa::dijkstra(x, src); }, [&]() -> std::string { if (!matches(x, m, &why)) return "argument: " + why; return p == q ? "" : empty(s); }); }
}
template <class T> static void signals(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng((std::string("signal:") + tn<T>()).c_str(), c); size_t p, q; Mod<T> a, b; table(r, p, q, a); table(r, p, q, b); const auto x = to_susa<T, std::allocator<T>>(a), y = to_susa<T, std::allocator<T>>(b); susa::matrix<T> z; int op = (int)r.below(2); size_t len = r.below(9); std::string why;
    request(op ? "convmtx" : "conv", mstr(a) + " , " + (op ? std::to_string(len) : mstr(b)), hmod(a) ^ hmod(b), [&] { z = op ? susa::convmtx(x, len) : susa::conv(x, y); }, [&]() -> std::string { if (!matches(x, a, &why) || !matches(y, b, &why)) return "argument: " + why; return empty(z); }); }
}
template <class T> static void transforms(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng((std::string("fft:") + tn<T>()).c_str(), c); size_t len; do len = r.below(6) == 0 ? (1u << r.below(11)) + (1u << r.below(11)) : 3 + r.below(r.chance(.1) ? 3000 : 40); while ((len & (len - 1)) == 0); int shape = (int)r.below(3); Mod<T> m(shape == 0 ? 1 : len, shape == 0 ? len : shape == 1 ? 1 : 2 + r.below(3)); for (auto&& v : m.v) v = (T)r.gauss(); const auto x = to_susa<T, std::allocator<T>>(m); susa::fft<T> f; susa::matrix<std::complex<T>> y; std::string why;
    request("radix2_length", mstr(m), hmod(m), [&] { y = f.radix2(x); }, [&]() -> std::string { if (!matches(x, m, &why)) return "argument: " + why; // the object still transforms a proper signal
      susa::matrix<T> e(8, 1, 0); e(3) = 1; auto a = f.radix2(e), b = f.dft(e); for (int i = 0; i < 8; i++) if (std::abs(a(i) - b(i)) > 1e-4) return "a later transform is wrong"; return ""; }); }
}
template <class T> static void algebra(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng((std::string("algebra:") + tn<T>()).c_str(), c); size_t p = 1 + r.below(7), q; do q = 1 + r.below(7); while (q == p); Mod<T> m(p, q); for (auto&& v : m.v) v = (T)(r.range(-20, 20) / 2.); const auto x = to_susa<T, std::allocator<T>>(m); std::string why; bool ok = false; susa::matrix<T> z; size_t nb = 1 + r.below(8); susa::matrix<T> b(nb, 1, (T)1);
    int op = (int)r.below(6); const char* names[] = {"lu", "lup", "lup_alt", "linsolve", "inv", "before_decompose"};
    if (op == 5) { size_t k = 1 + r.below(6); Mod<T> s(k, k); for (auto&& v : s.v) v = (T)r.range(-9, 9); for (size_t i = 0; i < k; i++) s.at(i, i) += 20; const auto y = to_susa<T, std::allocator<T>>(s); susa::lup<T> d(y); bool inv = r.below(2); susa::matrix<T> rhs(k, 1, (T)1); request(inv ? "invert_before_decompose" : "solve_before_decompose", mstr(s), hmod(s), [&] { z = inv ? d.invert() : d.solve(rhs); }, [&]() -> std::string { if (!matches(y, s, &why)) return "argument: " + why; if (!d.decompose()) return "decompose() fails afterwards"; auto v = d.solve(rhs); for (size_t i = 0; i < k; i++) { double t = 0; for (size_t j = 0; j < k; j++) t += (double)s.at(i, j) * v(j); if (std::fabs(t - 1) > 1e-3) return "a later solution is wrong"; } return ""; }); continue; }
    request(std::string(names[op]) + "_shape", mstr(m) + " rhs " + std::to_string(nb), hmod(m) + nb, [&] { switch (op) { case 0: { susa::lu<T> d(x); ok = d.decompose(); break; } case 1: { susa::lup<T> d(x); ok = d.decompose(); auto k = d; z = k.solve(b); break; } case 2: { susa::lup<T> d(x); ok = d.decompose_alt(); break; } case 3: z = susa::linsolve(x, b); break; default: z = susa::inv(x); } },
      [&]() -> std::string { if (!matches(x, m, &why)) return "argument: " + why; return op < 2 && ok ? "decompose() accepts a matrix that is not square" : ""; }); }
}
static void others(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("others", c); std::string why;
    switch (r.below(7)) {
      case 0: { susa::matrix<int> e, z; request("transpose_empty", "empty matrix", c, [&] { z = susa::transpose(e); }, [&] { return empty(z); }); break; }
      case 1: { susa::matrix<std::complex<double>> e, z; request("hermitian_empty", "empty matrix", c, [&] { z = susa::hermitian(e); }, [&] { return empty(z); }); break; }
      case 2: { unsigned m = (unsigned)r.below(2); request("qam_order", std::to_string(m), c, [&] { susa::qam q(m); auto k = q.get_constellation(); (void)q.demodulate_symbol(std::complex<double>(.3, -2)); }, none); break; }
      case 3: { int m = r.below(2) ? 2 * (int)r.range(0, 200) : -(int)r.below(r.below(2) ? 1000 : 2000000000); double al = r.unit(); unsigned L = 1 + (unsigned)r.below(8); request("rrcosine_order", std::to_string(m), hval(m, 7), [&] { susa::rrcosine q(L, al, m); auto k = q.get(); }, none); break; }
      case 4: { unsigned k = r.below(2) ? 0 : 2 + (unsigned)r.below(5), nn = 1 + (unsigned)r.below(4), m = 1 + (unsigned)r.below(9); request("ccode_inputs", std::to_string(k), k * 100 + nn * 10 + m, [&] { susa::ccode q(nn, k, m); for (unsigned i = 0; i < nn; i++) q.set_generator(5, i); auto t = q; }, none); break; }
      case 5: { unsigned m = r.below(3) == 0 ? 0 : 32 + (unsigned)r.below(r.below(2) ? 3 : 4000000000u); request("ccode_memory", std::to_string(m), m, [&] { susa::ccode q(2, 1, m); q.set_generator(5, 0); q.set_generator(7, 1); auto t = q; }, none); break; }
      default: { unsigned nn = 1 + (unsigned)r.below(4), i = nn + (unsigned)(r.below(2) ? 0 : r.u64() % 4000000000u); susa::ccode q(nn, 1, 2); for (unsigned k = 0; k < nn; k++) q.set_generator(k % 2 ? 7 : 5, k); susa::matrix<uint8_t> b("1;0;1;1;0;0"); auto want = q.encode(b); request("ccode_generator", std::to_string(i) + " of " + std::to_string(nn), i * 5ull + nn, [&] { q.set_generator(6, i); }, [&]() -> std::string { return q.encode(b) == want ? "" : "the code has changed"; }); }
    } }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(nas ? 1500 : 500);
  search<int>(n); search<double>(n); search<uint8_t>(n); graphs<int>(n); graphs<double>(n / 2); graphs<uint8_t>(n / 2); signals<int>(n / 2); signals<double>(n / 2); transforms<double>(n / 2); transforms<float>(n / 4); algebra<double>(n); algebra<float>(n / 2); others(n * 2);
  return finish();
}
