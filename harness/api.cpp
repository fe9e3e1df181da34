// U01 / D01 / X01: sweep over the public API with valid arguments of every element type and shape.
// Each operation is executed twice with the same arguments in a process whose heap and stack have
// been dirtied in between; bitwise digests of all results are compared within the process and, by
// the driver, between processes that differ in memory contents and in the order of operations.
// With -DTWIN each operation runs with both allocators on the same arguments and the results are compared.
// With -DTRACK the tracker must read the same after each operation as before.
// With -DTHREADS the same operations run in several threads under ThreadSanitizer, on distinct objects and on
// shared constant ones, and every thread's digests are compared with a sequential execution.
#include "mat.h"
#include <iomanip>
#include <thread>
#include <atomic>
using namespace mon;
struct Dig { uint64_t h = 99; uint64_t n = 0;
  void raw(const void* p, size_t k) { h = hbytes(p, k, h * 31 + 7); n += k; }
  template <class T> void val(const T& v) { if constexpr (is_cplx<T>::value) { val(v.real()); val(v.imag()); } else { T x = v; raw(&x, sizeof x); } }
  void str(const std::string& s) { raw(s.data(), s.size()); }
  template <class T, class A> void operator()(const susa::matrix<T, A>& m) { val(m.no_rows()); val(m.no_cols()); val(m.size()); for (size_t i = 0; i < m.size(); i++) { T x = m(i); val(x); } }
  template <class T> void operator()(const std::vector<T>& v) { val(v.size()); for (auto x : v) val((T)x); }
  void operator()(susa::bitset& b, size_t n) { for (size_t i = 0; i < n; i++) val(b.exists(i)); val(b.any()); } };
#ifdef TWIN
template <class T, class A> constexpr bool std_only = false;   // both allocators run exactly the same operations
#else
template <class T, class A> constexpr bool std_only = std::is_same_v<A, std::allocator<T>>;
#endif
struct Op { std::string name; std::function<void(Rng&, Dig&)> f; unsigned weight; };
static std::vector<Op> ops; static void reg(const std::string& n, std::function<void(Rng&, Dig&)> f, unsigned weight = 1) { ops.push_back({n, f, weight}); }

template <class T> T val(Rng& r, bool nz = false) { T v; do { if constexpr (is_cplx<T>::value) { using U = typename T::value_type; if constexpr (std::is_floating_point_v<U>) v = T((U)r.gauss(), (U)r.gauss()); else v = small_val<T>(r, 3); } else if constexpr (std::is_floating_point_v<T>) v = r.chance(.2) ? (T)r.range(-3, 3) : (T)r.gauss(); else v = small_val<T>(r, 3); } while (nz && v == T(0)); return v; }
template <class T, class A = std::allocator<T>> susa::matrix<T, A> mk(Rng& r, size_t R, size_t C, bool nz = false) { susa::matrix<T, A> m(R, C); for (size_t i = 0; i < m.size(); i++) m(i) = val<T>(r, nz); return m; }
template <class T, class A = std::allocator<T>> susa::matrix<T, A> any(Rng& r, size_t lim = 9) { size_t R, C; if (lim >= 8 && r.chance(.015)) lim *= 9; rnd_shape(r, R, C, lim); return mk<T, A>(r, R, C); }
template <class T, class A = std::allocator<T>> susa::matrix<T, A> vec(Rng& r, size_t lo = 2, size_t hi = 20) { size_t n = lo + r.below(hi - lo + 1); if (hi >= 12 && r.chance(.02)) n += r.below(400); return r.below(2) ? mk<T, A>(r, n, 1) : mk<T, A>(r, 1, n); }
template <class T, class A = std::allocator<T>> susa::matrix<T, A> colv(Rng& r, size_t lo = 2, size_t hi = 20) { return mk<T, A>(r, lo + r.below(hi - lo + 1), 1); }

template <class T, class A> void matrix_ops(const std::string& t) {
  using M = susa::matrix<T, A>;
  reg("life:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r), b(a), c; c = a; d(b); d(c); M& ca = c; c = ca; d(c); M e(std::move(b)); d(e); d(b); b = e; d(b); c = M(); d(c); M f(2 + r.below(3), 3, T(1)), g(f.shape(), T(0)), h(std::make_tuple((size_t)2, (size_t)3)); d(f); d(g); d.val(h.size()); M s = r.below(2) ? any<T, A>(r) : M(); a = s; d(a); s = std::move(a); d(s); M z(M(3, 2, T(1))); d(z); std::vector<M> v(3, z); v.resize(9, f); v.insert(v.begin(), g); v.erase(v.begin() + 1); for (auto& q : v) d(q); }, 3);
  reg("shape:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r); size_t n = a.size(); std::vector<size_t> div; for (size_t k = 1; k <= n; k++) if (n % k == 0) div.push_back(k); size_t k = div[r.below(div.size())]; d(a.reshape(k, n / k)); d.val(a.resize(n / k, k)); d(a); d.val(a.is_square()); d.val(a.is_vector()); d.val(a.is_scalar()); a.resize(2 + r.below(5), 1 + r.below(5)); a.set_all(T(2)); d(a); d(a.row(r.below(a.no_rows()))); d(a.col(r.below(a.no_cols()))); }, 2);
  reg("view:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r); d(a.row(r.below(a.no_rows()))); d(a.col(r.below(a.no_cols()))); d(a.get_row_as_vec(r.below(a.no_rows()))); d(a.get_col_as_vec(r.below(a.no_cols()))); size_t i = r.below(a.no_rows()), j = r.below(a.no_cols()); d.val((T)a(i, j)); d.val(a.get(i, j)); d.val((T)a(a.size() - 1)); d.val(a.get(a.size() - 1)); if (a.no_rows() > 1 && a.no_cols() > 1) d(a.shrink(i, j)); M v = vec<T, A>(r); d(v.left(1 + r.below(v.size()))); d(v.right(1 + r.below(v.size()))); size_t b = r.below(v.size() - 1); d(v.mid(b, b + 1 + r.below(v.size() - b - 1))); size_t k = 1 + r.below(a.no_cols()), e = a.no_cols() > 1 ? r.below(a.no_cols() - 1) : 0; if (a.no_rows() > 1 && a.no_cols() > 1) { d(a.left(k)); d(a.right(k)); d(a.mid(e, e + 1 + r.below(a.no_cols() - 1 - e))); } }, 3);
  reg("set:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r); a.swap_rows(r.below(a.no_rows()), r.below(a.no_rows())); a.swap_cols(r.below(a.no_cols()), r.below(a.no_cols())); d(a); M b = mk<T, A>(r, 1, a.no_cols()), c = mk<T, A>(r, a.no_rows(), 1); d.val(a.set_row(r.below(a.no_rows()), b)); d.val(a.set_col(r.below(a.no_cols()), c)); d(a); a.set_all(val<T>(r)); a(r.below(a.no_rows()), r.below(a.no_cols())) = val<T>(r); a(r.below(a.size())) = val<T>(r); d(a); }, 2);
  reg("arith:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r), b = mk<T, A>(r, a.no_rows(), a.no_cols(), true); T s = val<T>(r, true); if constexpr (!std::is_unsigned_v<T>) { d(a - b); d(a - s); d(s - a); M c = a; c -= b; d(c); } else { M x = a + b; d(x - b); d(x - T(0)); } d(a + b); d(a + s); d(s + a); d(a * b); d(a * s); d(s * a); d(a / b); d(a / s); M c = a; c += b; d(c); d.val(a == b); d.val(a != b); d.val(c == c); }, 2);
  reg("print:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r, 5); std::ostringstream o; o << std::setprecision(6) << a << M(); d.str(o.str()); }, 1);
  if constexpr (!is_cplx<T>::value) reg("parse:" + t, [](Rng& r, Dig& d) { size_t R, C; rnd_shape(r, R, C, 6); std::string s = r.below(2) ? "[" : ""; for (size_t i = 0; i < R; i++) { if (i) { const char* nl[] = {";", "\n", "\r\n", "; ", ";  ", " ;"}; s += nl[r.below(6)]; } for (size_t j = 0; j < C; j++) { if (j) { const char* sp[] = {" ", ",", "\t", "  ", " , "}; s += sp[r.below(5)]; } s += vstr(val<T>(r)); } } if (s[0] == '[') s += "]"; M a(s), b = any<T, A>(r); d(a); b = s; d(b); b = s.c_str(); d(b); b = ""; d(b); }, 2);
  reg("algebra:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r), b = mk<T, A>(r, a.no_cols(), 1 + r.below(6)), c = mk<T, A>(r, 1 + r.below(4), a.no_cols()), e = mk<T, A>(r, a.no_rows(), 1 + r.below(4)); d(susa::matmul(a, b)); d(susa::transpose(a)); d(susa::concat(a, c)); d(susa::concat(a, e)); d(susa::fliplr(a)); d(susa::flipud(a)); d(susa::eye<T, A>(1 + r.below(6))); d(susa::kron(a, any<T, A>(r, 4))); if constexpr (is_cplx<T>::value) d(susa::hermitian(a)); }, 3);
  reg("signal:" + t, [](Rng& r, Dig& d) { M x = vec<T, A>(r, 1, 12), y = vec<T, A>(r, 1, 12), x2 = vec<T, A>(r, 2, 12); d(susa::conv(x, y)); { M w = any<T, A>(r, 5); d(susa::conv(x2, w)); d(susa::conv(w, x2)); } d(susa::convmtx(x2, 1 + r.below(6))); M tt = vec<T, A>(r, 2, 6), c = vec<T, A>(r, 2, 6); c(0) = tt(0); d(susa::toeplitz(tt)); d(susa::toeplitz(c, tt)); M a = any<T, A>(r); size_t u = 1 + r.below(4); d(susa::upsample(a, u)); d(susa::downsample(susa::upsample(a, u), u)); }, 2);
  reg("reduce:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r, 6); d(susa::sum(a)); d(susa::mean(a)); if constexpr (!is_cplx<T>::value) { d(susa::min(a)); d(susa::max(a)); d(susa::sign(a)); d.val(susa::sign((T)a(0))); d(susa::norm(a)); } if constexpr (is_cplx<T>::value) { d((susa::matrix<std::complex<double>>)a); d((susa::matrix<std::complex<float>>)a); d((susa::matrix<std::complex<int>>)a); d(susa::real(a)); d(susa::imag(a)); d(susa::conj(a)); d(susa::mag(a)); } }, 2);
    reg("detrank:" + t, [](Rng& r, Dig& d) { size_t n = 1 + r.below(5); M a = mk<T, A>(r, n, n); if (r.chance(.3)) for (size_t i = 0; i < n; i++) a(i, r.below(n)) = T(0); if constexpr (!is_cplx<T>::value) d.val(susa::det(a)); d.val(susa::rank(any<T, A>(r, 6))); }, 2);
  if constexpr (!is_cplx<T>::value)
      reg("cast:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r, 5); for (size_t i = 0; i < a.size(); i++) if (a(i) < T(0)) a(i) = (T)-a(i); d((susa::matrix<double>)a); d((susa::matrix<float>)a); d((susa::matrix<int>)a); d((susa::matrix<int8_t>)a); d((susa::matrix<uint8_t>)a); if constexpr (!std::is_same_v<T, bool>) d(susa::to_complex(a)); }, 1);
  if constexpr (std::is_floating_point_v<T>) {
      reg("fft:" + t, [](Rng& r, Dig& d) { size_t n = (size_t)1 << r.below(7); M x = r.below(2) ? mk<T, A>(r, n, 1) : mk<T, A>(r, 1, n), y = any<T, A>(r, 12), z = mk<T, A>(r, 2 * n, 1 + r.below(3)); susa::fft<T, A> f; d(f.radix2(x)); d(f.radix2(z)); d(f.dft(y)); }, 2);
      reg("log:" + t, [](Rng& r, Dig& d) { M a = any<T, A>(r); for (size_t i = 0; i < a.size(); i++) a(i) = std::fabs(a(i)) + T(.001); d(susa::log(a)); d(susa::abs(any<T, A>(r))); if constexpr (std::is_same_v<T, double>) { d(susa::round(a, 1)); d(susa::awgn(a, 3.f)); } }, 1);
  }
    if constexpr (std::is_same_v<T, int> || std::is_same_v<T, double> || std::is_same_v<T, float> || std::is_same_v<T, std::complex<double>>)
      reg("filter:" + t, [](Rng& r, Dig& d) { M b = vec<T, A>(r, 1, 5), a = vec<T, A>(r, 1, 5), x = r.below(2) ? vec<T, A>(r, 1, 30) : any<T, A>(r, 8); a(0) = T(1); if constexpr (std::is_integral_v<T>) { a = M(1, 2, T(1)); a(1) = (T)r.range(-1, 1); } d(susa::filter(b, a, x)); d(susa::filter(b, a, x, 1 + r.below(5))); }, 2);
    if constexpr (!is_cplx<T>::value) reg("array:" + t, [](Rng& r, Dig& d) { size_t a = 1 + r.below(4), b = 1 + r.below(4), c = 1 + r.below(4); susa::array<T, A> x({a, b, c}); T k = T(0); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) for (size_t l = 0; l < c; l++) x(i, j, l) = k = val<T>(r); susa::array<T, A> y = x, z; z = y; y = x; size_t i = r.below(a), j = r.below(b), l = r.below(c); d.val(x.get({i, j, l})); d.val((T)y(i, j, l)); d.val(z.get(std::vector<size_t>{i, j, l})); susa::array<T, A> w(std::move(z)); d.val(w.get(i, j, l)); for (size_t q = 0; q < a * b * c; q++) d.val((T)w(q)); }, 1);
  if constexpr (std_only<T, A>) {
    if constexpr (!is_cplx<T>::value) {
      reg("search:" + t, [](Rng& r, Dig& d) { M v = vec<T>(r); d(susa::sort(v)); d(susa::sort_indices(v)); unsigned k = 1 + (unsigned)r.below(v.size()); d(susa::select_least(v, k)); d(susa::select_most(v, k)); susa::matrix<unsigned> lim(v.size(), 1); for (unsigned i = 0; i < v.size(); i++) lim(i) = i; d(susa::select_limited_least(v, lim, k)); T x = v(r.below(v.size())); auto b = susa::find(v, x); d(b, v.size()); }, 2);
      reg("dijkstra:" + t, [](Rng& r, Dig& d) { size_t n = 1 + r.below(9); M g(n, n, T(0)); for (size_t i = 0; i < g.size(); i++) { T x = val<T>(r); if (r.chance(.5)) g(i) = x < T(0) ? (T)-x : x; } d(susa::dijkstra(g, (unsigned)r.below(n))); }, 2);
      reg("stat:" + t, [](Rng& r, Dig& d) { std::vector<T> v(1 + r.below(20)); for (auto& x : v) x = val<T>(r); if (v.size() > 1) { d.val(susa::var(v)); d.val(susa::stdv(v)); } d.val(susa::mean(v)); d.val(susa::sum(v)); if constexpr (!std::is_unsigned_v<T>) d(susa::diff(v)); std::ostringstream o; o << v << std::make_pair(1, 2.5) << std::make_tuple(1, 'x', 2.5); d.str(o.str()); }, 1);
    }
    if constexpr (std::is_floating_point_v<T>) {
      reg("solve:" + t, [](Rng& r, Dig& d) { size_t n = 1 + r.below(7); M a = mk<T>(r, n, n); for (size_t i = 0; i < n; i++) a(i, i) += (T)(3 * n); M b = r.below(2) ? mk<T>(r, n, 1) : mk<T>(r, 1, n); d(susa::linsolve(a, b)); d(susa::inv(a)); susa::lu<T> l(a); bool ok = l.decompose(); d.val(ok); if (ok) { d(l.get_lower()); d(l.get_upper()); } susa::lup<T> p(a); ok = p.decompose(); d.val(ok); if (ok) { d(p.get_lu()); d(p.get_pivot()); d(p.solve(b)); d(p.invert()); } susa::lup<T> p3(a); d.val(p3.decompose_alt()); d(p3.get_lu()); d(p3.get_pivot()); d(p3.solve(b)); d(p3.invert()); { for (size_t i = n; i > 1; i--) a.swap_rows(i - 1, r.below(i)); susa::lup<T> p4(a), p5(a); ok = p4.decompose_alt(); d.val(ok); if (ok) { d(p4.get_lu()); d(p4.get_pivot()); d(p4.solve(b)); d(p4.invert()); } ok = p5.decompose(); d.val(ok); if (ok) { d(p5.get_lu()); d(p5.solve(b)); d(p5.invert()); } d(susa::linsolve(a, b)); } M s = mk<T>(r, n, n); susa::lu<T> l2(s); d.val(l2.decompose()); M z(n, n, T(0)); susa::lup<T> p2(z); d.val(p2.decompose()); }, 2);
      reg("channel:" + t, [](Rng& r, Dig& d) { M taps = mk<T>(r, 1, 2 + r.below(2)), pam("[-1 1]"); susa::channel<T> ch(taps, pam); M x = mk<T>(r, 3 + r.below(6), 1); for (size_t i = 0; i < x.size(); i++) x(i) = r.below(2) ? 1 : -1; M y = ch.encode_isi(x, (unsigned)r.below(2)); d(y); d(ch.decode_mlse(y, (unsigned)r.below(2))); d(ch.decode_mlse(susa::conv(x, taps))); d(ch.decode_bcjr(y, T(.5))); }, 2);
    }
  }
}
template <class T, class A> void shared_ops(const std::string& t);
template <class T> void both(const char* t) { matrix_ops<T, std::allocator<T>>(t); shared_ops<T, std::allocator<T>>(t); }
template <class T> void logged(const char* t) { matrix_ops<T, susa::allocator_log<T>>(std::string(t) + "/log"); shared_ops<T, susa::allocator_log<T>>(std::string(t) + "/log"); }
template <class T, class A> struct Shared { susa::matrix<T, A> a, b, v, row, e; susa::array<T, A> arr; Shared() : arr({3, 4, 5}) { Rng r(4711); a = mk<T, A>(r, 5, 5); b = mk<T, A>(r, 5, 5, true); v = mk<T, A>(r, 8, 1); row = mk<T, A>(r, 1, 6); for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 4; j++) for (size_t k = 0; k < 5; k++) arr(i, j, k) = val<T>(r); } };
template <class T, class A = std::allocator<T>> const Shared<T, A>& shared() { static const Shared<T, A> s; return s; }
template <class T, class A> void shared_ops(const std::string& t) {
  shared<T, A>();   // constructed before any thread starts
  reg("shared:" + t, [](Rng& r, Dig& d) { const Shared<T, A>& s = shared<T, A>(); size_t i = r.below(5), j = r.below(5);
    switch (r.below(8)) {
      case 0: d.val(s.a(i, j)); d.val(s.a.get(i, j)); d.val(s.a(r.below(25))); d.val(s.a.get(r.below(25))); d(s.a.row(i)); d(s.a.col(j)); d.val(s.a.size() + s.a.no_rows() + s.a.no_cols()); d.val(s.a.is_square()); d.val(s.v.is_vector()); break;
      case 1: d(s.v.left(1 + r.below(8))); d(s.v.right(1 + r.below(8))); d(s.v.mid(1, 2 + r.below(5))); d(s.a.shrink(i, j)); break;
      case 2: { susa::matrix<T, A> c(s.a), x; x = s.b; d(c); d(x); c(i, j) = T(1); x = s.e; d(c); d.val(s.a == s.b); d.val(s.a != s.a); break; }
      case 3: d(s.a + s.b); d(s.a * s.b); d(s.a / s.b); d(s.a + T(1)); d(T(2) * s.a); { susa::matrix<T, A> c(s.a); c += s.b; d(c); } break;
      case 4: d(susa::matmul(s.a, s.b)); d(susa::transpose(s.a)); d(susa::concat(s.a, s.b)); d(susa::fliplr(s.a)); d(susa::flipud(s.a)); d(susa::kron(s.row, s.v)); break;
      case 5: d(susa::conv(s.v, s.row)); d(susa::convmtx(s.v, 4)); d(susa::upsample(s.a, 2)); d(susa::downsample(s.v, 2)); d(susa::sum(s.a)); d(susa::mean(s.a)); break;
      case 6: { std::ostringstream o; o << s.a << s.e; d.str(o.str()); if constexpr (!is_cplx<T>::value) { d(susa::min(s.a)); d(susa::max(s.v)); d(susa::norm(s.v)); } d.val(susa::rank(s.a)); if constexpr (std_only<T, A>) { if constexpr (!is_cplx<T>::value) { d.val(susa::det(s.a)); d(susa::sort(s.v)); d(susa::sort_indices(s.row)); d(susa::select_least(s.v, 3)); d(susa::select_most(s.v, 3)); } if constexpr (std::is_same_v<T, double>) { susa::fft<T> f; d(f.radix2(s.v)); d(f.dft(s.row)); d(susa::round(s.a, 1)); d(susa::awgn(s.v, 3.f)); d(susa::linsolve(s.a, s.a.col(0))); d(susa::inv(s.a)); } if constexpr (std::is_same_v<T, float>) { susa::matrix<float> u, w, z; d.val(susa::svd(s.a, u, w, z)); d(u); d(w); d(z); } } break; }
      default: { d.val(s.arr.get({i % 3, j % 4, i})); d.val(s.arr(i % 3, j % 4, i)); d.val(s.arr.get(std::vector<size_t>{i % 3, j % 4, j})); susa::array<T, A> c(s.arr), x; x = s.arr; x(0, 0, 0) = T(0); d.val((T)c(2, 3, 4)); break; } } }, 4);
}
static void fixed() {
  reg("rng", [](Rng& r, Dig& d) { susa::rng g((unsigned)r.u64()), h, k(g); if (r.below(2)) g.init((unsigned)r.below(9)); d(g.rand(1 + r.below(700))); d(g.rand(1 + r.below(9), 1 + r.below(9))); d(g.randn(1 + r.below(9))); d(g.rand_mask(7, 1 + (unsigned)r.below(9))); d(g.bernoulli(1 + r.below(9))); d.val(g.rand()); d.val(g.randn()); d.val(g.rand_mask(31)); d.val(h.rand()); d.val(k.rand()); }, 3);
  reg("mt", [](Rng& r, Dig& d) { susa::mt g((uint32_t)r.u64()), h; susa::mt k = g; d(g.rand(1 + (unsigned)r.below(700))); d(g.randn(1 + (unsigned)r.below(9))); d(g.rand_mask(7, 1 + (unsigned)r.below(9))); d.val(g.rand_mask(3)); d.val(g.randint(1 + (unsigned)r.below(99))); d.val(g.bernoulli(.3)); susa::matrix<double> p("[0.1 0.2 0.7]"); d.val(g.nonuniform(p)); d(g.nonuniform(p, 5)); susa::mt q(5); q.set_probabilities(p); d.val(q.nonuniform()); d.val(q.nonuniform()); d.val(h.randint(99)); d.val(k.randint(99)); }, 3);
  reg("ccode", [](Rng& r, Dig& d) { susa::ccode e(2, 1, 2); e.set_generator(7, 0); e.set_generator(5, 1); susa::matrix<uint8_t> b(4 + r.below(9), 1); for (size_t i = 0; i < b.size(); i++) b(i) = (uint8_t)r.below(2); b(b.size() - 1) = b(b.size() - 2) = 0; auto c = e.encode(b); d(c); susa::ccode f(e); d(f.encode(b)); susa::matrix<double> y(c.size(), 1); for (size_t i = 0; i < y.size(); i++) y(i) = (c(i) ? 1. : -1.) + .5 * r.gauss(); d(e.decode_bcjr(y, .7)); d(e.decode_bcjr(y, .7, .3)); for (uint32_t s = 0; s < 4; s++) { d.val(e.next_state(s, true)); d.val(e.next_output(s, false)); } d.val(e.rate()); susa::ccode n; susa::ccode m3(3, 1, 4); for (unsigned i = 0; i < 3; i++) m3.set_generator(31 - 2 * i > 27 ? 27 : 25, i); d(m3.encode(b)); d.val(m3.rate()); }, 3);
  reg("ccode_fresh", [](Rng& r, Dig& d) { susa::ccode e(2, 1, 3); e.set_generator(15, 0); e.set_generator(17, 1); e.set_internal_state((uint32_t)r.below(8)); bool in = r.below(2); d.val(e.next_state((uint32_t)r.below(8), in)); d.val(e.next_output((uint32_t)r.below(8), in)); susa::ccode n(1, 1, 1); d(n.encode(susa::matrix<uint8_t>(3, 1, 1))); }, 1);
  reg("mt_draws", [](Rng& r, Dig& d) { susa::mt g((uint32_t)r.u64()), h; for (int i = 0; i < 3; i++) { d.val(g.rand_mask(~0u)); d.val(g.randint(7)); } susa::matrix<double> p(2 + r.below(6), 1); double t = 0; for (size_t i = 0; i < p.size(); i++) t += p(i) = .1 + r.unit(); for (size_t i = 0; i < p.size(); i++) p(i) /= t * (r.below(3) ? 1 : 1.5); g.set_probabilities(p); d(g.nonuniform(1 + (unsigned)r.below(30))); d.val(g.nonuniform(p)); d(g.nonuniform(p, 1 + (unsigned)r.below(30))); d.val(h.randint(9)); susa::mt k(g); d.val(k.nonuniform()); }, 2);
  reg("ccode_any", [](Rng& r, Dig& d) { uint32_t n = 1 + (uint32_t)r.below(4), m = 1 + (uint32_t)r.below(6); susa::ccode e(n, 1, m); for (uint32_t j = 0; j < n; j++) { uint32_t o = 0, x = (uint32_t)r.below(2u << m), f = 1; while (x) { o += (x & 7) * f; x >>= 3; f *= 10; } e.set_generator(o, j); } susa::matrix<uint8_t> b(m + 1 + r.below(30), 1); for (size_t i = 0; i < b.size(); i++) b(i) = i + m < b.size() ? (uint8_t)r.below(2) : 0; auto c = e.encode(b); d(c); for (uint32_t q = 0; q < 4; q++) { uint32_t st = (uint32_t)r.below(1u << m); d.val(e.next_state(st, q & 1)); d.val(e.next_output(st, !(q & 1))); } susa::matrix<double> y(c.size(), 1); for (size_t i = 0; i < y.size(); i++) y(i) = (c(i) ? 1. : -1.) + r.gauss(); d(e.decode_bcjr(y, .5, r.uni(.2, .8))); }, 2);
  reg("print_narrow", [](Rng& r, Dig& d) { std::ostringstream o; o << any<char>(r, 4) << any<int8_t>(r, 4) << any<uint8_t>(r, 4) << any<std::complex<int8_t>>(r, 4) << any<std::complex<uint8_t>>(r, 4) << any<std::complex<double>>(r, 4); d.str(o.str()); }, 1);
  reg("parse_odd", [](Rng& r, Dig& d) { const char* L[] = {"1 x 2", "[1,2;3,4", "", "[]", " ", "7", "-", "1e400 2", "1;2;", "\n3\n"}; const char* t = L[r.below(10)]; d(susa::matrix<double>(std::string(t))); d(susa::matrix<int>(std::string(t))); susa::matrix<float> f = any<float>(r); f = t; d(f); }, 1);
  struct Blk : susa::memory<int> { Blk() {} Blk(const Blk&) = default; Blk(Blk&&) = default; Blk& operator=(const Blk&) = default; void get(size_t n) { allocate(n); for (size_t i = 0; i < n; i++) _matrix[i] = (int)i; } void drop() { deallocate(); } long sum() const { long t = 0; for (size_t i = 0; i < size(); i++) t += _matrix[i]; return t; } };
  reg("memory", [](Rng& r, Dig& d) { auto show = [&](const Blk& m) { d.val(m.size()); d.val(m.sum()); }; Blk a; a.get(1 + r.below(9)); Blk b(a), c, e(std::move(b)); show(a); show(b); show(e); c = a; show(c); c = b; show(c); c = e; show(c); Blk f(b); show(f); c = f; c.get(1 + r.below(99)); show(c); c.get(1 + r.below(99)); show(c); c.drop(); show(c); }, 1);
  reg("modulation", [](Rng& r, Dig& d) { susa::qam q(1u << (1 + r.below(6))); d(q.get_constellation()); d.val(q.get_noise_deviation(r.uni(-5, 15))); d.val(q.demodulate_symbol({r.gauss(), r.gauss()})); susa::matrix<uint8_t> b(1 + r.below(9), 1 + r.below(9)); for (size_t i = 0; i < b.size(); i++) b(i) = (uint8_t)r.below(3); d(susa::bpsk(b)); d(susa::awgn(any<double>(r), 3.f)); d(susa::awgn(any<std::complex<double>>(r), 3.f, 2)); }, 3);
  reg("rrcosine", [](Rng& r, Dig& d) { susa::rrcosine f(1 + (unsigned)r.below(8), r.unit(), 1 + 2 * (int)r.below(20)); d(f.get()); }, 2);
  reg("bitset", [](Rng& r, Dig& d) { size_t n = 1 + r.below(200); susa::bitset b(n); d(b, n); for (int i = 0; i < 20; i++) { size_t k = r.below(n); switch (r.below(6)) { case 0: case 1: b.set(k); break; case 2: b.reset(k); break; case 3: b.push(k); break; case 4: d.val(b.pop()); break; default: if (r.chance(.2)) b.set(); else if (r.chance(.2)) b.reset(); } } d(b, n + 9); susa::bitset c(b), e(3); e = b; d(c, n); d(e, n); while (c.any()) d.val(c.pop()); }, 3);
  reg("svd", [](Rng& r, Dig& d) { auto a = any<float>(r, 8); if (r.chance(.2)) a.set_all(1); if (r.chance(.1)) a.set_all(0); susa::matrix<float> u, s, v; d.val(susa::svd(a, u, s, v)); d(u); d(s); d(v); susa::matrix<float> u2(3, 2, 7.f), s2(9, 1, 5.f), v2 = a; d.val(susa::svd(a, u2, s2, v2)); d(u2); d(s2); d(v2); }, 4);
  reg("round", [](Rng& r, Dig& d) { auto a = any<double>(r); int k = (int)r.range(-1, 4); d(susa::round(a, k)); d(susa::round(a)); d.val(susa::round(r.gauss() * 100, k)); d.val(susa::normcdf(r.gauss() * 3)); d.val(susa::qfunc(r.gauss() * 3)); d.val(susa::mod(r.range(-99, 99), r.range(1, 20))); d.val(susa::pow((unsigned)r.below(9), (unsigned)r.below(9))); d.val(susa::pow((int)r.range(-5, 5), (unsigned)r.below(9))); d.val(susa::log2((uint8_t)(1 + r.below(255)))); d.val(susa::log2((unsigned long)(1 + r.u64() / 2))); }, 2);
  reg("tracker", [](Rng& r, Dig& d) { size_t b0 = susa::memory_tacker::instance().read(); { susa::matrix<double, susa::allocator_log<double>> a(1 + r.below(9), 1 + r.below(9)), c = a; d.val(susa::memory_tacker::instance().read() - b0); } d.val(susa::memory_tacker::instance().read() - b0); susa::tic(); (void)susa::toc(); d.val(susa::timestamp().size() > 0); }, 1);
}
__attribute__((noinline)) static void dirty(uint64_t k) { volatile unsigned char buf[40000]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char)(k * 17 + i * 3 + 1); void* p[24]; size_t sz[24]; for (int i = 0; i < 24; i++) { sz[i] = 8u << (i % 10); p[i] = malloc(sz[i]); memset(p[i], (int)(k * 29 + i) | 1, sz[i]); } for (int i = 0; i < 24; i++) free(p[i]); }
int main(int argc, char** argv) {
  init(argc, argv); int ORDER = 0; for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--order")) ORDER = atoi(argv[i + 1]);
#ifndef TWIN
  if (PART(0)) { both<double>("double"); fixed(); } if (PART(1)) { both<float>("float"); both<int>("int"); } if (PART(2)) { both<std::complex<double>>("cdouble"); both<std::complex<float>>("cfloat"); both<std::complex<int>>("cint"); }
  if (PART(3)) { both<int8_t>("int8"); both<uint8_t>("uint8"); } if (PART(4)) { both<int16_t>("int16"); both<unsigned>("unsigned"); } if (PART(5)) { both<long>("long"); both<size_t>("size_t"); both<uint16_t>("uint16"); } if (PART(6)) { logged<double>("double"); logged<int>("int"); logged<std::complex<double>>("cdouble"); }
#endif
#ifdef TWIN
  if (PART(0)) { both<double>("double"); logged<double>("double"); both<int8_t>("int8"); logged<int8_t>("int8"); } if (PART(1)) { both<int>("int"); logged<int>("int"); both<size_t>("size_t"); logged<size_t>("size_t"); } if (PART(2)) { both<std::complex<double>>("cdouble"); logged<std::complex<double>>("cdouble"); both<float>("float"); logged<float>("float"); }
  std::map<std::string, size_t> at; for (size_t o = 0; o < ops.size(); o++) at[ops[o].name] = o;
  uint64_t nt = N(500, 15); for (uint64_t c = 0; c < nt; c++) for (auto& p : at) { auto q = at.find(p.first + "/log"); if (q == at.end()) continue; if (!turn()) continue;
    begin("twin:" + p.first, "case " + std::to_string(c) + " of operation group " + p.first + " with either allocator"); Dig a, b; { Rng r = case_rng(p.first.c_str(), c); ops[p.second].f(r, a); } { Rng r = case_rng(p.first.c_str(), c); ops[q->second].f(r, b); }
    if (a.h != b.h || a.n != b.n) violation("allocator:" + p.first, "the logging allocator and the standard one gave different results (" + std::to_string(a.n) + " and " + std::to_string(b.n) + " result bytes)"); seen(a.h, a.n > 8); }
  return finish();
#endif
#ifdef THREADS
  // process-wide by documentation: the tracker reads all threads' bytes, tic/toc are one stop watch
  std::vector<Op> sel; for (auto& o : ops) if (o.name != "tracker") sel.push_back(o); std::atomic<uint64_t> ticket{0}; const std::memory_order rx = std::memory_order_relaxed;
  auto round = [&](const std::string& kind, const std::vector<std::vector<std::pair<size_t, uint64_t>>>& plan) {
    size_t nt = plan.size(); std::vector<std::vector<uint64_t>> got(nt), when(nt); std::atomic<size_t> ready{0}; std::vector<std::thread> th; ticket.store(0, rx);
    for (size_t k = 0; k < nt; k++) th.emplace_back([&, k] { ready.fetch_add(1, rx); while (ready.load(rx) < nt) std::this_thread::yield(); Rng j(mix(k) ^ plan[k].size()); for (auto& p : plan[k]) { Dig d; Rng r = case_rng(sel[p.first].name.c_str(), p.second); if (j.chance(.2)) std::this_thread::yield(); if (j.chance(.02)) usleep((unsigned)j.below(60)); when[k].push_back(ticket.fetch_add(1, rx)); sel[p.first].f(r, d); when[k].push_back(ticket.fetch_add(1, rx)); got[k].push_back(d.h); } });
    for (auto& t : th) t.join();
    uint64_t sched = hstr(kind.c_str()), overl = 0, tot = 0; for (auto& w : when) { sched = hvec(w, sched); for (size_t i = 0; i + 1 < w.size(); i += 2) { tot++; overl += w[i + 1] != w[i] + 1; } }
    for (size_t k = 0; k < nt; k++) for (size_t i = 0; i < plan[k].size(); i++) { Dig d; auto& p = plan[k][i]; Rng r = case_rng(sel[p.first].name.c_str(), p.second); sel[p.first].f(r, d); if (d.h != got[k][i]) violation("concurrent:" + sel[p.first].name, "thread " + std::to_string(k) + " of " + std::to_string(nt) + " obtained a result that differs from the sequential one (case " + std::to_string(p.second) + ")"); }
    stat_add("n_operations", (double)tot); stat_add("n_overlapped", (double)overl); seen(sched, nt > 1 && overl > 0); };
  uint64_t rounds = N(3, 10), mixed = N(60, 20); size_t turn_ = 0;
  for (uint64_t c = 0; c < rounds; c++) for (size_t o = 0; o < sel.size(); o++) { if (turn_++ % S().nshard != S().shard) continue; size_t nt = 2 + (c + o) % 5; begin("same:" + sel[o].name, std::to_string(nt) + " threads, round " + std::to_string(c)); std::vector<std::vector<std::pair<size_t, uint64_t>>> plan(nt); for (size_t k = 0; k < nt; k++) for (int i = 0; i < 4; i++) plan[k].push_back({o, c * 1000 + k * 10 + (uint64_t)i}); round("same:" + sel[o].name, plan); }
  for (uint64_t c = 0; c < mixed; c++) { if (turn_++ % S().nshard != S().shard) continue; Rng r = case_rng("mixed", c); size_t nt = 2 + r.below(7); begin("mixed", std::to_string(nt) + " threads, round " + std::to_string(c)); std::vector<std::vector<std::pair<size_t, uint64_t>>> plan(nt); for (auto& p : plan) for (int i = 0; i < 30; i++) p.push_back({r.below(sel.size()), r.below(100000)}); round("mixed", plan); }
  return finish();
#endif
  uint64_t n = N(120, 15); struct Item { size_t op; uint64_t c; }; std::vector<Item> items; for (uint64_t c = 0; c < n; c++) for (size_t o = 0; o < ops.size(); o++) for (unsigned w = 0; w < ops[o].weight; w++) items.push_back({o, c * ops[o].weight + w});
  size_t id = 0; std::vector<std::pair<size_t, Item>> mine; for (auto& it : items) { if (id % S().nshard == S().shard) mine.push_back({id, it}); id++; } items.clear();
  if (ORDER == 1) std::reverse(mine.begin(), mine.end());
  if (ORDER == 2) for (size_t i = mine.size(); i > 1; i--) std::swap(mine[i - 1], mine[mix(i) % i]);
  std::map<std::string, uint64_t> acc; uint64_t bytes = 0;
  for (auto& m : mine) { const Op& o = ops[m.second.op]; S().turn_no = m.first; begin(o.name, "case " + std::to_string(m.second.c) + " of operation group " + o.name);
#ifdef TRACK
    size_t held = susa::memory_tacker::instance().read();
#endif
    Dig a, b; { Rng r = case_rng(o.name.c_str(), m.second.c); o.f(r, a); }
#ifdef TRACK
    if (susa::memory_tacker::instance().read() != held) violation("tracker:" + o.name, "the tracker reads " + std::to_string(susa::memory_tacker::instance().read()) + " after all objects of the case are gone, " + std::to_string(held) + " before");
#endif
    dirty(m.first); { Rng r = case_rng(o.name.c_str(), m.second.c); o.f(r, b); }
    if (a.h != b.h || a.n != b.n) violation("repeat:" + o.name, "two executions with the same arguments in one process gave different results"); acc[o.name] += mix(a.h); bytes += a.n; seen(a.h, a.n > 8); }
  for (auto& p : acc) S().stats["dig:" + p.first] = (double)(p.second >> 12); stat_add("n_result_bytes", (double)bytes);
  return finish();
}
