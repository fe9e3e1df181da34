// Bridge between susa matrices and the oracle's own plain model of them.
#ifndef MON_MAT_H
#define MON_MAT_H
#include <susa.h>
#include "mon.h"
namespace mon {

// oracle-side matrix: explicit shape, column-major vector
template <class T> struct Mod {
  size_t r = 0, c = 0; std::vector<T> v;
  Mod() {}
  Mod(size_t r_, size_t c_, T x = T()) : r(r_), c(c_), v(r_ * c_, x) {}
  T& at(size_t i, size_t j) { return v[i + j * r]; }
  const T& at(size_t i, size_t j) const { return v[i + j * r]; }
  size_t size() const { return v.size(); }
};
template <class T> struct Mod<std::vector<T>>;

template <class T, class A = std::allocator<T>> susa::matrix<T, A> to_susa(const Mod<T>& m) {
  if (m.size() == 0) return susa::matrix<T, A>();
  susa::matrix<T, A> x(m.r, m.c);
  for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) x(i, j) = m.at(i, j);
  return x;
}
template <class T, class A> Mod<T> from_susa(const susa::matrix<T, A>& x) {
  Mod<T> m; m.r = x.no_rows(); m.c = x.no_cols(); size_t n = x.size(); m.v.resize(n);
  for (size_t i = 0; i < n; i++) m.v[i] = x(i);
  return m;
}
template <class T> bool eq(const Mod<T>& a, const Mod<T>& b) {
  if (a.r != b.r || a.c != b.c || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++) if (!same<T>(a.v[i], b.v[i])) return false;
  return true;
}
template <class T> std::string mstr(const Mod<T>& m) { std::ostringstream o; o << m.r << "x" << m.c << "[col-major " << vecstr(std::vector<T>(m.v.begin(), m.v.end()), 40) << "]"; return o.str(); }
template <> inline std::string mstr<bool>(const Mod<bool>& m) { std::ostringstream o; o << m.r << "x" << m.c; return o.str(); }
template <class T> uint64_t hmod(const Mod<T>& m) { return hvec(m.v, m.r * 1000003 + m.c); }

// compare a susa matrix with the model through every public read path
template <class T, class A> bool matches(const susa::matrix<T, A>& x, const Mod<T>& m, std::string* why = nullptr) {
  std::ostringstream o;
  size_t n = m.size();
  if (x.no_rows() != m.r || x.no_cols() != m.c) { if (why) { o << "shape " << x.no_rows() << "x" << x.no_cols() << " instead of " << m.r << "x" << m.c; *why = o.str(); } return false; }
  if (x.size() != n) { if (why) { o << "size() " << x.size() << " instead of " << n; *why = o.str(); } return false; }
  for (size_t i = 0; i < n; i++) { T g = x(i); if (!same<T>(g, m.v[i])) { if (why) { o << "element " << i << " is " << vstr(g) << " instead of " << vstr(m.v[i]) << " of " << mstr(m); *why = o.str(); } return false; } }
  return true;
}
// the complete observation: all access paths and predicates agree with the model
template <class T, class A> bool agrees(susa::matrix<T, A>& x, const Mod<T>& m, std::string* why) {
  if (!matches(x, m, why)) return false;
  const susa::matrix<T, A>& k = x; std::ostringstream o;
  auto sh = k.shape();
  if (std::get<0>(sh) != m.r || std::get<1>(sh) != m.c) { *why = "shape() disagrees"; return false; }
  if (k.is_square() != (m.r == m.c)) { *why = "is_square() wrong"; return false; }
  bool vec = (m.r == 1 && m.c > 1) || (m.c == 1 && m.r > 1);
  if (k.is_vector() != vec) { *why = "is_vector() wrong"; return false; }
  if (k.is_scalar() != (m.r == 1 && m.c == 1)) { *why = "is_scalar() wrong"; return false; }
  for (size_t j = 0; j < m.c; j++) for (size_t i = 0; i < m.r; i++) {
    const T& w = m.at(i, j); size_t l = i + j * m.r;
    if (!same<T>(k(i, j), w) || !same<T>(k.get(i, j), w) || !same<T>(x(i, j), w) || !same<T>(k(l), w) || !same<T>(k.get(l), w) || !same<T>(x(l), w)) { o << "access path disagrees at (" << i << "," << j << ") expected " << vstr(w); *why = o.str(); return false; }
  }
  return true;
}
template <class T> Mod<T> rnd_mod(Rng& r, size_t rows, size_t cols, int lim = 9) { Mod<T> m(rows, cols); for (auto&& x : m.v) x = small_val<T>(r, lim); return m; }
template <class T> Mod<T> any_mod(Rng& r, size_t rows, size_t cols) { Mod<T> m(rows, cols); for (auto&& x : m.v) x = any_val<T>(r); return m; }
// shapes: scalars, vectors, rectangular; occasionally large
inline void rnd_shape(Rng& r, size_t& a, size_t& b, size_t lim = 8) {
  switch (r.below(9)) { case 0: a = b = 1; break; case 1: a = 1; b = 1 + r.below(lim * 3); break; case 2: b = 1; a = 1 + r.below(lim * 3); break;
    case 3: a = b = 1 + r.below(lim); break; case 4: a = 1 + r.below(lim * 5); b = 1 + r.below(4); break; case 5: a = 1 + r.below(4); b = 1 + r.below(lim * 5); break; default: a = 1 + r.below(lim); b = 1 + r.below(lim); } }
} // namespace mon
#endif
