// M02: element access, views, slices, swaps and writes against the column-major model.
#include "mat.h"
using namespace mon;

template <class T, class A> void one(Rng& r, const std::string& kind) {
  using M = susa::matrix<T, A>;
  size_t a, b; rnd_shape(r, a, b, 9); if (r.chance(0.02)) { a = 1 + r.below(300); b = 1 + r.below(120); } if (r.chance(0.003)) { switch (r.below(4)) { case 0: a = 1; b = 66000 + r.below(3000); break; case 1: a = 66000 + r.below(3000); b = 1; break; case 2: a = 2 + r.below(3); b = 33000; break; default: a = b = 257 + r.below(40); } }
  Mod<T> m = any_mod<T>(r, a, b); bool distinct = r.below(3) == 0;
  if (distinct) for (size_t i = 0; i < m.size(); i++) { if constexpr (is_cplx<T>::value) m.v[i] = T((typename T::value_type)(i % 100), (typename T::value_type)(i / 100 % 100)); else m.v[i] = (T)i; }
  uint64_t sig = hmod(m); std::string what = mstr(m); begin(kind, what);
  M x = to_susa<T, A>(m); const M& k = x; std::string why;
#define BAD(key, det) do { std::ostringstream o_; o_ << det; violation(std::string(key) + ":" + tn<T>(), o_.str() + " on " + what); return; } while (0)
#define SAME_SRC(op) if (!matches(x, m, &why)) BAD(std::string("source_changed:") + op, why)
  if (!agrees(x, m, &why)) BAD("access", why);
  // references written through one path are seen through the other
  for (int t = 0; t < 4; t++) { size_t i = r.below(a), j = r.below(b); T v = any_val<T>(r); m.at(i, j) = v; if (r.below(2)) x(i, j) = v; else x(i + j * a) = v; if (&x(i, j) != &x(i + j * a)) BAD("alias", "(" << i << "," << j << ") and linear index address different elements"); }
  if (!agrees(x, m, &why)) BAD("write", why);
  // rows and columns
  for (size_t i = 0; i < a; i++) { if (a > 12 && r.below(a / 3)) continue; Mod<T> w(1, b); for (size_t j = 0; j < b; j++) w.at(0, j) = m.at(i, j); if (!matches(k.row(i), w, &why)) BAD("row", "row(" << i << "): " << why);
    auto v = x.get_row_as_vec(i); if (std::vector<T>(v) != w.v && hvec(v) != hvec(w.v)) BAD("row_as_vec", "get_row_as_vec(" << i << ") = " << vecstr(v)); }
  for (size_t j = 0; j < b; j++) { if (b > 12 && r.below(b / 3)) continue; Mod<T> w(a, 1); for (size_t i = 0; i < a; i++) w.at(i, 0) = m.at(i, j); if (!matches(k.col(j), w, &why)) BAD("col", "col(" << j << "): " << why);
    auto v = x.get_col_as_vec(j); if (std::vector<T>(v) != w.v && hvec(v) != hvec(w.v)) BAD("col_as_vec", "get_col_as_vec(" << j << ") = " << vecstr(v)); }
  SAME_SRC("row/col");
  // slices: of a vector along its length, otherwise of columns
  bool vec = (a == 1) != (b == 1); size_t len = vec ? a * b : b;
  auto slice = [&](size_t from, size_t n) { Mod<T> w; if (vec) { w = a == 1 ? Mod<T>(1, n) : Mod<T>(n, 1); for (size_t i = 0; i < n; i++) w.v[i] = m.v[from + i]; } else { w = Mod<T>(a, n); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < n; j++) w.at(i, j) = m.at(i, from + j); } return w; };
  for (int t = 0; t < 3; t++) {
    size_t n = t == 0 ? len : 1 + r.below(len);
    if (!matches(k.left(n), slice(0, n), &why)) BAD("left", "left(" << n << "): " << why);
    if (!matches(k.right(n), slice(len - n, n), &why)) BAD("right", "right(" << n << "): " << why);
    if (len >= 2) { size_t e = 1 + r.below(len - 1), s = r.below(e); if (t == 0) { s = 0; e = len - 1; } if (!matches(k.mid(s, e), slice(s, e - s + 1), &why)) BAD("mid", "mid(" << s << "," << e << "): " << why); }
  }
  SAME_SRC("slice");
  if (a > 1 && b > 1) for (int t = 0; t < 3; t++) {
    size_t er = t == 0 ? a - 1 : r.below(a), ec = t == 0 ? b - 1 : r.below(b); Mod<T> w(a - 1, b - 1);
    for (size_t i = 0, p = 0; i < a; i++) { if (i == er) continue; for (size_t j = 0, q = 0; j < b; j++) { if (j == ec) continue; w.at(p, q++) = m.at(i, j); } p++; }
    if (!matches(k.shrink(er, ec), w, &why)) BAD("shrink", "shrink(" << er << "," << ec << "): " << why);
  }
  SAME_SRC("shrink");
  { size_t n = m.size(); std::vector<size_t> d; for (size_t q = 1; q <= n && q < 400; q++) if (n % q == 0) d.push_back(q); size_t q = d[r.below(d.size())]; Mod<T> w = m; w.r = q; w.c = n / q; if (!matches(x.reshape(q, n / q), w, &why)) BAD("reshape", "reshape(" << q << "," << n / q << "): " << why); }
  SAME_SRC("reshape");
  // mutators change exactly what they name
  for (int t = 0; t < 6; t++) {
    size_t i = r.below(a), j = r.below(b), i2 = r.below(a), j2 = r.below(b); if (r.chance(0.3)) { i = a - 1; j = b - 1; } std::ostringstream op;
    if (t == 0 && b == 1) { bool ok = x.set_col(0, x); op << "set_col(0) with itself"; if (!ok || !matches(x, m, &why)) BAD("set_col_self", why); } if (t == 0 && a == 1) { bool ok = x.set_row(0, x); op << "set_row(0) with itself"; if (!ok || !matches(x, m, &why)) BAD("set_row_self", why); }
    switch (r.below(6)) {
      case 0: { size_t extra = r.below(3) == 0 ? r.below(4) : 0; Mod<T> s = any_mod<T>(r, 1, b + extra); if (r.below(2)) std::swap(s.r, s.c); M sx = to_susa<T, A>(s); bool ok = x.set_row(i, sx); op << "set_row(" << i << ")"; if (!ok) BAD("set_row_ret", "set_row returned false"); for (size_t q = 0; q < b; q++) m.at(i, q) = s.v[q]; if (!matches(sx, s, &why)) BAD("set_row_arg", why); break; }
      case 1: { size_t extra = r.below(3) == 0 ? r.below(4) : 0; Mod<T> s = any_mod<T>(r, a + extra, 1); if (r.below(2)) std::swap(s.r, s.c); M sx = to_susa<T, A>(s); bool ok = x.set_col(j, sx); op << "set_col(" << j << ")"; if (!ok) BAD("set_col_ret", "set_col returned false"); for (size_t q = 0; q < a; q++) m.at(q, j) = s.v[q]; if (!matches(sx, s, &why)) BAD("set_col_arg", why); break; }
      case 2: op << "swap_rows(" << i << "," << i2 << ")"; x.swap_rows(i, i2); for (size_t q = 0; q < b; q++) std::swap(m.at(i, q), m.at(i2, q)); break;
      case 3: op << "swap_cols(" << j << "," << j2 << ")"; x.swap_cols(j, j2); for (size_t q = 0; q < a; q++) std::swap(m.at(q, j), m.at(q, j2)); break;
      case 4: if (r.below(3)) continue; { T v = any_val<T>(r); op << "set_all"; x.set_all(v); for (auto&& q : m.v) q = v; } break;
      case 5: { T v = any_val<T>(r); op << "write(" << i << "," << j << ")"; x(i, j) = v; m.at(i, j) = v; break; }
    }
    if (!matches(x, m, &why)) BAD("mutate:" + op.str().substr(0, op.str().find('(')), op.str() << ": " << why);
  }
  seen(sig, a * b > 1);
}
template <class T, class A = std::allocator<T>> void run(const char* an, uint64_t n) {
  std::string kind = std::string("views:") + tn<T>() + an;
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); begin(kind, ""); one<T, A>(r, kind); }
}
#ifdef HUGE_MATRIX
// a matrix of more than 2^32 elements (its memory is only mapped where it is touched)
template <class T> static void huge(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("huge", c); size_t a, b; switch (r.below(3)) { case 0: a = 65537 + r.below(5); b = 65600 + r.below(100); break; case 1: a = ((size_t)1 << 32) + 5 + r.below(5); b = 1 + r.below(2); break; default: a = 1 + r.below(2); b = ((size_t)1 << 32) + 5 + r.below(5); }
    std::string what = std::to_string(a) + "x" + std::to_string(b); begin(std::string("huge:") + tn<T>(), what); susa::matrix<T> x(a, b); const susa::matrix<T>& k = x; std::map<size_t, T> m; uint64_t sig = hbytes(what.data(), what.size(), c);
    if (x.no_rows() != a || x.no_cols() != b || x.size() != a * b) { violation("huge_shape", std::to_string(x.no_rows()) + "x" + std::to_string(x.no_cols()) + " size " + std::to_string(x.size()) + " instead of " + what); continue; }
    auto& base = x(0); bool ok = true; auto at = [&](size_t i, size_t j) { auto f = m.find(i + j * a); return f == m.end() ? k(i, j) : f->second; };  // untouched elements may hold anything
    auto idx = [&](size_t lim) { return r.below(3) == 0 ? lim - 1 - r.below(std::min<size_t>(lim, 4)) : r.below(2) ? r.below(lim) : std::min(lim - 1, r.below(4)); };
    for (int q = 0; q < 200 && ok; q++) { size_t i = idx(a), j = idx(b); T v = any_val<T>(r); switch (r.below(3)) { case 0: x(i, j) = v; break; case 1: x(i + j * a) = v; break; default: break; case 2: { x(i, j) = v; } } m[i + j * a] = v;
      for (auto& e : m) if (!same<T>(k(e.first), e.second) || !same<T>(k(e.first % a, e.first / a), e.second) || !same<T>(k.get(e.first), e.second) || !same<T>(k.get(e.first % a, e.first / a), e.second) || &x(e.first) != &base + e.first || &x(e.first % a, e.first / a) != &base + e.first) { violation("huge_access", "element (" + std::to_string(e.first % a) + "," + std::to_string(e.first / a) + ") of " + what + " after writing (" + std::to_string(i) + "," + std::to_string(j) + ")"); ok = false; break; } stat_add("n_huge_writes", 1); }
    bool small_row = b < 100000, small_col = a < 100000; // only slices that fit
    for (int q = 0; q < 6 && ok; q++) { size_t i = idx(a), j = idx(b), i2 = idx(a), j2 = idx(b); if (m.size()) { auto it = m.begin(); std::advance(it, r.below(m.size())); i = it->first % a; j = it->first / a; }
      auto bad = [&](const char* op) { violation(std::string("huge_") + op, std::string(op) + " at (" + std::to_string(i) + "," + std::to_string(j) + ") of " + what); ok = false; };
      if (small_row) { auto y = k.row(i); auto v = x.get_row_as_vec(i); if (y.no_rows() != 1 || y.no_cols() != b || v.size() != b) { bad("row_shape"); break; } for (size_t t = 0; t < b; t++) if (!same<T>(y(t), at(i, t)) || !same<T>(v[t], at(i, t))) { bad("row"); break; }
        if (ok) { susa::matrix<T> s(1, b); for (size_t t = 0; t < b; t++) { s(t) = any_val<T>(r); m[i2 + t * a] = s(t); } if (!x.set_row(i2, s)) bad("set_row"); if (b > 1000) { for (size_t t = 0; t < b; t++) if (!same<T>(k(i2, t), s(t))) { bad("set_row"); break; } for (size_t t = 0; t < b; t++) if (t % 5000) { x(i2, t) = T(0); m.erase(i2 + t * a); } } }
        if (ok) { std::vector<T> p, q2; for (size_t t = 0; t < b; t++) { p.push_back(at(i, t)); q2.push_back(at(i2, t)); } x.swap_rows(i, i2); if (i != i2) for (size_t t = 0; t < b; t++) { auto put = [&](size_t l, T v) { if (b < 10 || t % 5000 == 0 || m.count(l) || v != T(0)) m[l] = v; }; put(i + t * a, q2[t]); put(i2 + t * a, p[t]); } } }
      if (small_col && ok) { auto y = k.col(j); auto v = x.get_col_as_vec(j); if (y.no_rows() != a || y.no_cols() != 1 || v.size() != a) { bad("col_shape"); break; } for (size_t t = 0; t < a; t++) if (!same<T>(y(t), at(t, j)) || !same<T>(v[t], at(t, j))) { bad("col"); break; }
        if (ok) { std::vector<T> p, q2; for (size_t t = 0; t < a; t++) { p.push_back(at(t, j)); q2.push_back(at(t, j2)); } x.swap_cols(j, j2); if (j != j2) for (size_t t = 0; t < a; t++) { auto put = [&](size_t l, T v) { if (a < 10 || t % 5000 == 0 || m.count(l) || v != T(0)) m[l] = v; }; put(t + j * a, q2[t]); put(t + j2 * a, p[t]); } }
        if (ok) { bool vec = a == 1; size_t w = 1 + r.below(5), L = b; (void)vec; auto R = k.right(w); if (R.no_rows() != a || R.no_cols() != w) { bad("right_shape"); break; } for (size_t t = 0; t < a * w; t++) if (!same<T>(R(t), at(t % a, L - w + t / a))) { bad("right"); break; } auto Lf = k.left(w); for (size_t t = 0; t < a * w && ok; t++) if (!same<T>(Lf(t), at(t % a, t / a))) { bad("left"); break; } size_t s = r.below(2) ? L - 2 - w : r.below(L - w - 2); auto Md = k.mid(s, s + w); for (size_t t = 0; t < a * (w + 1) && ok; t++) if (!same<T>(Md(t), at(t % a, s + t / a))) { bad("mid"); break; } } }
      for (auto& e : m) if (ok && !same<T>(k(e.first), e.second)) bad("contents"); }
    { susa::matrix<T> y(std::move(x)); if (y.no_rows() != a || y.no_cols() != b || y.size() != a * b) violation("huge_move", "shape of the moved matrix " + what); else for (auto& e : m) if (ok && !same<T>(y(e.first), e.second)) { violation("huge_move", "contents of the moved matrix " + what); break; } }
    seen(sig);
  }
}
int main(int argc, char** argv) { init(argc, argv); huge<uint8_t>(N(HUGE_MATRIX)); return finish(); }
#else
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(1200);
#if PART(0)
  run<int>("", n); run<double, susa::allocator_log<double>>("/log", n / 2);
#endif
#if PART(1)
  run<double>("", n); run<float>("", n);
#endif
#if PART(2)
  run<uint8_t>("", n); run<int8_t>("", n);
#endif
#if PART(3)
  run<std::complex<double>>("", n); run<unsigned>("", n);
#endif
  return finish();
}
#endif
