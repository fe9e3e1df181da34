// M04: out-of-range and mismatched requests. Built with assertions (every request must be trapped)
// and with SUSA_NASSERT (no foreign memory is touched and the documented default comes back).
#include "mat.h"
using namespace mon;
static const bool nas =
#ifdef SUSA_NASSERT
  true;
#else
  false;
#endif
static size_t bad_index(Rng& r, size_t n) {   // >= n
  switch (r.below(7)) { case 0: case 1: return n; case 2: return n + 1; case 3: return n + 1 + r.below(5); case 4: return SIZE_MAX; case 5: return (size_t)1 << (20 + r.below(43)); default: return n + r.below(3 * n + 50); } }

template <class T, class A> struct Bad {
  using M = susa::matrix<T, A>;
  Rng& r; Mod<T> m; M x; std::string kind; std::string what; uint64_t sig = 0; M* pc = nullptr;
  Bad(Rng& rr) : r(rr) {}
  // run one request; in the assertion build it has to be trapped in a child, otherwise `ok` judges the outcome in place
  template <class F, class G> void request(const std::string& name, const std::string& args, F f, G ok) {
    begin(std::string("bad:") + name + ":" + tn<T>(), name + args + " on " + mstr(m)); sig = hstr((name + args).c_str());
    if (!nas) { Obs o = isolated([&] { f(); }); if (!o.trapped) violation("untrapped:" + name, obs_str(o)); }
    else {
      f(); std::string why = ok(); if (why.size()) violation("default:" + name, why);
      if (!agrees(x, m, &why)) violation("changed:" + name, why);   // nothing in range was changed
      // the trap value does not leak into later out-of-range reads of this object
      const M& k = x; if (m.size()) { T a = x(m.size()), b = k(m.size()), c = x(m.r, 0), d = k.get(m.r, m.c); if (!same(a, T()) || !same(b, T()) || !same(c, T()) || !same(d, T())) violation("default_after:" + name, "an out-of-range read is " + vstr(a) + "," + vstr(b) + "," + vstr(c) + "," + vstr(d) + " afterwards"); }
    }
    seen(sig ^ hmod(m));
  }
  void go() {
    size_t a, b; rnd_shape(r, a, b, 6); m = any_mod<T>(r, a, b); bool empty = r.below(14) == 0; if (empty) { m = Mod<T>(); a = b = 0; }
    x = to_susa<T, A>(m); const M& k = x; size_t n = a * b; bool vec = (a == 1) != (b == 1); size_t len = vec ? n : b;
    auto none = [] { return std::string(); };
    T got{}; auto is_def = [&] { return same(got, T()) ? std::string() : "read " + vstr(got) + " instead of " + vstr(T()); };
    size_t i = bad_index(r, a), j = bad_index(r, b), l = bad_index(r, n); size_t gi = a ? r.below(a) : 0, gj = b ? r.below(b) : 0;
    size_t pi = i, pj = j; switch (r.below(3)) { case 0: pj = gj; break; case 1: pi = gi; break; }
    if (empty) { pi = gi; pj = gj; l = r.below(3); }
    // a bad pair whose linear index is in range is the interesting one: (a, 0) == element (0,1)
    if (!empty && r.below(2)) { if (r.below(2) && b > 1) { pi = a + r.below(a); pj = r.below(b - 1); } else if (a > 1) { pi = 0; pj = b; } }
    auto P = [](std::initializer_list<size_t> v) { std::string s = "("; for (auto q : v) s += std::to_string(q) + ","; return s + ")"; };
    T w = any_val<T>(r); std::vector<T> vv; M res; bool flag = true;
    auto fill = [&](size_t rr, size_t cc) { Mod<T> z(rr, cc); std::string why; return matches(res, z, &why) ? std::string() : why; };
    // a refused slice is empty, all default or the matrix itself
    auto slice = [&]() -> std::string { if (res.size() == 0) return ""; std::string why; if (agrees(res, m, &why)) return ""; for (size_t q = 0; q < res.size(); q++) if (!same(res(q), T())) return "neither empty, nor all default, nor the matrix: " + std::to_string(res.no_rows()) + "x" + std::to_string(res.no_cols()); return ""; };
    auto is_empty = [&] { return res.size() == 0 ? std::string() : std::string("result is not empty"); };
    int which = (int)r.below(empty ? 11 : 33);
    if (empty && which >= 8) {   // a slice of an empty matrix
      size_t q = 1 + r.below(4), e = q + r.below(4) + 1; if (which == 8) request("left_of_empty", P({q}), [&] { res = k.left(q); }, is_empty); else if (which == 9) request("right_of_empty", P({q}), [&] { res = k.right(q); }, is_empty); else request("mid_of_empty", P({q, e}), [&] { res = k.mid(q, e); }, is_empty);
      return; }
    switch (which) {
      case 0: request("read_linear_const", P({l}), [&] { got = k(l); }, is_def); break;
      case 1: request("read_linear", P({l}), [&] { got = x(l); }, is_def); break;
      case 2: request("get_linear", P({l}), [&] { got = k.get(l); }, is_def); break;
      case 3: request("read_pair_const", P({pi, pj}), [&] { got = k(pi, pj); }, is_def); break;
      case 4: request("read_pair", P({pi, pj}), [&] { got = x(pi, pj); }, is_def); break;
      case 5: request("get_pair", P({pi, pj}), [&] { got = k.get(pi, pj); }, is_def); break;
      case 6: request("write_linear", P({l}), [&] { x(l) = w; }, none); break;
      case 7: request("write_pair", P({pi, pj}), [&] { x(pi, pj) = w; }, none); break;
      case 8: request("row", P({i}), [&] { res = k.row(i); }, [&] { return fill(1, b); }); break;
      case 9: request("col", P({j}), [&] { res = k.col(j); }, [&] { return fill(a, 1); }); break;
      case 10: request("row_as_vec", P({i}), [&] { vv = x.get_row_as_vec(i); }, [&] { for (auto& q : vv) if (!same(q, T())) return std::string("non-default element"); return std::string(); }); break;
      case 11: request("col_as_vec", P({j}), [&] { vv = x.get_col_as_vec(j); }, [&] { for (auto& q : vv) if (!same(q, T())) return std::string("non-default element"); return std::string(); }); break;
      case 12: { M s = to_susa<T, A>(any_mod<T>(r, 1, b)); request("set_row", P({i}), [&] { flag = x.set_row(i, s); }, [&] { return flag ? std::string("returned true") : std::string(); }); break; }
      case 13: { M s = to_susa<T, A>(any_mod<T>(r, a, 1)); request("set_col", P({j}), [&] { flag = x.set_col(j, s); }, [&] { return flag ? std::string("returned true") : std::string(); }); break; }
      case 14: if (b > 1) { size_t q = r.below(3) ? b - 1 : 1 + r.below(b - 1); M s = to_susa<T, A>(any_mod<T>(r, q, 1)); request("set_row_short", P({gi, q}), [&] { flag = x.set_row(gi, s); }, [&] { return flag ? std::string("returned true") : std::string(); }); } break;
      case 15: if (a > 1) { size_t q = r.below(3) ? a - 1 : 1 + r.below(a - 1); M s = to_susa<T, A>(any_mod<T>(r, 1, q)); request("set_col_short", P({gj, q}), [&] { flag = x.set_col(gj, s); }, [&] { return flag ? std::string("returned true") : std::string(); }); } break;
      case 16: { size_t u = i, v = gi; if (r.below(2)) std::swap(u, v); request("swap_rows", P({u, v}), [&] { x.swap_rows(u, v); }, none); break; }
      case 17: { size_t u = j, v = gj; if (r.below(2)) std::swap(u, v); request("swap_cols", P({u, v}), [&] { x.swap_cols(u, v); }, none); break; }
      case 18: if (a > 1 && b > 1) { size_t u = i, v = j; switch (r.below(3)) { case 0: u = gi; break; case 1: v = gj; } request("shrink", P({u, v}), [&] { res = k.shrink(u, v); }, slice); } break;
      case 19: { size_t q = bad_index(r, len + 1); if (q == SIZE_MAX) q = len + 1; request("left", P({q}), [&] { res = k.left(q); }, is_empty); break; }
      case 20: { size_t q = bad_index(r, len + 1); if (q == SIZE_MAX) q = len + 1; request("right", P({q}), [&] { res = k.right(q); }, is_empty); break; }
      case 21: { size_t e = bad_index(r, len), s = r.below(2) ? r.below(len) : e - 1; if (e == 0) break; if (s >= e) s = 0; request("mid", P({s, e}), [&] { res = k.mid(s, e); }, is_empty); break; }
      case 22: if (len > 1) { size_t s = 1 + r.below(len - 1), e = r.below(s); request("mid_reversed", P({s, e}), [&] { res = k.mid(s, e); }, is_empty); } break;
      case 23: case 24: case 25: case 26: {   // operators on different shapes
        size_t c, d; if (r.below(2) && a != b) { c = b; d = a; } else { do { rnd_shape(r, c, d, 6); } while (c == a && d == b); if (r.below(6) == 0) c = d = 0; }
        Mod<T> o = any_mod<T>(r, c, d); for (auto&& q : o.v) if (q == T()) q = T(1); M y = to_susa<T, A>(o); int op = (int)r.below(6); const char* names[] = {"+", "-", "*", "/", "+=", "-="};
        auto zero = [&]() -> std::string { std::string why; if (!matches(y, o, &why)) return "the right operand was changed: " + why; return fill(a, b); };
        std::string nm = std::string("operator") + names[op];
        if (op == 0) request(nm, P({c, d}), [&] { res = x + y; }, zero); else if (op == 1) request(nm, P({c, d}), [&] { res = x - y; }, zero);
        else if (op == 2) request(nm, P({c, d}), [&] { res = x * y; }, zero); else if (op == 3) request(nm, P({c, d}), [&] { res = x / y; }, zero);
        else if (op == 4) request(nm, P({c, d}), [&] { x += y; }, none); else request(nm, P({c, d}), [&] { x -= y; }, none);
        break; }
      case 27: case 28: { size_t c, d; do { rnd_shape(r, c, d, 6); } while (c == b); if (r.below(8) == 0) c = d = 0; Mod<T> o = any_mod<T>(r, c, d); M y = to_susa<T, A>(o); request("matmul", P({c, d}), [&] { res = susa::matmul(x, y); }, is_empty); break; }
      case 29: { size_t c = 1 + r.below(8), d = 1 + r.below(8); if (r.below(2)) { static const int sh[] = {8, 16, 31, 32, 33, 48, 63}; size_t t = n + ((size_t)(1 + r.below(2)) << sh[r.below(7)]); d = 1; while (r.below(2) && t % 2 == 0) { t /= 2; d *= 2; } c = t; if (r.below(2)) std::swap(c, d); } if (c * d == n) c++; if (c * d == n) break; request("reshape", P({c, d}), [&] { res = x.reshape(c, d); }, is_empty); break; }
      case 31: {   // a shape whose number of elements does not fit the index type
        size_t e = 1 + r.below(62), c = ((size_t)1 << (64 - e)) + (r.below(3) ? r.below(3) : (size_t)r.below(1000)), d = (size_t)1 << e; if (r.below(3) == 0) { c = SIZE_MAX - r.below(3); d = 2 + r.below(1000); } if (r.below(3) == 0 && n > 1) { c = ((size_t)1 << 60) + 1; d = 16; if (r.below(2) && (n & (n - 1)) == 0) { int lg = 0; while (((size_t)1 << lg) < n) lg++; d = n; c = ((size_t)1 << (64 - lg)) + 1; } } if (r.below(2)) std::swap(c, d); int q = (int)r.below(6); static const char* nm[] = {"too_large_ctor", "too_large_ctor_value", "too_large_ctor_tuple", "too_large_ctor_tuple_value", "too_large_resize", "too_large_reshape"};
        M y; auto e00 = [&] { return y.size() == 0 && y.no_rows() == 0 && y.no_cols() == 0 ? std::string() : "result is " + std::to_string(y.no_rows()) + "x" + std::to_string(y.no_cols()) + " with " + std::to_string(y.size()) + " elements"; };
        request(nm[q], P({c, d}), [&] { if (q == 0) { M z(c, d); y = z; } else if (q == 1) { M z(c, d, w); y = z; } else if (q == 2) { M z(std::make_tuple(c, d)); y = z; } else if (q == 3) { M z(std::make_tuple(c, d), w); y = z; } else if (q == 4) { M z(x); z.resize(c, d); y = z; } else y = x.reshape(c, d); }, e00); break; }
      case 32: if (a == 1 || b == 1) { size_t u = r.below(2) ? gi : i, v = r.below(2) ? gj : j; request("shrink_vector", P({u, v}), [&] { res = k.shrink(u, v); }, slice); } break;
      case 30: if (!nas) { int q = (int)r.below(5); size_t c = r.below(2) ? 0 : 3, d = c ? 0 : r.below(4); request("zero_dim", P({c, d, (size_t)q}), [&] { if (q == 0) M z(c, d); else if (q == 1) M z(c, d, T(1)); else if (q == 2) M z(std::make_tuple(c, d)); else if (q == 3) M z(std::make_tuple(c, d), w); else x.resize(c, d); }, none); } break;
    }
  }
};
template <class T, class A = std::allocator<T>> void mats(const char* an, uint64_t n) { std::string kind = std::string("mat:") + tn<T>() + an; for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); begin(kind, ""); Bad<T, A> b(r); b.go(); } }

// arrays: requests whose linear index is beyond the end, or with too many arguments
template <class T> void arr(Rng& r) {
  size_t nd = 1 + r.below(4); size_t d[4] = {1, 1, 1, 1}; for (size_t i = 0; i < nd; i++) d[i] = 1 + r.below(5);
  auto make = [&]() { switch (nd) { case 1: return susa::array<T>({d[0]}); case 2: return susa::array<T>({d[0], d[1]}); case 3: return susa::array<T>({d[0], d[1], d[2]}); default: return susa::array<T>({d[0], d[1], d[2], d[3]}); } };
  susa::array<T> x = make(); const susa::array<T>& k = x; size_t n = d[0] * d[1] * d[2] * d[3]; std::vector<T> m(n); for (size_t i = 0; i < n; i++) { m[i] = any_val<T>(r); x(i) = m[i]; }
  std::vector<size_t> t(nd); for (size_t i = 0; i < nd; i++) t[i] = r.below(d[i]);
  size_t na = 1 + r.below(nd); bool many = r.below(4) == 0;
  if (many) { t.push_back(r.below(3)); na = nd + 1; if (na > 4 || r.below(3) == 0) { t.push_back(0); na = t.size(); } }
  else { t.resize(na); size_t f = 1; for (size_t q = 0; q + 1 < na; q++) f *= d[q]; size_t need = (n + f - 1) / f; t[na - 1] = need + (r.below(2) ? 0 : r.below(1000)); }
  std::string args = vecstr(t) + " of dims " + vecstr(std::vector<size_t>(d, d + nd)); T w = any_val<T>(r), got{}; int op = (int)r.below(5); const char* names[] = {"array_get_vector", "array_get", "array_read_const", "array_read", "array_write"};
  begin(std::string("bad:") + names[op] + ":" + tn<T>(), args);
  auto f = [&] {
    if (op == 0) { got = k.get(t); return; }
#define ARGS(call) do { switch (t.size()) { case 1: call(t[0]); break; case 2: call(t[0], t[1]); break; case 3: call(t[0], t[1], t[2]); break; case 4: call(t[0], t[1], t[2], t[3]); break; case 5: call(t[0], t[1], t[2], t[3], t[4]); break; default: call(t[0], t[1], t[2], t[3], t[4], t[5]); } } while (0)
    if (op == 1) ARGS(got = k.get); else if (op == 2) ARGS(got = k); else if (op == 3) ARGS(got = x); else { auto set = [&](auto... q) { x(q...) = w; }; ARGS(set); } };
  if (!nas) { Obs o = isolated(f); if (!o.trapped) violation(std::string("untrapped:") + names[op], args + " " + obs_str(o)); }
  else {
    f(); if (op != 4 && !same(got, T())) violation(std::string("default:") + names[op], "read " + vstr(got));
    for (size_t i = 0; i < n; i++) if (!same<T>(k(i), m[i])) { violation(std::string("changed:") + names[op], "element " + std::to_string(i) + " changed"); break; }
    susa::array<T> y = make(); T c = x(n), e = y(n); if (!same(c, T()) || !same(e, T())) violation(std::string("default_after:") + names[op], "an out-of-range read is " + vstr(c) + " or " + vstr(e) + " afterwards");
  }
  seen(hstr(args.c_str()) ^ op);
}
// dimensions whose product does not fit: the array cannot be had
template <class T> void arr_huge(Rng& r) {
  size_t e = 1 + r.below(60), a = ((size_t)1 << (64 - e)) + r.below(3), b = (size_t)1 << e, c = 1 + r.below(3); if (r.below(3) == 0) { a = ((size_t)1 << 32) + r.below(2); b = (size_t)1 << 31; c = 2 + r.below(3); } int ord = (int)r.below(3);
  std::string args = std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + " in order " + std::to_string(ord); begin(std::string("bad:array_too_large:") + tn<T>(), args);
  auto f = [&] { if (ord == 0) susa::array<T> x({a, b, c}); else if (ord == 1) susa::array<T> x({c, b, a}); else susa::array<T> x({b, c, a}); };
  if (nas) { bool refused = false; try { f(); } catch (const std::bad_alloc&) { refused = true; } if (!refused) violation("array_too_large", "an array of dimensions " + args + " was handed out"); }
  else { Obs o = isolated([&] { try { f(); } catch (const std::bad_alloc&) { _exit(3); } }); if (!o.trapped && o.code != 3) violation("array_too_large", args + " " + obs_str(o)); }
  seen(hstr(args.c_str()));
}
// an array that holds nothing
template <class T> void arr_empty(Rng& r) {
  susa::array<T> x; bool moved = r.below(2); if (moved) { susa::array<T> y({3, 2}); for (size_t i = 0; i < 6; i++) y(i) = any_val<T>(r); susa::array<T> z(std::move(y)); x = y; } const susa::array<T>& k = x; size_t i = r.below(4); T got{}, w = any_val<T>(r); int op = (int)r.below(6); const char* names[] = {"get", "get_list", "get_vector", "read_const", "read", "write"};
  begin(std::string("bad:empty_array_") + names[op] + ":" + tn<T>(), std::to_string(i)); auto f = [&] { switch (op) { case 0: got = k.get(i); break; case 1: got = k.get({i}); break; case 2: got = k.get(std::vector<size_t>{i}); break; case 3: got = k(i); break; case 4: got = x(i); break; default: x(i) = w; } };
  if (!nas) { Obs o = isolated(f); if (!o.trapped) violation(std::string("untrapped:empty_array_") + names[op], obs_str(o)); }
  else { f(); if (op != 5 && !same(got, T())) violation(std::string("default:empty_array_") + names[op], "read " + vstr(got)); T c = x(i); if (!same(c, T())) violation(std::string("default_after:empty_array_") + names[op], "an out-of-range read is " + vstr(c) + " afterwards"); }
  seen(hstr(names[op]) ^ i ^ (moved ? 99 : 0));
}
template <class T> void arrs(uint64_t n) { std::string kind = std::string("array:") + tn<T>(); for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); begin(kind, ""); if (c % 25 == 7) arr_huge<T>(r); else if (c % 25 == 9) arr_empty<T>(r); else arr<T>(r); } }
// in-range requests must never be trapped: same generator, legal arguments, run in place
template <class T> void legal(uint64_t n) { std::string kind = std::string("legal:") + tn<T>(); for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t a, b; rnd_shape(r, a, b, 6); Mod<T> m = any_mod<T>(r, a, b); begin(kind, mstr(m)); auto x = to_susa<T>(m); std::string why;
    x.swap_rows(a - 1, 0); x.swap_rows(a - 1, 0); x.swap_cols(0, b - 1); x.swap_cols(0, b - 1); x.set_row(a - 1, x.row(a - 1)); x.set_col(b - 1, x.col(b - 1)); bool vec = (a == 1) != (b == 1); size_t len = vec ? a * b : b; x.left(len); x.right(len); if (len > 1) x.mid(0, len - 1); if (a > 1 && b > 1) x.shrink(a - 1, b - 1); if (!agrees(x, m, &why)) violation("legal", why); seen(hmod(m)); } }
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = nas ? N(12000, 10) : N(900, 8);
#if PART(0)
  mats<int>("", n); mats<uint8_t>("", n / 2); mats<float>("", n / 3); arrs<int>(n); legal<int>(n / 4);
#endif
#if PART(1)
  mats<double>("", n); mats<std::complex<double>>("", n / 2); mats<int, susa::allocator_log<int>>("/log", n / 3); arrs<double>(n); legal<double>(n / 4);
#endif
  return finish();
}
