// M01: value semantics of matrix over random operation histories against an independent model.
#include "mat.h"
#include <memory>
#include <tuple>
using namespace mon;

template <class T, class A> struct Machine {
  using M = susa::matrix<T, A>;
  static constexpr int K = 6;
  std::unique_ptr<M> s[K]; Mod<T> m[K]; Rng& r; std::string log; uint64_t sig = 0;
  explicit Machine(Rng& rr) : r(rr) {}
  void shape(size_t& a, size_t& b) { rnd_shape(r, a, b, 6); if (r.chance(0.01)) { a = 30 + r.below(60); b = 1 + r.below(90); } if (r.chance(0.0005)) { a = 1 + r.below(400); b = 200 + r.below(150); } }
  void note(const std::string& x) { if (log.size() < 3500) log += x + " "; sig = hbytes(x.data(), x.size(), sig); }
  static M by_value(M x) { return x; }
  static M identity_ref(const M& x) { return x; }
  bool check(const char* op) {
    for (int i = 0; i < K; i++) if (s[i]) {
      std::string why; bool ok = i == (int)(sig % K) ? agrees(*s[i], m[i], &why) : matches(*s[i], m[i], &why);
      if (!ok) { violation(std::string("value:") + op + ":" + tn<T>(), "slot " + std::to_string(i) + ": " + why + " after " + log); return false; }
    }
    return true;
  }
  void ensure(int i) { if (!s[i]) { s[i].reset(new M()); m[i] = Mod<T>(); } }
  bool step() {
    int i = (int)r.below(K), j = (int)r.below(K); size_t a, b; shape(a, b);
    std::string I = std::to_string(i), J = std::to_string(j), SH = std::to_string(a) + "x" + std::to_string(b);
    const char* op = "?";
    switch (r.below(26)) {
      case 0: op = "default"; note("new" + I + "()"); s[i].reset(new M()); m[i] = Mod<T>(); break;
      case 1: { op = "ctor_init"; T v = any_val<T>(r); note("new" + I + "(" + SH + ",v)"); s[i].reset(new M(a, b, v)); m[i] = Mod<T>(a, b, v); break; }
      case 2: { op = "ctor_fill"; note("new" + I + "(" + SH + ")fill"); s[i].reset(new M(a, b)); m[i] = any_mod<T>(r, a, b); for (size_t k = 0; k < a * b; k++) (*s[i])(k) = m[i].v[k]; break; }
      case 3: { op = "ctor_tuple_init"; T v = any_val<T>(r); note("new" + I + "(tuple " + SH + ",v)"); s[i].reset(new M(std::make_tuple(a, b), v)); m[i] = Mod<T>(a, b, v); break; }
      case 4: { op = "ctor_tuple"; note("new" + I + "(tuple " + SH + ")fill"); s[i].reset(new M(std::make_tuple(a, b))); m[i] = any_mod<T>(r, a, b); for (size_t x = 0; x < a; x++) for (size_t y = 0; y < b; y++) (*s[i])(x, y) = m[i].at(x, y); break; }
      case 5: { op = "copy_ctor"; ensure(j); note("new" + I + "(copy " + J + ")"); std::unique_ptr<M> n(new M(*s[j])); Mod<T> t = m[j]; s[i] = std::move(n); m[i] = t; break; }
      case 6: { op = "move_ctor"; ensure(j); note("new" + I + "(move " + J + ")"); std::unique_ptr<M> n(new M(std::move(*s[j]))); Mod<T> t = m[j]; m[j] = Mod<T>(); if (i != j || true) { if (i == j) { std::string why; if (!matches(*s[j], m[j], &why)) { violation(std::string("moved_from:") + tn<T>(), why + " after " + log); return false; } } s[i] = std::move(n); m[i] = t; } break; }
      case 7: case 8: { op = "assign"; ensure(i); ensure(j); note(I + "=" + J); M& ret = (*s[i] = *s[j]); m[i] = m[j]; if (&ret != s[i].get()) { violation(std::string("assign_ret:") + tn<T>(), "assignment does not return its left operand"); return false; } break; }
      case 9: { op = "self_assign"; ensure(i); note(I + "=" + I); M& al = *s[i]; *s[i] = al; break; }
      case 10: { op = "move_assign"; ensure(i); ensure(j); if (i == j) break; note(I + "=move " + J); *s[i] = std::move(*s[j]); m[i] = m[j];
        if (s[j]->size() == 0) m[j] = Mod<T>(); break; }   // the source keeps its value or becomes empty
      case 11: { op = "write"; if (!s[i] || !m[i].size()) break; T v = any_val<T>(r); size_t k = r.below(m[i].size()); note(I + "[" + std::to_string(k) + "]=v"); (*s[i])(k) = v; m[i].v[k] = v; break; }
      case 12: { op = "write2"; if (!s[i] || !m[i].size()) break; T v = any_val<T>(r); size_t x = r.below(m[i].r), y = r.below(m[i].c); note(I + "(x,y)=v"); (*s[i])(x, y) = v; m[i].at(x, y) = v; break; }
      case 13: { op = "set_all"; if (!s[i]) break; T v = any_val<T>(r); note(I + ".set_all"); s[i]->set_all(v); for (auto&& q : m[i].v) q = v; break; }
      case 14: { op = "resize_same"; if (!s[i] || !m[i].size()) break; size_t n = m[i].size(); std::vector<size_t> d; for (size_t k = 1; k <= n && k < 200; k++) if (n % k == 0) d.push_back(k); size_t q = d[r.below(d.size())]; note(I + ".resize(" + std::to_string(q) + "," + std::to_string(n / q) + ")"); bool ok = s[i]->resize(q, n / q); m[i].r = q; m[i].c = n / q; MON_CHECK(ok, "resize_ret", "resize() reports failure"); break; }
      case 15: { op = "resize_new"; ensure(i); note(I + ".resize(" + SH + ")fill"); bool same_n = a * b == m[i].size(); bool ok = s[i]->resize(a, b); MON_CHECK(ok, "resize_ret", "resize() reports failure");
        if (s[i]->no_rows() != a || s[i]->no_cols() != b || s[i]->size() != a * b) { violation(std::string("resize_shape:") + tn<T>(), "shape after resize(" + SH + "): " + std::to_string(s[i]->no_rows()) + "x" + std::to_string(s[i]->no_cols()) + " size " + std::to_string(s[i]->size()) + " after " + log); return false; }
        if (same_n) { m[i].r = a; m[i].c = b; break; }
        m[i] = any_mod<T>(r, a, b); for (size_t k = 0; k < a * b; k++) (*s[i])(k) = m[i].v[k]; break; }
      case 16: { op = "reshape"; ensure(i); if (!s[j] || !m[j].size()) break; size_t n = m[j].size(); std::vector<size_t> d; for (size_t k = 1; k <= n && k < 200; k++) if (n % k == 0) d.push_back(k); size_t q = d[r.below(d.size())]; note(I + "=" + J + ".reshape(" + std::to_string(q) + ")"); Mod<T> t = m[j]; t.r = q; t.c = n / q; *s[i] = s[j]->reshape(q, n / q); m[i] = t; break; }
      case 17: { op = "destroy"; note("del" + I); s[i].reset(); m[i] = Mod<T>(); break; }
      case 18: { op = "swap"; ensure(i); ensure(j); note("swap" + I + "," + J); std::swap(*s[i], *s[j]); std::swap(m[i], m[j]); break; }
      case 19: { op = "by_value"; ensure(i); ensure(j); note(I + "=f(" + J + ")"); *s[i] = by_value(*s[j]); m[i] = m[j]; break; }
      case 20: { op = "by_value_move"; ensure(i); ensure(j); note(I + "=f(move " + J + ")"); Mod<T> t = m[j]; M tmp = by_value(std::move(*s[j])); m[j] = Mod<T>(); *s[i] = tmp; m[i] = t; break; }
      case 21: { op = "vector"; note("vector of copies"); std::vector<M> v; std::vector<int> idx; for (int k = 0; k < 5; k++) { int q = (int)r.below(K); ensure(q); v.push_back(*s[q]); idx.push_back(q); }
        v.erase(v.begin() + 1); idx.erase(idx.begin() + 1);
        for (size_t k = 0; k < v.size(); k++) { std::string why; if (!matches(v[k], m[idx[k]], &why)) { violation(std::string("container:") + tn<T>(), why + " after " + log); return false; } if (v[k].size()) v[k](0) = T(1); } break; }
      case 22: { op = "assign_empty"; ensure(i); note(I + "=empty"); *s[i] = M(); m[i] = Mod<T>(); break; }
      case 23: { op = "copy_empty"; M e; M c(e); M d(std::move(e)); note("copy/move of empty"); if (c.size() || d.size() || c.no_rows() || d.no_cols()) { violation(std::string("empty:") + tn<T>(), "copy or move of an empty matrix is not empty"); return false; } c = d; break; }
      case 24: { op = "chain"; ensure(i); ensure(j); int k = (int)r.below(K); ensure(k); note(I + "=" + J + "=" + std::to_string(k)); *s[i] = *s[j] = *s[k]; m[j] = m[k]; m[i] = m[j]; break; }
      case 25: { op = "string"; if constexpr (!is_cplx<T>::value) { ensure(i); Mod<T> t = rnd_mod<T>(r, a > 12 ? 3 : a, b > 12 ? 2 : b); std::ostringstream o; for (size_t x = 0; x < t.r; x++) { if (x) o << ";"; for (size_t y = 0; y < t.c; y++) o << (y ? " " : "") << +t.at(x, y); } note(I + "=str"); if (r.below(2)) *s[i] = o.str(); else *s[i] = o.str().c_str(); m[i] = t; } break; }
    }
    begin(std::string("history:") + tn<T>(), log);
    return check(op);
  }
};

template <class T, class A> void run(const char* an, uint64_t n) {
  std::string kind = std::string("history:") + tn<T>() + an;
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue;
    Rng r = case_rng(kind.c_str(), c);
    Machine<T, A> mc(r); int len = 20 + (int)r.below(c % 7 == 0 ? 300 : 60); bool ok = true;
    begin(kind, "history " + std::to_string(c));
    for (int k = 0; k < len && ok; k++) ok = mc.step();
    begin(kind, mc.log); stat_add("n_operations", len);
    seen(mc.sig);
  }
}
#ifdef LARGE
#include <map>
// blocks of many megabytes and beyond 4 GB: known elements at the ends, around the powers of two and at random places
template <class T> static void large(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; std::string kind = std::string("large:") + tn<T>(); Rng r = case_rng(kind.c_str(), c); bool giant = c == 0; size_t total = (giant ? ((size_t)1 << 32) + (1 << 20) : ((size_t)1 << (20 + r.below(7))) + r.below(1 << 20)) / sizeof(T), a, b;
    switch (r.below(3)) { case 0: a = 1; b = total; break; case 1: a = total; b = 1; break; default: a = 1 + r.below(giant ? 100000 : 3000); b = total / a + 1; } total = a * b; int op = (int)r.below(giant ? 3 : 6);
    std::string what = std::to_string(a) + "x" + std::to_string(b) + " op " + std::to_string(op); begin(kind, what); susa::matrix<T> x(a, b); std::map<size_t, T> m;
    auto put = [&](size_t l) { if (l < total) { T v = any_val<T>(r); x(l) = v; m[l] = v; } }; for (size_t k = 0; k < 40; k++) { put(((size_t)1 << k) / sizeof(T)); put(((size_t)1 << k) / sizeof(T) - 1); put(((size_t)1 << k)); put(((size_t)1 << k) - 1); } for (int k = 0; k < 200; k++) { put(r.below(total)); put(total - 1 - r.below(std::min<size_t>(total, 5000))); }
    susa::matrix<T> y; size_t ya = a, yb = b;
    switch (op) { case 0: y = x; break; case 1: { susa::matrix<T> z(x); y.~matrix(); new (&y) susa::matrix<T>(std::move(z)); break; } case 2: { susa::matrix<T> z(std::move(x)); new (&x) susa::matrix<T>(std::move(z)); y = x; break; }
      case 3: y = susa::matrix<T>(3, 2, T(1)); y = x; break; case 4: { for (ya = 1 + r.below(50); total % ya; ya--); yb = total / ya; y = x.reshape(ya, yb); break; } default: y = susa::matrix<T>(b, a, T(3)); y = x; }
    auto agree = [&](susa::matrix<T>& z, size_t za, size_t zb, const char* name) { if (z.no_rows() != za || z.no_cols() != zb || z.size() != total) { violation(std::string("large_shape:") + tn<T>(), std::string(name) + " of " + what); return false; } for (auto& e : m) { T g = z(e.first); if (!same<T>(g, e.second)) { violation(std::string("large_value:") + tn<T>(), std::string(name) + " of " + what + ": element " + std::to_string(e.first) + " is " + vstr(g) + " instead of " + vstr(e.second)); return false; } } return true; };
    if (agree(x, a, b, "source") && agree(y, ya, yb, "copy")) { auto keep = m; for (auto& e : keep) y(e.first) = T(99); if (agree(x, a, b, "source after writes to the copy")) for (auto& e : keep) if (!same<T>((T)y(e.first), T(99))) { violation("large_write", what); break; } }
    seen(hval(total, op)); }
}
#endif
int main(int argc, char** argv) {
  init(argc, argv);
#ifdef LARGE
  large<uint8_t>(N(LARGE)); large<double>(N(LARGE)); return finish();
#endif
  uint64_t n = N(250);
#if PART(0)
  run<int, std::allocator<int>>("", n);
#endif
#if PART(1)
  run<double, std::allocator<double>>("", n);
#endif
#if PART(2)
  run<float, std::allocator<float>>("", n);
#endif
#if PART(3)
  run<int8_t, std::allocator<int8_t>>("", n);
#endif
#if PART(4)
  run<uint8_t, std::allocator<uint8_t>>("", n);
#endif
#if PART(5)
  run<unsigned, std::allocator<unsigned>>("", n);
#endif
#if PART(6)
  run<size_t, std::allocator<size_t>>("", n);
#endif
#if PART(7)
  run<std::complex<double>, std::allocator<std::complex<double>>>("", n);
#endif
#if PART(0)
  run<std::complex<float>, std::allocator<std::complex<float>>>("", n);
#endif
#if PART(1)
  run<int, susa::allocator_log<int>>("/log", n);
#endif
#if PART(2)
  run<double, susa::allocator_log<double>>("/log", n);
#endif
#if PART(3)
  run<std::complex<double>, susa::allocator_log<std::complex<double>>>("/log", n);
#endif
  return finish();
}
