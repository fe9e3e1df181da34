// A01: arrays of any dimension: index bijection and value semantics against a model.
#include "mat.h"
#include <memory>
#include <tuple>
using namespace mon;
template <class T> struct AM { std::vector<size_t> d; std::vector<T> v; bool init = false; };   // empty d: default array

template <class T, class A> std::unique_ptr<susa::array<T, A>> make(const std::vector<size_t>& d) {
  using X = susa::array<T, A>;
  switch (d.size()) { case 1: return std::unique_ptr<X>(new X({d[0]})); case 2: return std::unique_ptr<X>(new X({d[0], d[1]})); case 3: return std::unique_ptr<X>(new X({d[0], d[1], d[2]}));
    case 4: return std::unique_ptr<X>(new X({d[0], d[1], d[2], d[3]})); case 5: return std::unique_ptr<X>(new X({d[0], d[1], d[2], d[3], d[4]})); default: return std::unique_ptr<X>(new X({d[0], d[1], d[2], d[3], d[4], d[5]})); } }
#define CALL(f, t) (t.size() == 1 ? f(t[0]) : t.size() == 2 ? f(t[0], t[1]) : t.size() == 3 ? f(t[0], t[1], t[2]) : t.size() == 4 ? f(t[0], t[1], t[2], t[3]) : t.size() == 5 ? f(t[0], t[1], t[2], t[3], t[4]) : f(t[0], t[1], t[2], t[3], t[4], t[5]))
static std::vector<size_t> dims(Rng& r) { size_t n = 1 + r.below(6); std::vector<size_t> d(n); for (auto& q : d) q = 1 + r.below(n > 4 ? 3 : n > 2 ? 5 : 9); if (r.below(20) == 0) d[r.below(n)] = 40; if (r.below(400) == 0) { d.assign(n, 1); d[r.below(n)] = 300; d[r.below(n)] = 260; } if (r.below(1500) == 0) { d.assign(n, 1); d[r.below(n)] = 65540 + r.below(100); } return d; }
static size_t prod(const std::vector<size_t>& d) { size_t p = 1; for (auto q : d) p *= q; return p; }
static size_t lin(const std::vector<size_t>& d, const std::vector<size_t>& t) { size_t l = 0, f = 1; for (size_t i = 0; i < t.size(); i++) { l += t[i] * f; f *= d[i]; } return l; }
static std::vector<size_t> tuple_of(const std::vector<size_t>& d, size_t l) { std::vector<size_t> t; for (auto q : d) { t.push_back(l % q); l /= q; } return t; }

// one cell through every access path, on the constant and the non-constant object
template <class T, class A> bool cell(susa::array<T, A>& x, const AM<T>& m, const std::vector<size_t>& t, std::string& why) {
  const susa::array<T, A>& k = x; size_t l = lin(m.d, t); T w = m.v[l]; T g[8];
  g[0] = CALL(k, t); g[1] = CALL(x, t); g[2] = CALL(k.get, t); g[3] = k.get(t); g[4] = x.get(t);
  switch (t.size()) { case 1: g[5] = k.get({t[0]}); break; case 2: g[5] = k.get({t[0], t[1]}); break; case 3: g[5] = k.get({t[0], t[1], t[2]}); break; case 4: g[5] = k.get({t[0], t[1], t[2], t[3]}); break; case 5: g[5] = k.get({t[0], t[1], t[2], t[3], t[4]}); break; default: g[5] = k.get({t[0], t[1], t[2], t[3], t[4], t[5]}); }
  g[6] = k(l); g[7] = x(l);
  size_t raw = CALL(k.get_raw_index, t); if (raw != l) { why = "get_raw_index" + vecstr(t) + " = " + std::to_string(raw) + " instead of " + std::to_string(l); return false; }
  for (int i = 0; i < 8; i++) if (!same<T>(g[i], w)) { why = "access path " + std::to_string(i) + " at " + vecstr(t) + " gives " + vstr(g[i]) + " instead of " + vstr(w); return false; }
  return true;
}
template <class T, class A> bool all_cells(susa::array<T, A>& x, const AM<T>& m, std::string& why) {
  const susa::array<T, A>& k = x; for (size_t l = 0; l < m.v.size(); l++) { T g = k(l); if (!same<T>(g, m.v[l])) { why = "cell " + std::to_string(l) + " is " + vstr(g) + " instead of " + vstr(m.v[l]) + " (dims " + vecstr(m.d) + ")"; return false; } }
  return true;
}
template <class T, class A> struct Machine {
  using X = susa::array<T, A>; static constexpr int K = 5; std::unique_ptr<X> s[K]; AM<T> m[K]; Rng& r; std::string log; uint64_t sig = 0;
  explicit Machine(Rng& rr) : r(rr) {}
  void note(const std::string& x) { if (log.size() < 3000) log += x + " "; sig = hbytes(x.data(), x.size(), sig); }
  bool check(const char* op) {
    for (int i = 0; i < K; i++) if (s[i] && m[i].v.size()) { std::string why; if (!all_cells(*s[i], m[i], why)) { violation(std::string("value:") + op + ":" + tn<T>(), "array " + std::to_string(i) + ": " + why + " after " + log); return false; }
      if (m[i].d.size() && prod(m[i].d) == m[i].v.size()) { auto t = tuple_of(m[i].d, r.below(m[i].v.size())); if (r.below(3) == 0) while (t.size() > 1 && t.back() == 0) t.pop_back(); if (!cell(*s[i], m[i], t, why)) { violation(std::string("access:") + tn<T>(), why + " after " + log); return false; } } }
    return true; }
  void fresh(int i) { auto d = dims(r); s[i] = make<T, A>(d); m[i].d = d; m[i].v.resize(prod(d)); for (size_t l = 0; l < m[i].v.size(); l++) { m[i].v[l] = any_val<T>(r); auto t = tuple_of(d, l); CALL((*s[i]), t) = m[i].v[l]; } }
  void ensure(int i) { if (!s[i]) { s[i].reset(new X()); m[i] = AM<T>(); } }
  bool step() {
    int i = (int)r.below(K), j = (int)r.below(K); std::string I = std::to_string(i), J = std::to_string(j); const char* op = "?";
    switch (r.below(14)) {
      case 0: case 1: op = "fill"; note("new" + I); fresh(i); note(vecstr(m[i].d)); break;
      case 2: op = "default"; note("new" + I + "()"); s[i].reset(new X()); m[i] = AM<T>(); break;
      case 3: { op = "copy"; ensure(j); note("copy" + I + "," + J); std::unique_ptr<X> n(new X(*s[j])); AM<T> t = m[j]; s[i] = std::move(n); m[i] = t; break; }
      case 4: { op = "move"; ensure(j); note("move" + I + "," + J); std::unique_ptr<X> n(new X(std::move(*s[j]))); AM<T> t = m[j]; m[j] = AM<T>(); s[i] = std::move(n); m[i] = t; break; }
      case 5: case 6: { op = "assign"; ensure(i); ensure(j); note(I + "=" + J); X& q = (*s[i] = *s[j]); m[i] = m[j]; if (&q != s[i].get()) { violation("assign_ret", "assignment does not return its left operand"); return false; } break; }
      case 7: { op = "self_assign"; ensure(i); note(I + "=" + I); X& al = *s[i]; *s[i] = al; break; }
      case 8: case 9: { op = "write"; if (!s[i] || m[i].d.empty() || m[i].v.size() != prod(m[i].d)) break; size_t l = r.below(m[i].v.size()); auto t = tuple_of(m[i].d, l); T v = any_val<T>(r); note("w" + I); CALL((*s[i]), t) = v; m[i].v[l] = v; break; }
      case 10: { op = "clone"; ensure(i); size_t n = m[i].v.size(); if (r.below(2)) n = r.below(30); if (r.below(60) == 0) n = r.below(3) ? 4090 + r.below(20) : 65530 + r.below(20); if (n == 0 && m[i].v.empty()) break; std::vector<T> src(n ? n : 1); for (auto&& q : src) q = any_val<T>(r); note("clone" + I + "(" + std::to_string(n) + ")"); std::vector<T> keep = src; s[i]->clone(src.data(), n); m[i].v.assign(src.begin(), src.begin() + n); for (auto&& q : src) q = T(); 
        if (n != prod(m[i].d)) { /* the dimensions no longer describe the contents: linear access only */ } break; }
      case 11: { op = "assign_empty"; ensure(i); note(I + "=empty"); X e; if (r.below(2)) { *s[i] = e; m[i] = AM<T>(); } else { X c(e); X d(std::move(c)); *s[i] = d; m[i] = AM<T>(); } break; }
      case 12: { op = "container"; note("vector"); std::vector<X> v; std::vector<int> ix; for (int q = 0; q < 4; q++) { int z = (int)r.below(K); ensure(z); v.push_back(*s[z]); ix.push_back(z); } for (size_t q = 0; q < v.size(); q++) { std::string why; if (!all_cells(v[q], m[ix[q]], why)) { violation("container", why + " after " + log); return false; } if (m[ix[q]].v.size()) v[q](0) = T(1); } break; }
      case 13: { op = "destroy"; note("del" + I); s[i].reset(); m[i] = AM<T>(); break; }
    }
    return check(op);
  }
};
template <class T, class A = std::allocator<T>> void run(const char* an, uint64_t n) {
  std::string kind = std::string("history:") + tn<T>() + an, k2 = std::string("cells:") + tn<T>() + an;
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); begin(kind, "history " + std::to_string(c)); Machine<T, A> mc(r); bool ok = true; int len = 20 + (int)r.below(60); for (int q = 0; q < len && ok; q++) { ok = mc.step(); begin(kind, mc.log); } stat_add("n_operations", len); seen(mc.sig); }
  // every cell of an array, through every path; every write changes exactly one cell
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(k2.c_str(), c); auto d = dims(r); begin(k2, "dims " + vecstr(d)); auto x = make<T, A>(d); AM<T> m; m.d = d; size_t p = prod(d); m.v.resize(p); std::string why; bool ok = true;
    for (size_t l = 0; l < p; l++) { if constexpr (is_cplx<T>::value) m.v[l] = T((double)l, 1); else m.v[l] = (T)l; auto t = tuple_of(d, l); CALL((*x), t) = m.v[l]; }
    if (!all_cells(*x, m, why)) { violation(std::string("bijection:") + tn<T>(), why); continue; }
    for (size_t l = 0; l < p && ok; l += 1 + (p > 60 ? r.below(p / 30) : 0)) { auto t = tuple_of(d, l); ok = cell(*x, m, t, why); if (!ok) violation(std::string("access:") + tn<T>(), why + " dims " + vecstr(d)); }
    for (int q = 0; q < 5 && ok; q++) { size_t l = q == 0 ? p - 1 : r.below(p); auto t = tuple_of(d, l); T v = any_val<T>(r); CALL((*x), t) = v; m.v[l] = v; ok = all_cells(*x, m, why); if (!ok) violation(std::string("write:") + tn<T>(), "after a write at " + vecstr(t) + ": " + why); }
    seen(hvec(d), p > 1);
  }
}
// hundreds of dimensions (only a list or a vector of subscripts can name a cell)
#define O4 1, 1, 1, 1
#define O16 O4, O4, O4, O4
#define O64 O16, O16, O16, O16
static void many(uint64_t n) {
  std::initializer_list<size_t> list = {3, O64, 2, O64, O64, 2, O64, O16, 5, 1, 4}; std::vector<size_t> d(list);
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("many", c); begin("many:int", std::to_string(d.size()) + " dimensions"); susa::array<int> x({3, O64, 2, O64, O64, 2, O64, O16, 5, 1, 4}); size_t p = prod(d); for (size_t l = 0; l < p; l++) x(l) = (int)(l * 7 + c); const susa::array<int> k(x);
    for (size_t l = 0; l < p; l++) { auto t = tuple_of(d, l); if (r.below(2)) while (t.size() > 1 && t.back() == 0) t.pop_back(); int g = k.get(t), h = x.get(t); if (g != (int)(l * 7 + c) || h != g) { violation("many", "cell " + vecstr(t) + " gives " + std::to_string(g) + " and " + std::to_string(h) + " instead of " + std::to_string(l * 7 + c)); break; } }
    seen(c); }
}
#ifdef HUGE_ARRAY
// arrays of more than 2^32 elements (their memory is only mapped where it is touched)
template <class T> static void huge(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("huge", c); std::vector<size_t> d; const size_t G = (size_t)1 << 32;
    switch (c % 8) { case 0: d = {G + 3 + r.below(9)}; break; case 1: d = {65540 + r.below(9), 65600 + r.below(9)}; break; case 2: d = {1 + r.below(2), G + 3 + r.below(9), 1 + r.below(2)}; break; case 3: d = {2049 + r.below(5), 2051 + r.below(5), 1100 + r.below(5)}; break; case 4: d = {G + 5, 1 + r.below(3)}; break; case 5: d = {50001, 1, 1, 50003, 2}; break; case 6: d = {3, 1, 2, 30011, 1, 30013}; break; default: d = {300, 301, 302, 170}; }
    begin(std::string("huge:") + tn<T>(), "dims " + vecstr(d)); auto px = make<T, std::allocator<T>>(d); susa::array<T>& x = *px; const susa::array<T>& k = x; std::map<size_t, T> m; uint64_t sig = hvec(d); size_t p = prod(d); bool ok = true;
    for (int q = 0; q < 200 && ok; q++) { std::vector<size_t> t; for (auto e : d) t.push_back(r.below(3) == 0 ? e - 1 - r.below(std::min<size_t>(e, 3)) : r.below(3) == 0 ? std::min(e - 1, (size_t)r.below(3)) : r.below(e)); size_t l = lin(d, t); T v = any_val<T>(r); if (r.below(3)) CALL(x, t) = v; else x(l) = v; m[l] = v; sig = sig * 31 + l;
      for (auto& e : m) { auto u = tuple_of(d, e.first); size_t g = CALL(k.get_raw_index, u); T a = CALL(k, u), b = k.get(u), f = k(e.first), h = CALL(x, u); const T& at = (&x(0))[e.first]; if (g != e.first || !same<T>(a, e.second) || !same<T>(b, e.second) || !same<T>(f, e.second) || !same<T>(h, e.second) || !same<T>(at, e.second)) { violation("huge_access", "cell " + vecstr(u) + " of " + vecstr(d) + ": index " + std::to_string(g) + " (expected " + std::to_string(e.first) + "), value " + vstr(a) + " instead of " + vstr(e.second) + " after a write at " + vecstr(t)); ok = false; break; } }
      stat_add("n_huge_writes", 1); }
    if (ok) { susa::array<T> y(std::move(x)); const susa::array<T>& z = y; for (auto& e : m) { auto u = tuple_of(d, e.first); if (!same<T>(CALL(z, u), e.second) || !same<T>(z(e.first), e.second)) { violation("huge_move", "contents of the moved array " + vecstr(d)); break; } } }
    seen(sig, p > 1);
  }
}
int main(int argc, char** argv) { init(argc, argv); huge<uint8_t>(N(HUGE_ARRAY)); return finish(); }
#else
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(1500);
#if PART(0)
  run<int>("", n); run<double, susa::allocator_log<double>>("/log", n / 3);
#endif
#if PART(1)
  run<double>("", n); run<uint8_t>("", n / 2); many(3);
#endif
#if PART(2)
  run<std::complex<double>>("", n / 2); run<size_t>("", n / 2);
#endif
  return finish();
}
#endif
