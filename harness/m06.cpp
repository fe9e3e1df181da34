// M06: every allocation of every matrix operation is made to fail, one at a time.
#include "mat.h"
#include <memory>
using namespace mon;
static const bool nas =
#ifdef SUSA_NASSERT
  true;
#else
  false;
#endif
struct Heap { long fail_at = -1, count = 0; bool failed = false; std::map<void*, size_t> live; std::string err; };
static Heap H;
// block-checking allocator: fails on demand, verifies every release
template <class T> struct FA {
  using value_type = T;
  FA() noexcept {} FA(const FA&) noexcept {} template <class U> FA(const FA<U>&) noexcept {}
  T* allocate(size_t n) { if (++H.count == H.fail_at) { H.failed = true; throw std::bad_alloc(); } T* p = (T*)malloc(n * sizeof(T) ? n * sizeof(T) : 1); H.live[p] = n * sizeof(T); return p; }
  void deallocate(T* p, size_t n) { auto it = H.live.find(p); if (it == H.live.end()) { H.err = "released a block that is not live"; return; } if (it->second != n * sizeof(T)) H.err = "released " + std::to_string(n * sizeof(T)) + " bytes of a block of " + std::to_string(it->second); H.live.erase(it); free(p); }
};
template <class T> susa::matrix<T, FA<T>> to_susa_fa(const Mod<T>& m) { return to_susa<T, FA<T>>(m); }
template <class T> void go(Rng& r, const std::string& kind, int op) {
  using M = susa::matrix<T, FA<T>>;
  static const char* names[] = {"ctor", "ctor_init", "ctor_tuple", "ctor_tuple_init", "copy", "assign", "assign_other_size", "assign_into_empty", "self_size_assign", "resize", "resize_empty", "reshape", "parse_ctor", "parse_assign", "parse_into_full", "row", "col", "left", "right", "mid", "shrink",
    "m+m", "m-m", "m*m", "m/m", "m+s", "s-m", "s*m", "m/s", "+=", "-=", "matmul", "transpose", "concat", "fliplr", "move", "chain", "std_swap", "eye"};
  const int NOPS = sizeof names / sizeof *names; if (op >= NOPS) return;
  size_t a, b; rnd_shape(r, a, b, 5); if (a < 2) a = 2; if (b < 2) b = 2; size_t c = a + 1 + r.below(3), d = 1 + r.below(4);
  Mod<T> p = rnd_mod<T>(r, a, b), q = rnd_mod<T>(r, a, b), o = rnd_mod<T>(r, c, d); for (auto&& v : q.v) if (v == T()) v = T(1);
  std::string text; for (size_t i = 0; i < a; i++) { if (i) text += ";"; for (size_t j = 0; j < b; j++) text += (j ? " " : "") + std::to_string(i + j); }
  for (long k = 1; k < 12; k++) {
    bool done = false; std::string nm = names[op];
    auto body = [&]() {
      H = Heap(); std::string why; Mod<T> none;
      {
        M x = to_susa_fa(p), y = to_susa_fa(q), z = to_susa_fa(o), t;   // t: the target or result
        bool judge_t = true; bool may_hold_old = false; Mod<T> old;
        size_t before = H.live.size(); (void)before;
        std::unique_ptr<M> h;
        switch (op) { case 5: t = M(c, d, T(2)); break; case 6: t = M(a + 1, b, T(2)); break; case 8: t = M(a, b, T(5)); break; case 9: t = M(c, d, T(3)); break; case 14: t = M(c + a * b, d, T(3)); break; }
        H.count = 0; H.fail_at = k; H.failed = false;
        switch (op) {
          case 0: h.reset(new M(a, b)); break; case 1: h.reset(new M(a, b, T(4))); break; case 2: h.reset(new M(std::make_tuple(a, b))); break; case 3: h.reset(new M(std::make_tuple(a, b), T(1))); break;
          case 4: h.reset(new M(x)); break; case 5: case 6: case 7: case 8: t = x; break;
          case 9: { bool f = t.resize(a, b + c); if (H.failed && f) violation("resize_ret", "resize() reported success after a failed allocation"); break; }
          case 10: { bool f = t.resize(a, b); if (H.failed && f) violation("resize_ret", "resize() reported success after a failed allocation"); break; }
          case 11: h.reset(new M(x.reshape(b, a))); break; case 12: h.reset(new M(text)); break; case 13: case 14: t = text; break;
          case 15: h.reset(new M(x.row(a - 1))); break; case 16: h.reset(new M(x.col(b - 1))); break; case 17: h.reset(new M(x.left(b - 1))); break; case 18: h.reset(new M(x.right(1))); break; case 19: h.reset(new M(x.mid(0, b - 1))); break; case 20: h.reset(new M(x.shrink(0, b - 1))); break;
          case 21: h.reset(new M(x + y)); break; case 22: h.reset(new M(x - y)); break; case 23: h.reset(new M(x * y)); break; case 24: h.reset(new M(x / y)); break; case 25: h.reset(new M(x + T(2))); break; case 26: h.reset(new M(T(2) - x)); break; case 27: h.reset(new M(T(2) * x)); break; case 28: h.reset(new M(x / T(2))); break;
          case 29: { M ret = (x += y); judge_t = false; if (H.failed && !matches(ret, none, &why)) violation("result:" + nm, why); break; } case 30: { M ret = (x -= y); judge_t = false; if (H.failed && !matches(ret, none, &why)) violation("result:" + nm, why); break; }
          case 31: { M yt(y); if (H.failed) { judge_t = false; break; } yt.resize(b, a); h.reset(new M(susa::matmul(x, yt))); break; } case 32: h.reset(new M(susa::transpose(x))); break; case 33: h.reset(new M(susa::concat(x, y))); break; case 34: h.reset(new M(susa::fliplr(x))); break;
          case 35: { h.reset(new M(std::move(z))); break; }
          case 36: { M u; u = t = x; h.reset(new M(u)); break; }
          case 37: { M u(x); std::swap(u, y); judge_t = false; break; }
          case 38: h.reset(new M(susa::eye<T, FA<T>>(a))); break;
        }
        H.fail_at = -1;
        if (!H.failed) done = true;
        else {
          // when an intermediate copy failed, the result has to be the empty matrix too
          M* tgt = h ? h.get() : &t;
          if (judge_t && op != 36 && !matches(*tgt, none, &why)) violation("target:" + nm, why + " after allocation " + std::to_string(k) + " failed");
          if (judge_t && op == 36) { for (M* g : {h.get(), &t}) if (!matches(*g, none) && !matches(*g, p, &why)) violation("target:" + nm, why + " after allocation " + std::to_string(k) + " failed"); }
          // sources
          Mod<T> px = p; if (op == 29) for (size_t i = 0; i < p.size(); i++) px.v[i] = p.v[i] + q.v[i]; if (op == 30) for (size_t i = 0; i < p.size(); i++) px.v[i] = p.v[i] - q.v[i];
          if (!matches(x, px, &why)) violation("source:" + nm, why);
          if (op != 37 && !matches(y, q, &why)) violation("source:" + nm, why);
          if (op != 35 && op != 37 && !matches(z, o, &why)) violation("source:" + nm, why);
          // the target can be used again
          if (judge_t) { switch (r.below(4)) { case 0: *tgt = x; if (!matches(*tgt, px, &why)) violation("reuse_assign:" + nm, why); break;
            case 1: { bool f = tgt->resize(a, b); tgt->set_all(T(7)); Mod<T> w(a, b, T(7)); if (!f || !agrees(*tgt, w, &why)) violation("reuse_resize:" + nm, why); break; }
            case 2: { *tgt = text.c_str(); Mod<T> w(a, b); for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) w.at(i, j) = T(i + j); if (!agrees(*tgt, w, &why)) violation("reuse_parse:" + nm, why); break; }
            default: { M cp(*tgt); M mv(std::move(cp)); *tgt = mv; } } }
        }
      }
      if (!H.err.empty()) violation("release:" + nm, H.err);
      if (!H.live.empty()) violation("leak:" + nm, std::to_string(H.live.size()) + " blocks are still allocated after allocation " + std::to_string(k) + " failed");
    };
    begin(kind + ":" + nm, nm + " " + mstr(p) + " with allocation " + std::to_string(k) + " failing");
    if (nas) { body(); }
    else {
      Obs ob = isolated([&] { body(); if (done) _exit(44); });
      if (ob.code == 44) done = true; else if (!ob.trapped) violation("untrapped:" + nm, obs_str(ob));
    }
    if (done) break;
    seen(hmod(p) ^ (uint64_t)(op * 64 + k));
  }
}
template <class T> void run(uint64_t n) {
  std::string kind = std::string("fault:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) for (int op = 0; op < 39; op++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c * 100 + op); begin(kind, ""); go<T>(r, kind, op); }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = nas ? N(60, 20) : N(6, 10);
#if PART(0)
  run<int>(n); 
#endif
#if PART(1)
  run<double>(n);
#endif
#if PART(2)
  run<uint8_t>(n);
#endif
  return finish();
}
