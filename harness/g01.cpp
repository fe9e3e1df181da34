// G01: sort, sort_indices, select_*, find against multiset/permutation definitions.
#include "mat.h"
using namespace mon;
template <class T> void run(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(tn<T>(), c);
    size_t len = 2 + r.below(r.chance(.15) ? 60 : 9); if (r.chance(.01)) len = 62 + r.below(r.below(3) ? 300 : 1500); std::vector<T> v(len); int k = (int)r.below(6); for (size_t i = 0; i < len; i++) v[i] = k == 0 ? small_val<T>(r, 2) : k == 1 ? any_val<T>(r) : k == 2 ? v[i ? 0 : 0] : small_val<T>(r, 100); if (k == 2) { T x = any_val<T>(r); for (auto& q : v) q = x; }
    if (k == 4) std::sort(v.begin(), v.end()); if (k == 5) { std::sort(v.begin(), v.end()); std::reverse(v.begin(), v.end()); }
    bool row = r.below(2); begin(std::string("order:") + tn<T>(), std::string(row ? "row " : "column ") + vecstr(v)); susa::matrix<T> m = row ? susa::matrix<T>(1, len) : susa::matrix<T>(len, 1); for (size_t i = 0; i < len; i++) m(i) = v[i]; auto m0 = m;
    auto got = [](const auto& q) { std::string s = "{"; for (size_t i = 0; i < q.size() && i < 80; i++) s += vstr(q(i)) + " "; return s + "}"; };
    std::vector<T> sv = v; std::sort(sv.begin(), sv.end());
    auto so = susa::sort(m); bool ok = so.no_rows() == m.no_rows() && so.no_cols() == m.no_cols(); for (size_t i = 0; ok && i < len; i++) ok = so(i) == sv[i]; if (!ok) violation("sort", got(so));
    auto perm = [&](const susa::matrix<unsigned>& q, size_t cnt) { std::set<unsigned> s; if (q.size() != cnt) return false; for (size_t i = 0; i < cnt; i++) { if (q(i) >= len || !s.insert(q(i)).second) return false; } return true; };
    auto si = susa::sort_indices(m); if (!perm(si, len)) violation("sort_indices", "not a permutation: " + got(si)); else { for (size_t i = 0; i < len; i++) if (v[si(i)] != sv[i]) { violation("sort_indices", "does not sort: " + got(si)); break; } }
    unsigned q = 1 + (unsigned)r.below(len); if (r.chance(.2)) q = (unsigned)len;
    // smallest / largest q elements: values must be the q extreme ones, positions distinct, in order of value as selected
    auto chk = [&](const susa::matrix<unsigned>& s, std::vector<T> want, const char* w, const std::vector<unsigned>* lim) { if (!perm(s, want.size())) { violation(w, "positions not distinct or out of range, " + std::to_string(s.size()) + " for " + std::to_string(q) + ": " + got(s)); return; } for (size_t i = 0; i < want.size(); i++) { if (lim && std::find(lim->begin(), lim->end(), s(i)) == lim->end()) { violation(w, "position outside the limited set: " + got(s)); return; } if (v[s(i)] != want[i]) { violation(w, "not the extreme elements: " + got(s)); return; } } };
    std::vector<T> lo(sv.begin(), sv.begin() + q), hi(sv.rbegin(), sv.rbegin() + q);
    chk(susa::select_least(m, q), lo, "select_least", nullptr); chk(susa::select_most(m, q), hi, "select_most", nullptr);
    { std::vector<unsigned> lim, base; for (unsigned i = 0; i < len; i++) if (r.chance(.6)) base.push_back(i); if (base.empty()) base.push_back((unsigned)r.below(len)); for (size_t i = base.size(); i > 1; i--) std::swap(base[i - 1], base[r.below(i)]); lim = base; if (r.chance(.2)) lim.push_back(base[r.below(base.size())]);
      susa::matrix<unsigned> ml = r.below(2) ? susa::matrix<unsigned>(lim.size(), 1) : susa::matrix<unsigned>(1, lim.size()); for (size_t i = 0; i < lim.size(); i++) ml(i) = lim[i]; unsigned q2 = 1 + (unsigned)r.below(base.size()); std::vector<T> w; for (unsigned i : base) w.push_back(v[i]); std::sort(w.begin(), w.end()); w.resize(q2); unsigned qq = q; q = q2; auto ml0 = ml; chk(susa::select_limited_least(m, ml, q2), w, "select_limited_least", &lim); q = qq; if (!(ml == ml0)) violation("argument", "limited index modified"); }
    { T x = r.chance(.7) ? v[r.below(len)] : any_val<T>(r); auto b = susa::find(m, x); std::vector<size_t> want, have; for (size_t i = 0; i < len; i++) if (v[i] == x) want.push_back(i); for (size_t i = 0; i < len + 70; i++) if (b.exists(i)) have.push_back(i); if (have != want) violation("find", "value " + vstr(x) + " reported at " + vecstr(have)); std::vector<size_t> popped; while (b.any() && popped.size() <= len) popped.push_back(b.pop()); if (popped != want) violation("find_order", "value " + vstr(x) + " popped at " + vecstr(popped)); }
    if (!(m == m0)) violation("argument", "input modified");
    if constexpr (std::is_floating_point_v<T>) if (r.chance(.3)) { // elements that equal nothing are never found; signed zeros are equal
      for (size_t i = 0; i < len; i++) { if (r.chance(.2)) v[i] = std::numeric_limits<T>::quiet_NaN(); else if (r.chance(.2)) v[i] = r.below(2) ? T(0) : -T(0); else if (r.chance(.1)) v[i] = r.below(2) ? INFINITY : -INFINITY; m(i) = v[i]; }
      T x = v[r.below(len)]; auto b = susa::find(m, x); for (size_t i = 0; i < len + 8; i++) if (b.exists(i) != (i < len && v[i] == x)) { violation("find_special", "value " + vstr(x) + " at " + std::to_string(i) + " of " + vecstr(v)); break; } }
    seen(hvec(v, row), len > 1); }
}
// long sequences: only find (the sorts are quadratic)
template <class T> void far(uint64_t n) {
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; std::string kind = std::string("far:") + tn<T>(); Rng r = case_rng(kind.c_str(), c); size_t len = 65530 + r.below(70000); bool row = r.below(2); T x = any_val<T>(r), y = x == T(1) ? T(2) : T(1); begin(kind, std::to_string(len) + " elements, value " + vstr(x)); susa::matrix<T> m = row ? susa::matrix<T>(1, len, y) : susa::matrix<T>(len, 1, y); std::set<size_t> w; for (int i = 0; i < 20; i++) w.insert(r.below(len)); w.insert(len - 1 - r.below(3)); if (len > 65536) w.insert(65534 + r.below(3)); for (size_t i : w) m(i) = x;
    std::vector<size_t> want(w.begin(), w.end()), have; auto b = susa::find(m, x); for (size_t i = 0; i < len + 70; i++) if (b.exists(i)) have.push_back(i); if (have != want) violation("find_far", "reported at " + vecstr(have) + " instead of " + vecstr(want)); std::vector<size_t> popped; while (b.any() && popped.size() <= want.size()) popped.push_back(b.pop()); if (popped != want) violation("find_far_order", "popped at " + vecstr(popped) + " instead of " + vecstr(want));
    // a few selections out of the long sequence: q distinct positions, the extreme values in order
    std::vector<T> v(len, y); for (size_t i : w) { m(i) = v[i] = any_val<T>(r); } std::vector<T> sv = v; std::sort(sv.begin(), sv.end()); unsigned q = 1 + (unsigned)r.below(12);
    auto chk = [&](const susa::matrix<unsigned>& s, const T* first, int step, const char* n) { std::set<unsigned> d; if (s.size() != q) { violation(n, std::to_string(s.size()) + " positions for " + std::to_string(q)); return; } for (unsigned i = 0; i < q; i++) { if (s(i) >= len || !d.insert(s(i)).second) { violation(n, "position " + std::to_string(s(i)) + " repeated or out of range among " + std::to_string(q)); return; } if (v[s(i)] != first[(long)i * step]) { violation(n, "selected " + vstr(v[s(i)]) + " at position " + std::to_string(s(i)) + " instead of " + vstr(first[(long)i * step])); return; } } };
    chk(susa::select_least(m, q), sv.data(), 1, "select_least_far"); chk(susa::select_most(m, q), sv.data() + len - 1, -1, "select_most_far");
    std::vector<unsigned> lim(w.begin(), w.end()); susa::matrix<unsigned> ml(lim.size(), 1); for (size_t i = 0; i < lim.size(); i++) ml(i) = lim[lim.size() - 1 - i]; std::vector<T> lv; for (unsigned i : lim) lv.push_back(v[i]); std::sort(lv.begin(), lv.end()); if (q > lv.size()) q = (unsigned)lv.size(); chk(susa::select_limited_least(m, ml, q), lv.data(), 1, "select_limited_far"); seen(len * 31 + row); }
}
int main(int argc, char** argv) { init(argc, argv); uint64_t n = N(2500, 12); run<int>(n); run<double>(n); run<float>(n / 2); run<int8_t>(n / 2); run<uint8_t>(n / 2); run<unsigned>(n / 2); run<long>(n / 2); far<int>(N(24)); far<double>(N(24)); far<uint8_t>(N(24)); return finish(); }
