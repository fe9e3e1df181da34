// B01: bitset against std::set, for every size around byte boundaries and long random histories.
#include "mat.h"
#include <memory>
using namespace mon;
struct Mdl { size_t n; std::set<size_t> s; };
static bool agrees_b(susa::bitset& b, const Mdl& m, const std::string& log, Rng& r) {
  // large sets: every position now and then, otherwise a sample around the members and around powers of two
  if (m.n > 3000 && r.below(25)) { std::vector<size_t> q; size_t st = m.s.size() / 60 + 1, i = 0; for (size_t e : m.s) if (i++ % st == 0) for (size_t b = 1; b; b <<= 1) { if (b > 2 * m.n) break; q.push_back(e ^ b); q.push_back(e); } for (int k = 0; k < 150; k++) q.push_back(r.below(m.n + 20)); for (size_t e : q) if (b.exists(e) != (m.s.count(e) != 0)) { violation("exists", "position " + std::to_string(e) + " is wrong in a set of size " + std::to_string(m.n) + " after " + log); return false; } }
  else for (size_t i = 0; i < m.n + 20; i++) { bool w = m.s.count(i) != 0, g = b.exists(i); if (w != g) { violation("exists", "position " + std::to_string(i) + (g ? " is present" : " is missing") + " in a set of size " + std::to_string(m.n) + " after " + log); return false; } }
  size_t far[] = {SIZE_MAX, SIZE_MAX / 2, ((size_t)1 << 32), ((size_t)1 << 32) * 8, ((size_t)1 << 35) + r.below(m.n + 1)}; for (size_t f : far) if (b.exists(f)) { violation("exists_far", "position " + std::to_string(f) + " is present"); return false; }
  if (b.any() != !m.s.empty()) { violation("any", std::string("any() is ") + (b.any() ? "true" : "false") + " with " + std::to_string(m.s.size()) + " positions present (size " + std::to_string(m.n) + ") after " + log); return false; }
  return true;
}
#ifdef HUGE_SETS
// sets whose positions, and whose number of bytes, do not fit 32 bits
int main(int argc, char** argv) {
  init(argc, argv);
  for (uint64_t c = 0; c < HUGE_SETS; c++) {
    if (!turn()) continue; Rng r = case_rng("huge", c); bool bytes = c % 3 == 2; Mdl m; m.n = ((size_t)1 << (bytes ? 35 : 32)) + 1 + r.below(1000); susa::bitset b(m.n); std::string log = "size " + std::to_string(m.n); size_t wrap = (size_t)1 << (bytes ? 35 : 32); uint64_t sig = m.n; begin("huge", log);
    auto check = [&](size_t p) { for (size_t e : {p, p ^ wrap, p & 0xffffffffu, p + 1, p - 1, p ^ 7}) { bool w = m.s.count(e) != 0; if (b.exists(e) != w) { violation("huge_exists", "position " + std::to_string(e) + (w ? " is missing" : " is present") + " after " + log); return false; } } return true; };
    auto drain = [&](int k) { for (int i = 0; i < k; i++) { size_t g = b.pop(), w = m.s.empty() ? m.n : *m.s.begin(); if (!m.s.empty()) m.s.erase(m.s.begin()); log += " pop"; if (g != w) { violation("huge_pop", "pop() returned " + std::to_string(g) + " instead of " + std::to_string(w) + " after " + log); return false; } } return true; };
    if (b.any()) { violation("huge_any", "new set is not empty"); continue; }
    bool ok = true;
    for (int k = 0; k < 60 && ok; k++) { size_t p = r.below(3) == 0 ? r.below(m.n) : r.below(2) ? wrap + r.below(m.n - wrap) : m.n - 1 - r.below(20); if (r.below(4) && m.s.size()) { auto it = m.s.begin(); std::advance(it, r.below(m.s.size())); if (r.below(2)) p = *it; } sig = mix(sig ^ p);
      if (r.below(4)) { log += " set " + std::to_string(p); if (r.below(2)) b.set(p); else b.push(p); m.s.insert(p); } else { log += " reset " + std::to_string(p); b.reset(p); m.s.erase(p); } begin("huge", log); ok = check(p); stat_add("n_operations", 1); }
    // the beginning is emptied in order, then only positions beyond the 32nd bit remain
    if (ok) ok = drain(1); while (ok && m.s.size() && *m.s.begin() < wrap) { b.reset(*m.s.begin()); m.s.erase(m.s.begin()); } size_t last = m.n - 1; if (ok) { b.set(last); m.s.insert(last); log += " set " + std::to_string(last); ok = check(last); } while (ok && m.s.size() > 1) { b.reset(*m.s.begin()); m.s.erase(m.s.begin()); } begin("huge", log);
    if (ok && !b.any()) { violation("huge_any", "any() is false after " + log); ok = false; } if (ok) ok = drain(bytes ? 0 : 1); if (ok && !bytes && b.any()) { violation("huge_any", "any() is true for the empty set after " + log); ok = false; }
    if (ok) { size_t p = wrap + r.below(m.n - wrap); b.set(p); susa::bitset q(b), z(3); z = q; if (!q.exists(p) || q.exists(p ^ wrap) || !z.exists(p) || z.exists(p ^ wrap)) violation("huge_copy", "a copy lost position " + std::to_string(p)); }
    seen(sig);
  }
  return finish();
}
#else
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(6000);
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("bits", c); const int K = 3; std::unique_ptr<susa::bitset> s[K]; Mdl m[K]; std::string log; uint64_t sig = c < 140 ? c : 0; bool ok = true, big = c >= 140 && c % 40 == 7; begin("history", "");
    auto size_of = [&]() { return c < 140 ? (size_t)(c % 70) : big ? 2000 + r.below(r.below(4) ? 6000 : 80000) : r.below(12) == 0 ? 200 + r.below(900) : r.below(70); };
    for (int i = 0; i < K; i++) { m[i].n = size_of(); if (m[i].n == 0 && r.below(3)) m[i].n = 1; s[i].reset(new susa::bitset(m[i].n)); log += "size" + std::to_string(m[i].n) + " "; sig = mix(sig + m[i].n); if (!agrees_b(*s[i], m[i], "construction", r)) ok = false; }
    int len = big ? 30 : 10 + (int)r.below(90);
    for (int k = 0; k < len && ok; k++) {
      int i = (int)r.below(K), j = (int)r.below(K); size_t sz = m[i].n, p = r.below(6) ? r.below(sz ? sz : 1) : r.below(3) == 0 ? sz : r.below(2) ? sz + r.below(20) : (r.below(2) ? SIZE_MAX : ((size_t)1 << 32) + r.below(sz + 1)); bool in = p < sz; std::string t;
      switch (r.below(13)) {
        case 0: case 1: case 2: t = "set" + std::to_string(i) + "(" + std::to_string(p) + ")"; s[i]->set(p); if (in) m[i].s.insert(p); break;
        case 3: case 4: t = "reset(" + std::to_string(p) + ")"; s[i]->reset(p); m[i].s.erase(p); break;
        case 5: t = "push(" + std::to_string(p) + ")"; s[i]->push(p); if (in) m[i].s.insert(p); break;
        case 6: case 7: { t = "pop"; size_t g = s[i]->pop(), w = m[i].s.empty() ? sz : *m[i].s.begin(); if (!m[i].s.empty()) m[i].s.erase(m[i].s.begin()); if (g != w) { violation("pop", "pop() returned " + std::to_string(g) + " instead of " + std::to_string(w) + " after " + log); ok = false; } break; }
        case 8: if (r.below(3)) break; t = "setall"; s[i]->set(); for (size_t q = 0; q < sz; q++) m[i].s.insert(q); break;
        case 9: if (r.below(3)) break; t = "resetall"; s[i]->reset(); m[i].s.clear(); break;
        case 10: { t = "copy"; std::unique_ptr<susa::bitset> q(new susa::bitset(*s[j])); Mdl w = m[j]; s[i] = std::move(q); m[i] = w; break; }
        case 11: t = "assign" + std::to_string(i) + "=" + std::to_string(j); *s[i] = *s[j]; m[i] = m[j]; break;
        case 12: { if (r.below(3)) break; t = "move"; Mdl w = m[j]; susa::bitset q(std::move(*s[j])); if (!agrees_b(q, w, log + "move", r)) ok = false; *s[j] = q; break; }
      }
      log += t + " "; sig = hbytes(t.data(), t.size(), sig); begin("history", log.substr(log.size() > 3000 ? log.size() - 3000 : 0));
      for (int q = 0; q < K && ok; q++) ok = agrees_b(*s[q], m[q], log, r);
    }
    // emptying it returns all positions in order
    if (ok) for (int i = 0; i < K && ok; i++) { size_t guard = 0; while (!m[i].s.empty() && (!big || guard++ < 100)) { size_t g = s[i]->pop(); if (g != *m[i].s.begin()) { violation("drain", "pop() returned " + std::to_string(g) + " instead of " + std::to_string(*m[i].s.begin()) + " after " + log); ok = false; break; } m[i].s.erase(m[i].s.begin()); } if (ok && m[i].s.empty() && s[i]->pop() != m[i].n) violation("drain_end", "pop() of an empty set does not return the size"); if (ok) agrees_b(*s[i], m[i], "drain", r); }
    stat_add("n_operations", len); seen(sig);
  }
  return finish();
}
#endif
