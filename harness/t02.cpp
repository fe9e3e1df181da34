// T02: the base memory block: histories of its operations against std::vector.
#include "mat.h"
#include <memory>
using namespace mon;
// the protected operations are reached the way the library's own containers do: by deriving
template <class T> struct Blk : susa::memory<T> {
  Blk() {} Blk(const Blk& o) : susa::memory<T>(o) {} Blk(Blk&& o) noexcept : susa::memory<T>(std::move(o)) {}
  Blk& operator=(const Blk& o) { susa::memory<T>::operator=(o); return *this; }
  void alloc(size_t n) { this->allocate(n); } void release() { this->deallocate(); }
  T* data() { return this->_matrix; } const T* data() const { return this->_matrix; }
  size_t bytes() const { return this->sizet_bytes; }
};
template <class T> void run(uint64_t n) {
  std::string kind = std::string("block:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); const int K = 5; std::unique_ptr<Blk<T>> s[K]; std::vector<T> m[K]; std::string log; uint64_t sig = 0; bool ok = true;
    auto note = [&](const std::string& x) { if (log.size() < 2500) log += x + " "; sig = hbytes(x.data(), x.size(), sig); };
    int len = 15 + (int)r.below(80); begin(kind, "");
    for (int k = 0; k < len && ok; k++) {
      int i = (int)r.below(K), j = (int)r.below(K); std::string IJ = std::to_string(i) + "," + std::to_string(j); auto ens = [&](int q) { if (!s[q]) { s[q].reset(new Blk<T>()); m[q].clear(); } };
      switch (r.below(11)) {
        case 0: note("new" + IJ); s[i].reset(new Blk<T>()); m[i].clear(); break;
        case 1: case 2: case 3: { ens(i); size_t q = r.below(5) ? 1 + r.below(40) : 1 + r.below(5000); if (r.below(10) == 0 && m[i].size()) q = m[i].size(); note("alloc" + IJ + ":" + std::to_string(q)); size_t old = m[i].size(); s[i]->alloc(q); m[i].resize(q); for (size_t e = 0; e < std::min(old, q); e++) if (!same<T>(s[i]->data()[e], m[i][e])) { violation(std::string("realloc:") + tn<T>(), "element " + std::to_string(e) + " lost after " + log); ok = false; break; }
          for (size_t e = old; e < q; e++) { m[i][e] = any_val<T>(r); s[i]->data()[e] = m[i][e]; } break; }
        case 4: ens(i); if (m[i].size()) { note("zero" + IJ); s[i]->alloc(0); m[i].clear(); } break;
        case 5: note("rel" + IJ); ens(i); s[i]->release(); m[i].clear(); break;
        case 6: { note("copy" + IJ); ens(j); std::unique_ptr<Blk<T>> q(new Blk<T>(*s[j])); std::vector<T> t = m[j]; s[i] = std::move(q); m[i] = t; break; }
        case 7: case 8: { note("=" + IJ); ens(i); ens(j); Blk<T>& ret = (*s[i] = *s[j]); m[i] = m[j]; if (&ret != s[i].get()) violation("assign_ret", "wrong reference"); break; }
        case 9: { note("move" + IJ); ens(j); std::unique_ptr<Blk<T>> q(new Blk<T>(std::move(*s[j]))); std::vector<T> t = m[j]; m[j].clear(); if (s[j]->size() != 0) { violation(std::string("moved_from:") + tn<T>(), "size() " + std::to_string(s[j]->size()) + " after move"); ok = false; } s[i] = std::move(q); m[i] = t; break; }
        case 10: if (s[i] && m[i].size()) { size_t e = r.below(m[i].size()); T v = any_val<T>(r); note("w" + IJ); s[i]->data()[e] = v; m[i][e] = v; } break;
      }
      begin(kind, log);
      for (int q = 0; q < K && ok; q++) if (s[q]) { if (s[q]->size() != m[q].size()) { violation(std::string("size:") + tn<T>(), "size() " + std::to_string(s[q]->size()) + " instead of " + std::to_string(m[q].size()) + " after " + log); ok = false; break; }
        for (size_t e = 0; e < m[q].size(); e++) if (!same<T>(s[q]->data()[e], m[q][e])) { violation(std::string("value:") + tn<T>(), "block " + std::to_string(q) + " element " + std::to_string(e) + " differs after " + log); ok = false; break; } }
    }
    stat_add("n_operations", len); seen(sig);
  }
}
// a block that cannot be had: the program ends with a diagnostic or the failure status, it does not go on with a smaller block
template <class T> void huge(uint64_t n) {
  std::string kind = std::string("huge:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t q, wrap = SIZE_MAX / sizeof(T);
    switch (sizeof(T) == 1 ? 1 + r.below(3) : r.below(4)) { case 0: q = wrap + 2 + r.below(1000); break; case 1: q = SIZE_MAX - r.below(100); break; case 2: q = ((size_t)1 << (61 + r.below(3))) + 1 + r.below(5000); break; default: q = ((size_t)1 << (48 + r.below(12))) + r.below(100); }
    size_t before = r.below(2) ? 0 : 1 + r.below(50); begin(kind, "allocate(" + std::to_string(q) + ") after " + std::to_string(before));
    Obs o = isolated([&] { Blk<T> b; if (before) b.alloc(before); b.alloc(q); }); if (o.ok || o.code == 55) violation(std::string("huge:") + tn<T>(), "a block of " + std::to_string(q) + " elements was handed out");
    stat_add("n_refused_huge", !o.ok); seen(hstr(std::to_string(q).c_str()) ^ before); }
}
int main(int argc, char** argv) { init(argc, argv); uint64_t n = N(2500); run<int>(n); run<double>(n); run<unsigned char>(n); run<std::complex<double>>(n); n = std::min<uint64_t>(n / 40 + 20, 400); huge<int>(n); huge<double>(n); huge<unsigned char>(n); huge<std::complex<double>>(n); return finish(); }
