// T01: the tracker against an independent ledger, in one and in several threads, with failing allocations.
#include "mat.h"
#include <memory>
#include <thread>
#include <atomic>
using namespace mon;
static size_t reading() { return susa::memory_tacker::instance().read(); }
template <class T> using LM = susa::matrix<T, susa::allocator_log<T>>;
template <class T> using LA = susa::array<T, susa::allocator_log<T>>;

template <class T> struct Hist {
  static constexpr int K = 5; std::unique_ptr<LM<T>> s[K]; std::unique_ptr<LA<T>> a[K]; size_t an[K] = {0}; Rng& r; std::string log; uint64_t sig = 0;
  explicit Hist(Rng& rr) : r(rr) {}
  // the bytes these objects hold: matrices report their own size, arrays are modelled
  size_t held() const { size_t t = 0; for (int i = 0; i < K; i++) { if (s[i]) t += s[i]->size() * sizeof(T); if (a[i]) t += an[i] * sizeof(T); } return t; }
  void note(const std::string& x) { if (log.size() < 2500) log += x + " "; sig = hbytes(x.data(), x.size(), sig); }
  void step() {
    int i = (int)r.below(K), j = (int)r.below(K); size_t p, q; rnd_shape(r, p, q, 6); std::string IJ = std::to_string(i) + std::to_string(j);
    auto ens = [&](int k) { if (!s[k]) s[k].reset(new LM<T>()); }; auto ena = [&](int k) { if (!a[k]) { a[k].reset(new LA<T>()); an[k] = 0; } };
    switch (r.below(20)) {
      case 0: note("M" + IJ); s[i].reset(new LM<T>(p, q, T(1))); break; case 1: note("m" + IJ); s[i].reset(new LM<T>(std::make_tuple(p, q), T(2))); break;
      case 2: { note("cp" + IJ); ens(j); std::unique_ptr<LM<T>> n(new LM<T>(*s[j])); s[i] = std::move(n); break; }
      case 3: { note("mv" + IJ); ens(j); std::unique_ptr<LM<T>> n(new LM<T>(std::move(*s[j]))); s[i] = std::move(n); break; }
      case 4: case 5: note("=" + IJ); ens(i); ens(j); *s[i] = *s[j]; break; case 6: { note("rs" + IJ); ens(i); s[i]->resize(p, q); s[i]->set_all(T(1)); break; }
      case 7: { note("str" + IJ); ens(i); std::string t; for (size_t x = 0; x < 1 + p % 4; x++) { if (x) t += ";"; for (size_t y = 0; y < 1 + q % 5; y++) t += y ? " 1" : "1"; } if (r.below(8) == 0) t = ""; *s[i] = t; break; }
      case 8: note("del" + IJ); s[i].reset(); break;
      case 9: { note("ops" + IJ); ens(i); if (s[i]->size() == 0) break; *s[i] = *s[i] + *s[i]; *s[i] = susa::transpose(*s[i]); *s[i] = s[i]->row(0); break; }
      case 10: { note("mm" + IJ); ens(i); if (s[i]->size() == 0) break; s[i].reset(new LM<T>(susa::matmul(*s[i], susa::transpose(*s[i])))); s[i]->set_all(T(1)); break; }
      case 11: { note("sw" + IJ); ens(i); ens(j); std::swap(*s[i], *s[j]); break; }
      case 12: case 13: note("A" + IJ); a[i].reset(new LA<T>({p, q, 2})); an[i] = p * q * 2; for (size_t l = 0; l < an[i]; l++) (*a[i])(l) = T(1); break;
      case 14: { note("Acp" + IJ); ena(j); std::unique_ptr<LA<T>> n(new LA<T>(*a[j])); size_t c = an[j]; a[i] = std::move(n); an[i] = c; break; }
      case 15: note("A=" + IJ); ena(i); ena(j); *a[i] = *a[j]; an[i] = an[j]; break;
      case 16: { note("Amv" + IJ); ena(j); std::unique_ptr<LA<T>> n(new LA<T>(std::move(*a[j]))); size_t c = an[j]; an[j] = 0; a[i] = std::move(n); an[i] = c; break; }
      case 17: { note("Acl" + IJ); ena(i); size_t n = 1 + r.below(40); std::vector<T> d(n); a[i]->clone(d.data(), n); an[i] = n; break; }
      case 18: { note("fail" + IJ); /* a request no allocator can satisfy */
        size_t big = (SIZE_MAX / sizeof(T)) / 2 + 5 + r.below(1000); try { susa::allocator_log<T> al; T* q2 = al.allocate(big * (sizeof(T) == 1 ? 1 : 2)); al.deallocate(q2, 1); violation("impossible", "an impossible allocation succeeded"); } catch (const std::bad_alloc&) {}
        try { LA<T> z({big, (size_t)1}); } catch (const std::bad_alloc&) {}
#ifdef SUSA_NASSERT
        { LM<T> z(big, 1); if (z.size() != 0) violation("failed_matrix", "matrix of a failed allocation is not empty"); ens(i); s[i]->resize(1, big); if (s[i]->size() != 0) violation("failed_resize", "matrix of a failed resize is not empty"); }
#endif
        break; }
      case 19: { note("raw" + IJ); susa::allocator_log<T> al; size_t n = 1 + r.below(100); size_t before = reading(); T* p2 = al.allocate(n); if (!mt && reading() != before + n * sizeof(T)) violation("raw", "allocate(" + std::to_string(n) + ") moved the tracker by " + std::to_string(reading() - before)); al.deallocate(p2, n); break; }
    }
  }
  bool mt = false;
};
template <class T> void single(uint64_t n) {
  std::string kind = std::string("history:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t base = reading(); uint64_t sg;
    { Hist<T> h(r); int len = 15 + (int)r.below(60); for (int k = 0; k < len; k++) { h.step(); begin(kind, h.log); size_t got = reading() - base, want = h.held(); stat_add("n_readings", 1); stat_max("peak_bytes", (double)want); if (got != want) { violation(std::string("reading:") + tn<T>(), "the tracker reads " + std::to_string((long)got) + " bytes while " + std::to_string(want) + " are held after " + h.log); break; } } sg = h.sig; }
    if (reading() != base) violation(std::string("end:") + tn<T>(), "after destruction the tracker is off by " + std::to_string((long)(reading() - base)));
    seen(sg);
  }
}
// histories in several threads: exact at every barrier and at the end
template <class T> void threads(uint64_t n) {
  std::string kind = std::string("threads:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r0 = case_rng(kind.c_str(), c); size_t base = reading(); int nt = 2 + (int)r0.below(6), rounds = 4; begin(kind, std::to_string(nt) + " threads"); uint64_t sg = 0;
    {
      std::vector<Rng> rs; for (int t = 0; t < nt; t++) rs.push_back(Rng(r0.u64())); std::vector<std::unique_ptr<Hist<T>>> hs; for (int t = 0; t < nt; t++) { hs.emplace_back(new Hist<T>(rs[t])); hs.back()->mt = true; }
      for (int k = 0; k < rounds; k++) {
        std::vector<std::thread> th; std::atomic<int> ready{0};
        for (int t = 0; t < nt; t++) th.emplace_back([&, t] { ready++; while (ready < nt) std::this_thread::yield(); for (int q = 0; q < 150; q++) hs[t]->step(); });
        for (auto& t : th) t.join(); size_t want = 0; for (auto& h : hs) want += h->held(); stat_add("n_quiescent_points", 1);
        if (reading() - base != want) { violation(std::string("concurrent:") + tn<T>(), "after " + std::to_string(nt) + " concurrent threads the tracker reads " + std::to_string((long)(reading() - base)) + " while " + std::to_string(want) + " bytes are held"); break; }
      }
      for (auto& h : hs) sg = sg * 31 + h->sig;
    }
    if (reading() != base) violation(std::string("concurrent_end:") + tn<T>(), "tracker off by " + std::to_string((long)(reading() - base)));
    seen(sg);
  }
}
int main(int argc, char** argv) {
  init(argc, argv); 
#ifdef TSAN_ONLY
  uint64_t n = 0, m = N(12);
#else
  uint64_t n = N(600), m = N(40);
#endif
  begin("start", ""); if (S().shard == 0 && reading() != 0) violation("initial", "the tracker starts at " + std::to_string(reading()));
#if PART(0)
  single<int>(n); threads<int>(m);
#endif
#if PART(1)
  single<double>(n); threads<double>(m);
#endif
#if PART(2)
  single<std::complex<double>>(n); single<uint8_t>(n); threads<std::complex<float>>(m);
#endif
  return finish();
}
