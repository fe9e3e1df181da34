// Common monitor runtime of all harnesses: deterministic PRNG, case book-keeping,
// crash breadcrumb, violation log, isolated (forked) observation of traps.
// The oracle code of a harness uses plain C++ containers only, never susa types.
#ifndef MON_H
#define MON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <complex>
#include <functional>
#include <limits>
#include <algorithm>
#include <numeric>
#include <mutex>
#include <cerrno>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <type_traits>

#ifndef MON_PART
#define MON_PART -1
#endif
// a harness may be compiled in several parts (each a separate program) to shorten the build
#define PART(k) (MON_PART < 0 || MON_PART == (k))

namespace mon {

inline uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
inline uint64_t hbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }

struct Rng {
  uint64_t s, drawn = 0, flip = ~0ull;   // the flip-th number drawn is replaced by another one
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return drawn++ == flip ? mix(~s) : mix(s); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }                 // [0,n)
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }  // [lo,hi]
  double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double gauss() { double a = unit(), b = unit(); if (a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  bool chance(double p) { return unit() < p; }
};

struct Crumb { uint64_t case_no; double cpu_start; uint64_t evals; char kind[64]; char text[4096]; };

struct State {
  uint64_t seed = 1; bool thorough = false; unsigned shard = 0, nshard = 1; double scale = 1.0;
  std::string out; uint64_t turn_no = 0; uint64_t evals = 0;
  std::unordered_set<uint64_t> sigs; std::map<std::string, uint64_t> kinds; std::vector<std::string> samples;
  std::map<std::string, int> sample_kinds;
  std::vector<std::pair<std::string, std::string>> viol; std::map<std::string, uint64_t> viol_count;
  std::map<std::string, double> stats;
  Crumb* crumb = nullptr; std::string cur_kind, cur_text; std::mutex mu; bool child = false;
};
inline State& S() { static State* s = new State; return *s; }

inline std::string esc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

inline double cpu_now() { rusage u; getrusage(RUSAGE_SELF, &u); return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec); }

inline void flush() {
  State& s = S(); if (s.child) return;
  FILE* f = fopen(s.out.c_str(), "w"); if (!f) { fprintf(stderr, "cannot write %s\n", s.out.c_str()); _exit(9); }
  fprintf(f, "{\"evaluations\":%llu,\"kinds\":{", (unsigned long long)s.evals);
  bool first = true; for (auto& k : s.kinds) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); first = false; }
  fprintf(f, "},\"stats\":{"); first = true;
  for (auto& k : s.stats) { double v = std::isfinite(k.second) ? k.second : -1; fprintf(f, "%s\"%s\":%.17g", first ? "" : ",", esc(k.first).c_str(), v); first = false; }
  fprintf(f, "},\"samples\":["); first = true; for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(x).c_str()); first = false; }
  fprintf(f, "],\"viol\":["); first = true;
  for (auto& v : s.viol) { fprintf(f, "%s{\"key\":\"%s\",\"detail\":\"%s\"}", first ? "" : ",", esc(v.first).c_str(), esc(v.second).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  f = fopen((s.out + ".sigs").c_str(), "wb"); for (uint64_t h : s.sigs) fwrite(&h, 8, 1, f); fclose(f);
}

inline void init(int argc, char** argv) {
  State& s = S();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") s.seed = strtoull(v.c_str(), 0, 10); else if (a == "--tier") s.thorough = v == "thorough";
    else if (a == "--shard") s.shard = atoi(v.c_str()); else if (a == "--nshard") s.nshard = atoi(v.c_str());
    else if (a == "--out") s.out = v; else if (a == "--scale") s.scale = atof(v.c_str());
    else if (a == "--crumb") { int fd = open(v.c_str(), O_RDWR | O_CREAT, 0600); if (fd >= 0 && ftruncate(fd, sizeof(Crumb)) == 0) { void* p = mmap(0, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) s.crumb = (Crumb*)p; close(fd); } }
  }
  if (s.out.empty()) s.out = "/dev/stdout";
}

// number of random cases: quick value, and a multiple of it in the thorough tier
inline uint64_t N(uint64_t quick, double factor = 8) { State& s = S(); double v = quick * s.scale * (s.thorough ? factor : 1.0); return v < 1 ? 1 : (uint64_t)v; }
inline bool thorough() { return S().thorough; }

// true if this shard executes the next case; every call is one case of the deterministic enumeration
inline bool turn() { State& s = S(); return (s.turn_no++ % s.nshard) == s.shard; }

// One case in six repeats the case this shard ran before it with a single drawn number replaced (mostly: one element of the
// arguments), so that a result remembered from the previous call is noticed.
inline Rng case_rng(const char* kind, uint64_t idx) {
  uint64_t k = mix(S().seed * 0x1234567 + hstr(kind)), near = mix(k + idx * 0x51ED27ull), at = idx; bool again = near % 6 == 0 && idx >= S().nshard;
  while (at >= S().nshard && mix(k + at * 0x51ED27ull) % 6 == 0) at -= S().nshard;
  Rng r(k ^ mix(at)); if (again) r.flip = 3 + (mix(near) >> 8) % (8ull << (near >> 32) % 7);
  return r; }

inline void begin(const std::string& kind, const std::string& text) {
  State& s = S(); s.cur_kind = kind; s.cur_text = text;
  if (s.crumb) { s.crumb->case_no = s.turn_no; s.crumb->cpu_start = cpu_now(); s.crumb->evals = s.evals; strncpy(s.crumb->kind, kind.c_str(), 63); s.crumb->kind[63] = 0; size_t n = std::min(text.size(), sizeof(s.crumb->text) - 1); memcpy(s.crumb->text, text.data(), n); s.crumb->text[n] = 0; }
}
// count one executed case; sig identifies its inputs, nontrivial by the harness's rule
inline void seen(uint64_t sig, bool nontrivial = true) {
  State& s = S(); s.evals++; s.kinds[s.cur_kind]++;
  if (nontrivial) s.sigs.insert(mix(sig ^ hstr(s.cur_kind.c_str())));
  if (s.sample_kinds[s.cur_kind]++ < 1 && s.samples.size() < 12) s.samples.push_back(s.cur_kind + ": " + s.cur_text.substr(0, 300));
}
inline void stat_max(const std::string& k, double v) { State& s = S(); auto it = s.stats.find(k); if (it == s.stats.end() || v > it->second || std::isnan(v)) s.stats[k] = v; }
inline void stat_add(const std::string& k, double v) { S().stats[k] += v; }

inline void violation(const std::string& key, const std::string& detail) {
  State& s = S(); std::lock_guard<std::mutex> g(s.mu);
  if (s.viol_count[key]++ < 2) s.viol.push_back({key, "[" + s.cur_kind + "] " + s.cur_text.substr(0, 1500) + " :: " + detail.substr(0, 1500)});
  if (s.child) return;
  uint64_t total = 0; for (auto& x : s.viol_count) total += x.second;
  if (total >= 200) { flush(); _exit(0); }
}
#define MON_CHECK(cond, key, det) do { if (!(cond)) { std::ostringstream mon_os; mon_os.precision(17); mon_os << det; mon::violation(key, mon_os.str()); } } while (0)

inline int finish() { flush(); return 0; }

// ---- observe a call in a forked child --------------------------------------------------
struct Obs { int sig = 0; int code = -1; std::string err; bool trapped = false; bool sanitizer = false; bool ok = false; };
inline Obs isolated(const std::function<void()>& f, unsigned cpu_s = 20) {
  Obs o; int fd[2]; if (pipe(fd) != 0) { perror("pipe"); _exit(9); }
  fflush(stdout); fflush(stderr);
  pid_t p = fork(); if (p < 0) { perror("fork"); _exit(9); }
  if (p == 0) {
    close(fd[0]); dup2(fd[1], 2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl); rlimit rc{cpu_s + (rlim_t)cpu_now() + 1, cpu_s + (rlim_t)cpu_now() + 1}; setrlimit(RLIMIT_CPU, &rc);
    S().child = true; f(); fflush(stderr); _exit(S().viol.empty() ? 0 : 55);
  }
  close(fd[1]); char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) if (o.err.size() < 20000) o.err.append(b, n);
  close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) o.sig = WTERMSIG(st); else o.code = WEXITSTATUS(st);
  o.sanitizer = o.err.find("Sanitizer") != std::string::npos || o.err.find("runtime error:") != std::string::npos;
  bool msg = o.err.find("Assertion failed") != std::string::npos || (o.err.find("Assertion `") != std::string::npos && o.err.find("/usr/include") == std::string::npos);
  o.trapped = o.sig == SIGABRT && msg && !o.sanitizer;
  o.ok = o.sig == 0 && o.code == 0;
  return o;
}
inline std::string obs_str(const Obs& o) { std::ostringstream s; s << "signal " << o.sig << " exit " << o.code << " stderr: " << o.err.substr(0, 700); return s.str(); }

// ---- type helpers ----------------------------------------------------------------------
template <class T> struct is_cplx : std::false_type {};
template <class T> struct is_cplx<std::complex<T>> : std::true_type {};
template <class T> inline const char* tn() {
  if constexpr (std::is_same_v<T, int8_t>) return "int8"; else if constexpr (std::is_same_v<T, uint8_t>) return "uint8"; else if constexpr (std::is_same_v<T, int16_t>) return "int16";
  else if constexpr (std::is_same_v<T, uint16_t>) return "uint16"; else if constexpr (std::is_same_v<T, int>) return "int"; else if constexpr (std::is_same_v<T, unsigned>) return "unsigned";
  else if constexpr (std::is_same_v<T, long>) return "long"; else if constexpr (std::is_same_v<T, unsigned long>) return "size_t"; else if constexpr (std::is_same_v<T, float>) return "float";
  else if constexpr (std::is_same_v<T, double>) return "double"; else if constexpr (std::is_same_v<T, std::complex<float>>) return "cfloat"; else if constexpr (std::is_same_v<T, std::complex<double>>) return "cdouble";
  else if constexpr (std::is_same_v<T, std::complex<int>>) return "cint"; else if constexpr (std::is_same_v<T, bool>) return "bool"; else if constexpr (std::is_same_v<T, char>) return "char"; else if constexpr (std::is_same_v<T, std::complex<int8_t>>) return "cint8"; else if constexpr (std::is_same_v<T, std::complex<uint8_t>>) return "cuint8"; else return "T"; }
// small value exactly representable in T (so that reference arithmetic is exact)
template <class T> T small_val(Rng& r, int lim = 9) {
  if constexpr (is_cplx<T>::value) { using U = typename T::value_type; return T((U)r.range(-lim, lim), (U)r.range(-lim, lim)); }
  else if constexpr (std::is_same_v<T, bool>) return r.below(2) != 0;
  else if constexpr (std::is_unsigned_v<T>) return (T)r.range(0, lim); else return (T)r.range(-lim, lim); }
// any finite value, with boundary values over-represented
template <class T> T any_val(Rng& r) {
  if constexpr (is_cplx<T>::value) { using U = typename T::value_type; return T(any_val<U>(r), any_val<U>(r)); }
  else if constexpr (std::is_same_v<T, bool>) return r.below(2) != 0;
  else if constexpr (std::is_integral_v<T>) { switch (r.below(8)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return 0; case 3: return (T)1; case 4: return (T)-1; default: return (T)r.u64(); } }
  else { switch (r.below(11)) { case 10: switch (r.below(5)) { case 0: return -T(0); case 1: return std::numeric_limits<T>::denorm_min(); case 2: return std::numeric_limits<T>::max(); case 3: return -std::numeric_limits<T>::max(); default: return std::numeric_limits<T>::min(); } case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (T)1e-30; case 4: return (T)(-1e30); case 5: return (T)r.range(-1000, 1000); default: return (T)(r.gauss() * std::pow(10.0, (double)r.range(-6, 6))); } } }
template <class T> std::string vstr(const T& v) { std::ostringstream o; o.precision(12); if constexpr (is_cplx<T>::value) o << "(" << +v.real() << "," << +v.imag() << ")"; else o << +v; return o.str(); }
template <class V> std::string vecstr(const V& v, size_t lim = 64) { std::string s = "{"; size_t i = 0; for (const auto& x : v) { if (i++ == lim) { s += ",..."; break; } if (i > 1) s += ","; s += vstr(x); } return s + "}"; }
template <class T> uint64_t hval(const T& v, uint64_t h) { if constexpr (is_cplx<T>::value) { auto a = v.real(); auto b = v.imag(); return hbytes(&b, sizeof b, hbytes(&a, sizeof a, h)); } else return hbytes(&v, sizeof v, h); }
template <class V> uint64_t hvec(const V& v, uint64_t h = 7) { for (const auto& x : v) { using T = std::decay_t<decltype(x)>; T y = x; h = hval(y, h * 31 + 1); } return h; }
template <class T> bool same(const T& a, const T& b) { if constexpr (is_cplx<T>::value) return same(a.real(), b.real()) && same(a.imag(), b.imag()); else if constexpr (std::is_floating_point_v<T>) return a == b || (std::isnan(a) && std::isnan(b)); else return a == b; }

} // namespace mon
#endif
