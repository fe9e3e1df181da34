// Y01: time stamps and the chronometer. All clocks the C library offers are replaced by a clock of this
// harness, one per thread, so that any moment and any elapsed time can be presented; the calendar is
// recomputed from the day number. Works however the library asks for the time.
#include "mon.h"
#include <susa.h>
#include <thread>
#include <atomic>
#include <ctime>
#include <sys/time.h>
using namespace mon;
static thread_local bool fake = false; static thread_local int64_t fake_s = 0, fake_ns = 0; static std::atomic<uint64_t> asked{0};
static int real_clock(clockid_t c, timespec* t) { return (int)syscall(228 /* clock_gettime, x86-64 */, c, t); }
extern "C" {
int clock_gettime(clockid_t c, timespec* t) noexcept { if (!fake || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return real_clock(c, t); asked++; t->tv_sec = fake_s; t->tv_nsec = fake_ns; return 0; }
time_t time(time_t* p) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int gettimeofday(timeval* v, void*) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
int timespec_get(timespec* t, int base) noexcept { clock_gettime(CLOCK_REALTIME, t); return base; }
}
// proleptic Gregorian calendar from the day number (days since 1970-01-01)
static void civil(int64_t z, int64_t& y, int& m, int& d) { y = 1970; for (;;) { bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; int n = leap ? 366 : 365; if (z < n) { static const int len[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (m = 0; m < 12; m++) { int l = len[m] + (m == 1 && leap); if (z < l) break; z -= l; } m++; d = (int)z + 1; return; } z -= n; y++; } }
static int64_t days_to(int y) { int64_t n = 0; for (int k = 1970; k < y; k++) n += ((k % 4 == 0 && k % 100 != 0) || k % 400 == 0) ? 366 : 365; return n; }
struct Zone { std::string tz; int64_t off; bool dst; };
static const std::vector<Zone>& zones() { static const std::vector<Zone> z = {{"UTC0", 0, false}, {"IRST-3:30", 12600, false}, {"NST+3:30", -12600, false}, {"LINT-14", 50400, false}, {"AOE+12", -43200, false}, {"NPT-5:45", 20700, false}, {"PST8", -28800, false}, {"CET-1CEST,M3.5.0/2,M10.5.0/3", 3600, true}, {"EST5EDT,M3.2.0,M11.1.0", -18000, true}}; return z; }
static int dow(int64_t day) { return (int)((day + 4) % 7); }   // 1970-01-01 was a Thursday
static int64_t nth_sunday(int y, int mon, int nth) { int64_t d0 = days_to(y); for (int64_t d = d0; d < d0 + 366; d++) { int64_t yy; int m, dd; civil(d, yy, m, dd); if (m == mon && dow(d) == 0) { if (nth < 5 ? (dd - 1) / 7 + 1 == nth : dd > 24) return d; } } return -1; }
static std::string expected(int64_t t, const Zone& z) { int64_t off = z.off; if (z.dst) { int64_t y; int m, d; civil((t + z.off) / 86400, y, m, d); int64_t a, b; if (z.off == 3600) { a = nth_sunday((int)y, 3, 5) * 86400 + 2 * 3600 - 3600; b = nth_sunday((int)y, 10, 5) * 86400 + 3 * 3600 - 7200; } else { a = nth_sunday((int)y, 3, 2) * 86400 + 2 * 3600 + 18000; b = nth_sunday((int)y, 11, 1) * 86400 + 2 * 3600 + 14400; } if (t >= a && t < b) off += 3600; }
  int64_t l = t + off, y; int m, d; civil(l / 86400, y, m, d); int64_t s = l % 86400; char b[64]; snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02d", (int)y, m, d, (int)(s / 3600), (int)(s / 60 % 60), (int)(s % 60)); return b; }
static int64_t moment(Rng& r) { int64_t lo = days_to(2000) * 86400 + 86400, hi = days_to(2100) * 86400 - 86400; int64_t t = r.range(lo, hi);
  switch (r.below(6)) { case 0: return t; case 1: t = t / 86400 * 86400; break; case 2: t = t / 3600 * 3600; break; case 3: { t = days_to((int)r.range(2001, 2098)) * 86400; break; } case 4: t = (days_to((int)r.range(2000, 2098)) + r.range(58, 61)) * 86400; break; default: { int y = (int)r.range(2001, 2098); t = (r.below(2) ? nth_sunday(y, r.below(2) ? 3 : 10, 5) : nth_sunday(y, r.below(2) ? 3 : 11, r.below(2) ? 2 : 1)) * 86400 + r.range(0, 9) * 3600; } } return t + r.range(-3, 3) * (r.below(2) ? 1 : 1800); }
static void set_clock(int64_t s, int64_t ns) { fake_s = s; fake_ns = ns; fake = true; }

static void stamp_case(uint64_t c, const Zone& z) { Rng r = case_rng("stamp", c * 1000 + hstr(z.tz.c_str()) % 997); int64_t t = moment(r); begin("timestamp", "TZ=" + z.tz + " moment " + std::to_string(t)); uint64_t a0 = asked; set_clock(t, r.range(0, 999999999)); std::string s = susa::timestamp(), s2 = susa::timestamp(); fake = false;
  std::string e = expected(t, z); if (asked == a0) stat_add("n_clock_not_asked", 1); MON_CHECK(s == e, "timestamp", "got '" << s << "', the local time is " << e); MON_CHECK(s2 == e, "timestamp_again", "second call got '" << s2 << "', the local time is " << e); seen(mix(t) ^ hstr(z.tz.c_str())); }
static void toc_case(uint64_t c) { Rng r = case_rng("toc", c); int64_t s = moment(r), ns = r.range(0, 999999999); int64_t el; switch (r.below(6)) { case 0: el = r.range(0, 3000000); break; case 1: el = r.range(0, 5) * 1000000000 + r.range(-2, 2) * 1000000; break; case 2: el = r.range(0, 100000) * 1000000; break; case 3: el = r.range(0, 100) * 3600 * 1000000000LL; break; case 4: el = r.range(0, 40) * 86400 * 1000000000LL + r.range(0, 999999999); break; default: el = r.range(0, 10000000000LL); } if (el < 0) el = -el;
  begin("toc", "started at " + std::to_string(s) + " s, " + std::to_string(el) + " ns elapsed"); bool again = r.below(2); set_clock(s - 1000, 5); if (again) { susa::tic(); (void)susa::toc(); }
  set_clock(s, ns); susa::tic(); int64_t n2 = ns + el; set_clock(s + n2 / 1000000000, n2 % 1000000000); double got; bool print = r.chance(.3); std::string text;
  if (print) { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); susa::toc_print(); std::cout.rdbuf(old); text = o.str(); size_t p = text.find_first_of("0123456789"); got = p == std::string::npos ? NAN : strtod(text.c_str() + p, nullptr); } else got = susa::toc(); fake = false;
  double e = (double)el / 1e9; double tol = .0010001 + (print ? 1e-5 * e : 1e-9 * e); MON_CHECK(std::fabs(got - e) <= tol, print ? "toc_print" : "toc", "reported " << got << (print ? " in '" + text + "'" : std::string()) << ", elapsed " << e); seen(mix(el) ^ mix(s * 1000 + print), el > 0); }
// every thread has a clock of its own: stamps mixed up between threads show
static void thread_case(uint64_t c, const Zone& z) { begin("threads", "TZ=" + z.tz + " round " + std::to_string(c)); size_t nt = 2 + c % 6; std::atomic<size_t> ready{0}; std::vector<std::thread> th; std::vector<std::vector<std::pair<int64_t, std::string>>> got(nt); for (size_t k = 0; k < nt; k++) th.emplace_back([&, k] { Rng r = case_rng("threads", c * 16 + k); std::vector<int64_t> ts(60); for (auto& t : ts) t = moment(r); ready++; while (ready < nt) std::this_thread::yield(); for (int64_t t : ts) { set_clock(t, 0); std::string s = susa::timestamp(); fake = false; got[k].push_back({t, s}); } });
  for (auto& t : th) t.join(); uint64_t sig = 0; for (auto& v : got) for (auto& p : v) { std::string e = expected(p.first, z); MON_CHECK(p.second == e, "timestamp_threads", "got '" << p.second << "' in a thread whose local time is " << e); sig = mix(sig ^ mix(p.first)); } stat_add("n_concurrent_stamps", (double)(nt * 60)); seen(sig); }
// the clock of the machine, unmodified
static void real_case(uint64_t c) { begin("real", "round " + std::to_string(c)); Zone z = zones()[0]; timespec a, b; std::string why; 
  for (int attempt = 0; attempt < 3; attempt++) { std::ostringstream w; real_clock(CLOCK_REALTIME, &a); std::string s = susa::timestamp(); real_clock(CLOCK_REALTIME, &b); bool ok = false; for (int64_t t = a.tv_sec - 1; t <= b.tv_sec + 1; t++) ok |= s == expected(t, z); if (!ok) w << "stamp '" << s << "' at " << expected(a.tv_sec, z) << "; ";
    timespec m0, m1, m2, m3; real_clock(CLOCK_MONOTONIC, &m0); susa::tic(); real_clock(CLOCK_MONOTONIC, &m1); usleep((useconds_t)(1000 + 997 * (c % 5))); real_clock(CLOCK_MONOTONIC, &m2); double g = susa::toc(); real_clock(CLOCK_MONOTONIC, &m3); auto df = [](timespec& x, timespec& y) { return (double)(y.tv_sec - x.tv_sec) + 1e-9 * (double)(y.tv_nsec - x.tv_nsec); };
    if (!(g >= df(m1, m2) - .004 && g <= df(m0, m3) + .004)) w << "reported " << g << " s, elapsed between " << df(m1, m2) << " and " << df(m0, m3); why = w.str(); if (why.empty()) break; }   // an adjustment of the machine's clock must not count
  MON_CHECK(why.empty(), "real_clock", why); seen(mix(c), true); }
int main(int argc, char** argv) {
  init(argc, argv); const Zone& z = zones()[(S().shard + S().seed) % zones().size()];   // one zone per process
  setenv("TZ", (S().shard == 0 ? zones()[0] : z).tz.c_str(), 1); tzset(); const Zone& zz = S().shard == 0 ? zones()[0] : z;
  uint64_t n = N(4000); for (uint64_t c = 0; c < n; c++) stamp_case(c * S().nshard + S().shard, zz);
  n = N(2000); for (uint64_t c = 0; c < n; c++) toc_case(c * S().nshard + S().shard);
  n = N(60); for (uint64_t c = 0; c < n; c++) thread_case(c * S().nshard + S().shard, zz);
  if (S().shard == 0) for (uint64_t c = 0; c < 5; c++) real_case(c);
  // the time zone of the process changes between calls, as localtime() notices
  n = N(40); for (uint64_t c = 0; c < n; c++) { const Zone& y = zones()[mix(c * 31 + S().shard) % zones().size()]; setenv("TZ", y.tz.c_str(), 1); stamp_case(1000000 + c * S().nshard + S().shard, y); stat_add("n_zone_changes", 1); }
  return finish(); }
