// E01: MLSE equaliser against exact maximum-likelihood sequence search (dynamic programming in
// long double over symbol tuples, and brute force over every sequence when feasible).
#include "mat.h"
using namespace mon;
typedef long double L_;
template <class T> struct Chan { std::vector<T> taps, pam; size_t L, P; size_t states() const { size_t s = 1; for (size_t i = 1; i < L; i++) s *= P; return s; }
  std::vector<size_t> mem(size_t s) const { std::vector<size_t> v; for (size_t i = 1; i < L; i++) { v.push_back(s % P); s /= P; } return v; } };  // most recent symbol first
// squared distance between y and the channel output of x (index sequence), symbols before/after given by ctx (most recent first), or silence
template <class T> L_ cost(const Chan<T>& c, const std::vector<T>& y, const std::vector<T>& x, const std::vector<T>* pre) {
  L_ s = 0; for (size_t t = 0; t < y.size(); t++) { L_ o = 0; for (size_t k = 0; k < c.L; k++) { long i = (long)t - (long)k; L_ v = 0; if (i >= 0 && i < (long)x.size()) v = x[i]; else if (pre) { size_t n = c.L - 1; v = i < 0 ? (*pre)[-i - 1] : (*pre)[n - 1 - (i - (long)x.size())]; } o += (L_)c.taps[k] * v; } s += (o - y[t]) * (o - y[t]); } return s; }
// exact minimum over all sequences of length n
template <class T> L_ best(const Chan<T>& c, const std::vector<T>& y, size_t n, const std::vector<T>* pre) {
  // state: last L-1 symbol values as index tuple; index P = context/silence
  size_t Q = c.P + 1, l = c.L - 1; std::map<std::vector<size_t>, L_> cur, nxt; std::vector<size_t> st; for (size_t i = 0; i < l; i++) st.push_back(pre ? c.P + 1 + i : c.P); cur[st] = 0; (void)Q;
  auto val = [&](size_t k) -> L_ { if (k < c.P) return c.pam[k]; if (k == c.P) return 0; return (*pre)[k - c.P - 1]; };
  for (size_t t = 0; t < y.size(); t++) { nxt.clear(); for (auto& e : cur) { std::vector<size_t> opt; if (t < n) for (size_t k = 0; k < c.P; k++) opt.push_back(k); else opt.push_back(pre ? c.P + 1 + (l - 1 - (t - n)) : c.P);
      for (size_t k : opt) { L_ o = (L_)c.taps[0] * val(k); for (size_t j = 0; j < l; j++) o += (L_)c.taps[j + 1] * val(e.first[j]); std::vector<size_t> ns = e.first; ns.insert(ns.begin(), k); ns.pop_back(); L_ w = e.second + (o - y[t]) * (o - y[t]); auto it = nxt.find(ns); if (it == nxt.end() || w < it->second) nxt[ns] = w; } }
    cur.swap(nxt); }
  L_ b = 1e4000L; for (auto& e : cur) b = std::min(b, e.second); return b; }
template <class T> void run(uint64_t n) {
  for (uint64_t c0 = 0; c0 < n; c0++) { if (!turn()) continue; Rng r = case_rng(tn<T>(), c0);
    Chan<T> c; c.L = 2 + r.below(3); c.P = 2 + (r.chance(.4) ? r.below(3) : 0); while (c.states() > 40) c.P--; bool wide = r.chance(.03); if (wide) { switch (r.below(3)) { case 0: c.L = 5 + r.below(5); c.P = 2; break; case 1: c.L = 2; c.P = 5 + r.below(30); break; default: c.L = r.chance(.2) ? 2 : 3; c.P = c.L == 2 ? 257 + r.below(20) : 6 + r.below(12); } } bool longcase = !wide && r.chance(.15);
    bool exact = r.chance(.3); for (size_t i = 0; i < c.L; i++) c.taps.push_back(exact ? (T)r.range(-3, 3) : (T)r.gauss()); if (r.chance(.1)) c.taps[r.below(c.L)] = 0;
    int pk = r.below(3); for (size_t i = 0; i < c.P; i++) c.pam.push_back(pk == 0 ? (T)(2 * (double)i - (c.P - 1.)) : pk == 1 ? (T)r.range(-4, 4) : (T)r.gauss()); if (pk == 0 && r.chance(.3)) for (size_t i = 0; i < c.P; i++) std::swap(c.pam[i], c.pam[r.below(c.P)]);
    if (r.chance(.1)) { T f = (T)std::pow(10., (double)r.range(-5, 5)); for (T& p : (r.below(2) ? c.pam : c.taps)) p *= f; }
    bool known = r.below(2); size_t l = c.L - 1, N = longcase ? 20 + r.below(thorough() ? 300 : 100) : 1 + r.below(7); if (r.chance(.004) && !wide) N = 300 + r.below(900); if (c.states() <= 4 && r.chance(.003) && !wide) N = r.below(2) ? 2000 + r.below(5000) : 65000 + r.below(3000); if (wide && c.P > 200) N = 1 + r.below(3); if (!known && N < c.L) N = c.L + r.below(3);
    size_t init = r.below(c.states()); std::vector<T> pre; for (size_t k : c.mem(init)) pre.push_back(c.pam[k]);
    std::vector<T> x; for (size_t i = 0; i < N; i++) x.push_back(c.pam[r.below(c.P)]);
    auto col = [](const std::vector<T>& v) { susa::matrix<T> m(v.size(), 1); for (size_t i = 0; i < v.size(); i++) m(i) = v[i]; return m; };
    susa::matrix<T> mt(1, c.L), mp = r.below(2) ? susa::matrix<T>(1, c.P) : susa::matrix<T>(c.P, 1); for (size_t i = 0; i < c.L; i++) mt(i) = c.taps[i]; for (size_t i = 0; i < c.P; i++) mp(i) = c.pam[i];
    double sg = r.chance(.3) ? 0 : r.chance(.2) ? r.uni(2, 20) : r.uni(.05, 2); { double at = 0, ap = 0; for (T t : c.taps) at += std::fabs((double)t); for (T p : c.pam) ap = std::max(ap, std::fabs((double)p)); if (at * ap > 1000 || at * ap < .01) sg *= at * ap / 4; }
    begin(std::string(known ? "known:" : "unknown:") + tn<T>(), "taps " + vecstr(c.taps) + " pam " + vecstr(c.pam) + " init " + std::to_string(init) + " x " + vecstr(x) + " sigma " + vstr(sg));
    susa::channel<T> ch(mt, mp); auto mx = col(x), mx0 = mx;
    // encoder
    auto enc = ch.encode_isi(mx, (unsigned)init); std::vector<T> ye; bool ok = enc.size() == N + l && enc.no_cols() == 1;
    for (size_t t = 0; t < N + l; t++) { L_ o = 0, a = 0; for (size_t k = 0; k < c.L; k++) { long i = (long)t - (long)k; L_ v = i < 0 ? pre[-i - 1] : i < (long)N ? x[i] : pre[l - 1 - (i - N)]; o += (L_)c.taps[k] * v; a += std::fabs((L_)c.taps[k] * v); } ye.push_back((T)o); if (ok && !(std::fabs((L_)enc(t) - o) <= 8 * std::numeric_limits<T>::epsilon() * a)) ok = false; }
    if (!ok) violation("encode_isi", "encoded " + std::to_string(enc.size()) + " samples: " + [&] { std::string s; for (size_t i = 0; i < enc.size() && i < 20; i++) s += vstr(enc(i)) + " "; return s; }() + " instead of " + vecstr(ye)); if (!(mx == mx0)) violation("argument", "encode_isi changed its argument");
    // received signal
    std::vector<T> y; if (known) y = ye; else for (size_t t = 0; t < N + l; t++) { L_ o = 0; for (size_t k = 0; k < c.L; k++) { long i = (long)t - (long)k; if (i >= 0 && i < (long)N) o += (L_)c.taps[k] * x[i]; } y.push_back((T)o); }
    // signals almost half way between two sequences: only a full-precision metric tells which is nearer
    if (r.chance(.12) && c.P > 1) { std::vector<T> x2 = x; for (int k = 1 + (int)r.below(2); k--;) x2[r.below(N)] = c.pam[r.below(c.P)]; double d = std::pow(10., r.uni(-10, -3)) * (r.below(2) ? 1 : -1); for (size_t t = 0; t < N + l; t++) { L_ o = 0; for (size_t k = 0; k < c.L; k++) { long i = (long)t - (long)k; if (i >= 0 && i < (long)N) o += (L_)c.taps[k] * ((L_)x2[i] - (L_)x[i]); } y[t] = (T)((L_)y[t] + o * (.5L + d)); } stat_add("n_near_tie", 1); }
    else if (r.chance(.1)) for (auto& v : y) v = (T)(sg * r.gauss()); else if (sg > 0) for (auto& v : y) v += (T)(sg * r.gauss());
    bool outlier = r.chance(.1); if (outlier) for (int k = 1 + (int)r.below(2); k--;) y[r.below(y.size())] += (T)(std::pow(10., (double)r.range(2, 7)) * r.gauss()); // every metric carries one huge term: the others must still decide
    if (outlier) stat_add("n_outlier", 1);
    auto my = col(y), my0 = my; if (r.chance(.2)) { ch.decode_mlse(my, (unsigned)r.below(c.states())); }
    auto z = known ? ch.decode_mlse(my, (unsigned)init) : ch.decode_mlse(my); if (!(my == my0)) violation("argument", "decode_mlse changed its argument");
    if (z.size() != N || z.no_cols() != 1) { violation("mlse_size", std::to_string(z.size()) + " symbols instead of " + std::to_string(N)); continue; }
    std::vector<T> zv; bool alpha = true; for (size_t i = 0; i < N; i++) { zv.push_back(z(i)); alpha = alpha && std::find(c.pam.begin(), c.pam.end(), z(i)) != c.pam.end(); } if (!alpha) violation("mlse_alphabet", "returned " + vecstr(zv));
    L_ b = best(c, y, N, known ? &pre : nullptr), got = cost(c, y, zv, known ? &pre : nullptr), sc = 0; { L_ at = 0, ap = 0; for (T t : c.taps) at += std::fabs((L_)t); for (T p : c.pam) ap = std::max(ap, std::fabs((L_)p)); for (T v : y) sc += std::pow(std::fabs((L_)v) + at * ap, 2); }
    L_ tol = 16 * (L_)(N + l) * std::numeric_limits<T>::epsilon() * sc; stat_max(std::string("excess_rel_") + tn<T>(), sc > 0 ? (double)((got - b) / sc) : 0);
    if (!(got <= b + tol)) violation("mlse_not_ml", "distance " + vstr((double)got) + " > minimum " + vstr((double)b) + ", returned " + vecstr(zv));
    // brute force: validates the oracle and counts sequences attaining the minimum
    L_ total = std::pow((L_)c.P, (L_)N); if (total <= 3000) { L_ bb = 1e4000L; size_t near = 0; std::vector<T> s(N), arg; for (uint64_t q = 0; q < (uint64_t)total; q++) { uint64_t u = q; for (size_t i = 0; i < N; i++) { s[i] = c.pam[u % c.P]; u /= c.P; } L_ w = cost(c, y, s, known ? &pre : nullptr); if (w < bb) { bb = w; arg = s; } if (w <= b + tol) near++; }
      if (std::fabs(bb - b) > 1e-12L * (1 + sc)) violation("ORACLE", "reference searches disagree"); if (near == 1) { stat_add("n_unique_minimum", 1); if (zv != arg) violation("mlse_unique", "returned " + vecstr(zv) + " instead of " + vecstr(arg)); } stat_add("n_brute_forced", 1); }
    seen(hvec(y, hvec(c.taps, hvec(c.pam, init)))); }
}
int main(int argc, char** argv) { init(argc, argv); if (PART(0)) run<double>(N(2600, 8)); if (PART(1)) run<float>(N(1300, 8)); return finish(); }
