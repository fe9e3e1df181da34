// R02: derived variates as functions of the uniform stream.
#include "mat.h"
#include <random>
using namespace mon;
static uint32_t seed(Rng& r) { return r.below(4) ? (uint32_t)r.u64() : (uint32_t)r.below(3); }
static bool near(double a, double b, double t = 1e-12) { return std::fabs(a - b) <= t * (std::fabs(b) + 1e-300) || (t == 1e-12 && std::fabs(a - b) <= 1e-10); } // log(w) is ill-conditioned near w=1
struct U { std::mt19937 g; U(uint32_t s) : g(s) {} double u() { return g() / 4294967295.0; } double v() { return (g() + .5) / 4294967296.0; } void pair(double& a, double& b) { double x, y, w; do { x = 2 * u() - 1; y = 2 * u() - 1; w = x * x + y * y; } while (w >= 1); w = std::sqrt(-2 * std::log(w) / w); a = x * w; b = y * w; } };
static susa::matrix<double> probs(Rng& r, std::vector<double>& p, bool distinct) { size_t k = 2 + r.below(r.chance(.1) ? 40 : 8); if (r.chance(.01)) k = 250 + r.below(400); p.resize(k); double s = 0; for (auto& x : p) { x = r.chance(.1) ? 0 : distinct ? r.unit() : (double)r.below(4); s += x; } if (s == 0) { p[0] = 1; s = 1; } double tot = r.chance(.15) ? .7 : 1; for (auto& x : p) x *= tot / s; susa::matrix<double> m = r.below(2) || k == 1 ? susa::matrix<double>(k, 1) : susa::matrix<double>(1, k); for (size_t i = 0; i < k; i++) m(i) = p[i]; return m; }
// the admissible indices of one draw u; empty if u is too close to a threshold to be decided
static std::vector<size_t> pick(const std::vector<double>& p, double u, bool sorted) {
  std::vector<size_t> id(p.size()); std::iota(id.begin(), id.end(), 0); if (sorted) std::stable_sort(id.begin(), id.end(), [&](size_t a, size_t b) { return p[a] < p[b]; });
  long double t = 0; for (size_t i : id) { t += p[i]; if (std::fabs(t - u) < 1e-12L) return {}; if (t > u) { std::vector<size_t> o; if (!sorted) o.push_back(i); else for (size_t j = 0; j < p.size(); j++) if (p[j] == p[i]) o.push_back(j); return o; } } return {0}; }
template <class M> static bool shape(const M& m, size_t a, size_t b, const char* key) { if (m.no_rows() == a && m.no_cols() == b) return true; violation(key, "shape " + std::to_string(m.no_rows()) + "x" + std::to_string(m.no_cols()) + " instead of " + std::to_string(a) + "x" + std::to_string(b)); return false; }
#ifdef LONG_GAUSS
// tens of millions of draws: every pair must be accepted or rejected as the polar method says
int main(int argc, char** argv) { init(argc, argv); uint64_t n = thorough() ? 64 : 8;
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("long", c); uint32_t s = seed(r); if (s < 3) s = (uint32_t)r.u64(); int how = (int)(c % 4); const unsigned K = 6000000, B = how < 2 ? 1000000 : 1; begin("long_gauss", std::string(how % 2 ? "mt" : "rng") + (how < 2 ? " blocks" : " single") + " seed " + std::to_string(s)); susa::rng g(s); susa::mt h(s); U o(s); double y1 = 0, y2 = 0, wmin = 1; bool bad = false; if (how == 3) { continue; }
    for (unsigned t = 0; t < K && !bad; t += B) { if (B == 1) { o.pair(y1, y2); double v = g.randn(); if (!near(v, y1)) { violation("long_randn", "draw " + std::to_string(t) + " is " + vstr(v) + " instead of " + vstr(y1)); bad = true; } wmin = std::min(wmin, std::exp(-(y1 * y1 + y2 * y2) / 2)); }
      else { auto m = how % 2 ? h.randn(B) : g.randn(B); for (unsigned i = 0; i < B && !bad; i++) { if (i % 2 == 0) o.pair(y1, y2); double w = i % 2 ? y2 : y1; if (!near(m(i), w)) { violation("long_randn", "draw " + std::to_string(t + i) + " is " + vstr(m(i)) + " instead of " + vstr(w)); bad = true; } if (i % 2 == 0) wmin = std::min(wmin, std::exp(-(y1 * y1 + y2 * y2) / 2)); } } }
    stat_add("n_gauss_draws", K); stat_max("extreme_radius", -std::log(wmin)); seen(s * 8ull + how); }
  return finish(); }
#else
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(2500);
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("variates", c); uint32_t s = seed(r); size_t k = 1 + r.below(r.chance(.05) ? 3000 : r.chance(.003) ? 80000 : 60), a = 1 + r.below(12), b = 1 + r.below(12); if (r.chance(.01)) { a = 250 + r.below(60); if (r.below(3) == 0) b = 250 + r.below(60); if (r.below(2)) std::swap(a, b); } begin("variates", "seed " + std::to_string(s) + " n=" + std::to_string(k) + " " + std::to_string(a) + "x" + std::to_string(b)); size_t skip = r.below(3) ? r.below(700) : 0;
    auto run = [&](const char* key, size_t rows, size_t cols, auto f, auto o, double tol) { auto m = f(); if (!shape(m, rows, cols, key)) return; for (size_t i = 0; i < rows * cols; i++) { double w = o(i); if (!near((double)m(i), w, tol)) { violation(key, "element " + std::to_string(i) + " is " + vstr((double)m(i)) + " instead of " + vstr(w)); return; } } auto m2 = f; (void)m2; };
    { susa::rng g(s); U o(s); for (size_t i = 0; i < skip; i++) { g.rand(); o.g(); } run("rng_rand_rect", a, b, [&] { return g.rand((unsigned)a, (unsigned)b); }, [&](size_t) { return o.u(); }, 4e-16); run("rng_rand_vector", k, 1, [&] { return g.rand((unsigned)k); }, [&](size_t) { return o.u(); }, 4e-16);
      double y2 = 0; run("rng_randn_vector", k, 1, [&] { return g.randn((unsigned)k); }, [&](size_t i) { double y1; if (i % 2) return y2; o.pair(y1, y2); return y1; }, 1e-12);
      for (int i = 0; i < 8; i++) { double y1; o.pair(y1, y2); double v = g.randn(); MON_CHECK(near(v, y1), "rng_randn", v << " instead of " << y1); }
      run("rng_bernoulli", k, 1, [&] { return g.bernoulli(k); }, [&](size_t) { return (double)(o.g() & 1); }, 0); unsigned m = (unsigned)r.u64(); run("rng_mask", k, 1, [&] { return g.rand_mask(m, (unsigned)k); }, [&](size_t) { return (double)(o.g() & m); }, 0); }
    { susa::mt g(s); U o(s); for (size_t i = 0; i < skip; i++) { g.rand_mask(1); o.g(); } double y2 = 0; run("mt_rand_vector", k, 1, [&] { return g.rand((unsigned)k); }, [&](size_t) { return o.u(); }, 4e-16); run("mt_randn_vector", k, 1, [&] { return g.randn((unsigned)k); }, [&](size_t i) { double y1; if (i % 2) return y2; o.pair(y1, y2); return y1; }, 1e-12); unsigned m = (unsigned)r.u64(); run("mt_mask", k, 1, [&] { return g.rand_mask(m, (unsigned)k); }, [&](size_t) { return (double)(o.g() & m); }, 0); }
    { susa::mt g(s); U o(s); for (int i = 0; i < 40; i++) { unsigned mx = r.below(3) ? 1 + (unsigned)r.below(r.below(2) ? 100 : 1000000) : 1 + (unsigned)(r.u64() % 0xffffffffu); unsigned x = g.randint(mx), w = (unsigned)(o.g() % mx) + 1; MON_CHECK(x == w && x >= 1 && x <= mx, "mt_randint", "randint(" << mx << ") is " << x << " instead of " << w); double p = r.below(4) ? r.unit() : (double)r.below(2), u = o.v(); if (r.below(4) == 0) p = std::min(1., std::max(0., u + (r.below(2) ? 1 : -1) * std::pow(2., (double)r.range(-38, -20)))); unsigned b = g.bernoulli(p); MON_CHECK(b == (u <= p ? 1u : 0u) || std::fabs(u - p) < 1e-12, "mt_bernoulli", "bernoulli(" << p << ") is " << b << " for u=" << u); unsigned mk = (unsigned)r.u64(); MON_CHECK(g.rand_mask(mk) == ((unsigned)o.g() & mk), "mt_mask_scalar", mk); } }
    { // equal seeds, equal matrices; generators independent
      susa::rng g1(s), g2(s), g3(s ^ 1); auto x = g1.randn((unsigned)k); g3.rand(); auto y = g2.randn((unsigned)k); if (!(x == y)) violation("rng_equal_seeds", "different matrices from equal seeds"); susa::mt h1(s), h2(s); h1.set_probabilities(susa::matrix<double>(3, 1, 1. / 3)); auto p = h1.rand((unsigned)k), q = h2.rand((unsigned)k); if (!(p == q)) violation("mt_equal_seeds", "different matrices from equal seeds"); }
    seen(s * 1000003ull + k * 31 + a * 13 + b);
  }
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; Rng r = case_rng("nonuniform", c); uint32_t s = seed(r); std::vector<double> p; auto m = probs(r, p, r.below(2)); if (r.chance(.3)) { // a threshold right beside the first draw: nothing coarser than double precision may decide it
      double u = U(s).v() + (r.below(2) ? 1 : -1) * std::pow(2., (double)r.range(-38, -22)); bool asc = r.below(2); if (asc) std::sort(p.begin(), p.end()); size_t k = r.below(p.size() - 1); double a = 0, b = 0; for (size_t i = 0; i < p.size(); i++) (i <= k ? a : b) += p[i]; if (a > 0 && b > 0 && u > 0 && u < 1) { for (size_t i = 0; i < p.size(); i++) p[i] *= i <= k ? u / a : (1 - u) / b; for (size_t i = 0; i < p.size(); i++) m(i) = p[i]; stat_add("n_near_threshold", 1); } else for (size_t i = 0; i < p.size(); i++) m(i) = p[i]; }
    auto m0 = m; size_t len = 1 + r.below(r.chance(.01) ? 4000 : 80); begin("nonuniform", "seed " + std::to_string(s) + " p=" + vecstr(p) + " len " + std::to_string(len));
    { susa::mt g(s); U o(s); for (size_t i = 0; i < len; i++) { double u = o.v(); auto w = pick(p, u, true); unsigned x = g.nonuniform(m); if (!w.empty() && std::find(w.begin(), w.end(), x) == w.end()) { violation("nonuniform", "draw " + std::to_string(i) + " is " + std::to_string(x) + " instead of " + std::to_string(w[0]) + " for u=" + vstr(u)); break; } MON_CHECK(x < p.size(), "nonuniform_range", x); } }
    { susa::mt g(s); U o(s); g.set_probabilities(m); for (size_t i = 0; i < len; i++) { double u = o.v(); auto w = pick(p, u, true); unsigned x = g.nonuniform(); if (!w.empty() && std::find(w.begin(), w.end(), x) == w.end()) { violation("nonuniform_stored", "draw " + std::to_string(i) + " is " + std::to_string(x) + " instead of " + std::to_string(w[0]) + " for u=" + vstr(u)); break; } if (i == len / 2) { susa::mt h(g); unsigned a = h.nonuniform(), b = g.nonuniform(); double u2 = o.v(); (void)u2; MON_CHECK(a == b, "nonuniform_copy", "a copied generator draws " << a << " instead of " << b); std::vector<double> p2; Rng r2(c); auto m2 = probs(r2, p2, true); if (r.below(2)) { std::vector<double> old = p; p2 = old; size_t k2 = p2.size(); for (size_t z = k2; z > 1; z--) std::swap(p2[z - 1], p2[r2.below(z)]); if (r.below(2)) { double tot = 0; for (auto& z : p2) { z = r2.unit(); tot += z; } for (auto& z : p2) z /= tot; } m2 = susa::matrix<double>(k2, 1); for (size_t z = 0; z < k2; z++) m2(z) = p2[z]; } g.set_probabilities(m2); p = p2; } } for (size_t i = 0; i < m0.size(); i++) (void)0; }
    std::vector<double> p1(m0.size()); for (size_t i = 0; i < p1.size(); i++) p1[i] = m0(i);
    { susa::mt g(s); U o(s); auto x = g.nonuniform(m, (unsigned)len); if (shape(x, len, 1, "nonuniform_matrix_shape")) for (size_t i = 0; i < len; i++) { double u = o.v(); auto w = pick(p1, u, false); if (!w.empty() && x(i) != w[0]) { violation("nonuniform_matrix", "element " + std::to_string(i) + " is " + std::to_string(x(i)) + " instead of " + std::to_string(w[0]) + " for u=" + vstr(u)); break; } } }
    { susa::mt g(s), h(s); g.set_probabilities(m); h.set_probabilities(m); auto x = g.nonuniform((unsigned)len); if (shape(x, len, 1, "nonuniform_length_shape")) for (size_t i = 0; i < len; i++) { unsigned w = h.nonuniform(); if (x(i) != w) { violation("nonuniform_length", "element " + std::to_string(i) + " is " + std::to_string(x(i)) + " instead of " + std::to_string(w)); break; } } }
    if (!(m == m0)) violation("nonuniform_argument", "probabilities modified"); seen(hvec(p1, s) + len, p1.size() > 1);
  }
  // sample moments (bounds of eight standard errors)
  for (int c = 0; c < (thorough() ? 64 : 16); c++) { if (!turn()) continue; Rng r = case_rng("moments", c); uint32_t s = seed(r); begin("moments", "seed " + std::to_string(s)); const unsigned K = 40000; susa::rng g(s); susa::mt h(s + 1); auto mom = [&](const char* key, const susa::matrix<double>& x, double mu, double var, double m4) { double m = 0, v = 0; for (size_t i = 0; i < x.size(); i++) m += x(i); m /= x.size(); for (size_t i = 0; i < x.size(); i++) v += (x(i) - m) * (x(i) - m); v /= x.size(); MON_CHECK(std::fabs(m - mu) <= 8 * std::sqrt(var / x.size()), std::string(key) + "_mean", m); MON_CHECK(std::fabs(v - var) <= 8 * std::sqrt((m4 - var * var) / x.size()), std::string(key) + "_variance", v); };
    mom("moments_rng_rand", g.rand(K), .5, 1. / 12, 1. / 80); mom("moments_rng_randn", g.randn(K), 0, 1, 3); mom("moments_mt_rand", h.rand(K), .5, 1. / 12, 1. / 80); mom("moments_mt_randn", h.randn(K), 0, 1, 3); seen(s + c * 7919ull); }
  return finish();
}
#endif
