// L03: LU, LUP, linear solver and inverse against their defining equations with componentwise backward error bounds.
#include "mat.h"
using namespace mon;
typedef long double L; typedef std::vector<std::vector<L>> LM;
template <class T> static LM lm(const Mod<T>& m) { LM e(m.r, std::vector<L>(m.c)); for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) e[i][j] = (L)m.at(i, j); return e; }
template <class T, class A> static LM lm(const susa::matrix<T, A>& m) { LM e(m.no_rows(), std::vector<L>(m.no_cols())); for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e[i].size(); j++) e[i][j] = (L)m(i, j); return e; }
static LM mul(const LM& a, const LM& b, bool ab = false) { LM c(a.size(), std::vector<L>(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) for (size_t j = 0; j < b[0].size(); j++) c[i][j] += ab ? std::fabs(a[i][k] * b[k][j]) : a[i][k] * b[k][j]; return c; }
static void split(const LM& lu, LM& l, LM& u) { size_t n = lu.size(); l = u = LM(n, std::vector<L>(n, 0)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (i > j) l[i][j] = lu[i][j]; else u[i][j] = lu[i][j]; if (i == j) l[i][j] = 1; } }
// smallest pivot of partial pivoting
static L min_pivot(LM m) { size_t n = m.size(); L mn = 1e300L; for (size_t k = 0; k < n; k++) { size_t p = k; for (size_t i = k; i < n; i++) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i; mn = std::min(mn, std::fabs(m[p][k])); if (m[p][k] == 0) return 0; std::swap(m[p], m[k]); for (size_t i = k + 1; i < n; i++) { L f = m[i][k] / m[k][k]; for (size_t j = k; j < n; j++) m[i][j] -= f * m[k][j]; } } return mn; }
template <class T> static Mod<T> gen(Rng& r, size_t n, int& mode) {
  Mod<T> m(n, n); mode = (int)r.below(7); double sc = mode == 5 ? std::pow(10., (double)r.range(-2, 4)) : 1;
  for (auto& x : m.v) x = mode == 1 ? (T)r.range(-5, 5) : mode == 6 ? (T)(r.chance(.6) ? 0 : r.range(-3, 3)) : (T)(r.gauss() * sc);
  if (mode == 2) for (size_t i = 0; i < n; i++) m.at(i, i) += (T)(n + 1);                       // dominant
  if (mode == 3) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m.at(i, j) = (T)(m.at(i, j) * (j + 1) * .1 + ((i + 1) % n == j ? 10 : 0)); // needs row exchanges
  if (mode == 4) { for (auto& x : m.v) x = 0; std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); for (size_t i = 0; i < n; i++) m.at(i, p[i]) = (T)(r.chance(.5) ? 1 : r.range(1, 9) * (r.below(2) ? 1 : -1)); if (n > 2) for (int k = 0; k < 2; k++) m.at(r.below(n), r.below(n)) += (T)1; }
  return m; }
template <class T> static std::vector<L> u_all(const susa::matrix<T>& m) { std::vector<L> v; for (size_t i = 0; i < m.size(); i++) v.push_back(m(i)); return v; }
template <class T> static void all(uint64_t N_) {
  std::string kind = std::string("solve:") + tn<T>(), t = tn<T>(); const L E = std::numeric_limits<T>::epsilon();
  for (uint64_t c = 0; c < N_; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t n = 1 + r.below(r.chance(.1) ? 25 : 8); if (r.chance(.01)) n = 26 + r.below(60); if (c % 1250 == 700) n = 250 + r.below(30); int mode; Mod<T> m = gen<T>(r, n, mode); begin(kind, mstr(m)); LM a = lm(m); auto x = to_susa(m); L mp = min_pivot(a); L maxa = 0; for (auto& q : m.v) maxa = std::max(maxa, std::fabs((L)q));
    const L G = 8 * (n + 4) * E, tiny = 1e-40L;
    auto bound = [&](const LM& got, const LM& want, const LM& w, const char* key, L f = 1) { for (size_t i = 0; i < want.size(); i++) for (size_t j = 0; j < want[0].size(); j++) { L e = std::fabs(got[i][j] - want[i][j]), tl = f * G * w[i][j] + tiny; if (!(e <= tl)) { violation(std::string(key) + ":" + t, "(" + std::to_string(i) + "," + std::to_string(j) + "): " + std::to_string((double)got[i][j]) + " instead of " + std::to_string((double)want[i][j]) + " (bound " + std::to_string((double)tl) + ")"); return false; } stat_max(std::string("err_over_bound:") + key, (double)(e / tl)); } return true; };
    // --- LU without pivoting
    { susa::lu<T> d(x); bool ok = d.decompose();
      // leading minors through elimination without exchanges
      LM e = a; L mnp = 1e300L, mxp = 0; bool zero = false; for (size_t k = 0; k + 1 < n && !zero; k++) { mnp = std::min(mnp, std::fabs(e[k][k])); if (e[k][k] == 0) { zero = true; break; } for (size_t i = k + 1; i < n; i++) { L f = e[i][k] / e[k][k]; mxp = std::max(mxp, std::fabs(f)); for (size_t j = k; j < n; j++) e[i][j] -= f * e[k][j]; } }
      if (!zero && mnp > 1e-2 * std::min<L>(maxa, 1) && mxp < 1e3) MON_CHECK(ok, "lu_refused:" + t, "decompose() fails although all leading minors are non-zero");
      if (ok) { LM l = lm(d.get_lower()), u = lm(d.get_upper()); if (l.size() != n || u.size() != n || l[0].size() != n || u[0].size() != n) violation("lu_shape:" + t, "factor shape"); else { bool fin = true; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (!std::isfinite((double)l[i][j]) || !std::isfinite((double)u[i][j])) fin = false; if (i == j ? l[i][j] != 1 : i < j && l[i][j] != 0) violation("lu_lower:" + t, "lower factor is not unit lower triangular"); if (i > j && u[i][j] != 0) violation("lu_upper:" + t, "upper factor is not upper triangular"); }
        if (!fin) violation("lu_nonfinite:" + t, "non-finite factors reported as success"); else bound(mul(l, u), a, mul(l, u, true), "lu_product"); } }
      std::string w; MON_CHECK(matches(x, m, &w), "lu_argument:" + t, w); stat_add("n_lu_ok", ok);
      // the same system in other units: the factors are the same, the upper one scaled
      if (ok && !zero && c % 2 == 0) { int k = (int)(r.below(2) ? 1 : -1) * (int)r.range(8, std::is_same_v<T, float> ? 30 : 120); T f = (T)std::ldexp(1.0, k); auto y = x; for (size_t i = 0; i < y.size(); i++) y(i) = y(i) * f; susa::lu<T> ds(y); bool os = ds.decompose(); L lowest = 1e4000L; for (auto& q : u_all(d.get_upper())) if (q != 0) lowest = std::min(lowest, std::fabs(q)); 
        if (lowest * f > (L)std::numeric_limits<T>::min() * 1e6L && maxa * f * std::max<L>(mxp, 1) < (L)std::numeric_limits<T>::max() * 1e-6L) { stat_add("n_lu_scaled", 1); if (!os) violation("lu_units:" + t, "decompose() fails for the same matrix times 2^" + std::to_string(k)); else { LM l = lm(ds.get_lower()), u = lm(ds.get_upper()); LM as = a; for (auto& q : as) for (auto& z : q) z *= f; bound(mul(l, u), as, mul(l, u, true), "lu_product_scaled"); } } }
      if (ok) { auto l1 = d.get_lower(), u1 = d.get_upper(); bool o2 = d.decompose(); susa::lu<T> e(d); if (!o2 || !(d.get_lower() == l1) || !(d.get_upper() == u1) || !(e.get_lower() == l1) || !(e.get_upper() == u1)) violation("lu_again:" + t, "a second decomposition of the same object or a copy of it differs"); } }
    // --- LUP, two variants
    LM l, u; std::vector<size_t> perm; bool have = false;
    for (int alt = 0; alt < 2; alt++) { std::string ks = alt ? "lup_alt" : "lup"; susa::lup<T> d(x); bool ok = alt ? d.decompose_alt() : d.decompose();
      if (mp > 5e-4 && maxa < 1e5) MON_CHECK(ok, ks + "_refused:" + t, "fails although every pivot exceeds the tolerance (smallest " << (double)mp << ")"); if (mp < 1e-6 && maxa < 100 && E < 1e-10) MON_CHECK(!ok, ks + "_accepted:" + t, "succeeds although a pivot is " << (double)mp);
      if (!ok) continue; if (d.get_lu().no_rows() != n || d.get_lu().no_cols() != n) { violation(ks + "_shape:" + t, "shape of the factors"); continue; }
      split(lm(d.get_lu()), l, u); LM p = mul(l, u), w = mul(l, u, true); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) MON_CHECK(std::fabs(l[i][j]) <= 1 + 1e-4, ks + "_multiplier:" + t, "multiplier " << (double)l[i][j] << " exceeds one: not a partial pivoting");
      if (alt) { LM pv = lm(d.get_pivot()); bool isp = pv.size() == n && pv[0].size() == n; if (isp) for (size_t i = 0; i < n; i++) { int rs = 0, cs = 0; for (size_t j = 0; j < n; j++) { if (pv[i][j] != 0 && pv[i][j] != 1) isp = false; rs += pv[i][j] == 1; cs += pv[j][i] == 1; } if (rs != 1 || cs != 1) isp = false; } if (!isp) { violation("lup_alt_pivot:" + t, "get_pivot() is not a permutation"); continue; } bound(p, mul(pv, a), w, "lup_alt_product"); }
      else { // the rows of L*U are a permutation of the rows of A
        std::vector<bool> used(n, false); for (size_t i = 0; i < n; i++) { size_t best = n; for (size_t k = 0; k < n && best == n; k++) if (!used[k]) { bool okr = true; for (size_t j = 0; j < n; j++) if (!(std::fabs(p[i][j] - a[k][j]) <= G * w[i][j] + tiny)) okr = false; if (okr) best = k; } if (best == n) { violation("lup_product:" + t, "row " + std::to_string(i) + " of L*U is no row of the matrix"); break; } used[best] = true; } }
      // solve and invert through the object
      LM lw = w; Mod<T> b(n, 1); for (auto& q : b.v) q = r.chance(.2) ? (T)0 : (T)(r.gauss() * 10); int form = (int)r.below(2); susa::matrix<T> bb = form ? susa::matrix<T>(1, n) : susa::matrix<T>(n, 1); for (size_t i = 0; i < n; i++) bb(i) = b.v[i]; auto b0 = bb;
      auto sol = d.solve(bb); if (sol.size() != n || sol.no_cols() != 1) { violation(ks + "_solve_shape:" + t, "shape of the solution"); continue; } if (!(bb == b0)) violation(ks + "_solve_argument:" + t, "right-hand side modified");
      LM xs = lm(sol); L nx = 0; bool fin = true; for (auto& q : xs) { nx = std::max(nx, std::fabs(q[0])); fin = fin && std::isfinite((double)q[0]); } L nl = 0; for (auto& q : lw) { L s = 0; for (auto v : q) s += v; nl = std::max(nl, s); } LM res = mul(a, xs); for (size_t i = 0; i < n; i++) { L e = std::fabs(res[i][0] - (L)b.v[i]); L tl = 4 * G * nl * nx + tiny; stat_max("solve_res_over_bound", (double)(e / tl)); if (!fin || !(e <= tl)) { violation(ks + "_solve:" + t, "residual " + std::to_string((double)e) + " in row " + std::to_string(i) + " (bound " + std::to_string((double)tl) + "), b=" + vecstr(b.v)); break; } }
      auto iv = d.invert(); LM im = lm(iv); if (im.size() != n || im[0].size() != n) { violation(ks + "_invert_shape:" + t, "shape of the inverse"); continue; } LM ai = mul(a, im); for (size_t j = 0; j < n; j++) { L nc = 0; for (size_t i = 0; i < n; i++) nc = std::max(nc, std::fabs(im[i][j])); for (size_t i = 0; i < n; i++) { L e = std::fabs(ai[i][j] - (i == j)); L tl = 4 * G * nl * nc + tiny; if (!(e <= tl)) { violation(ks + "_invert:" + t, "A*A^-1 differs from I by " + std::to_string((double)e) + " at (" + std::to_string(i) + "," + std::to_string(j) + "), bound " + std::to_string((double)tl)); i = n; j = n; } } }
      auto again = d.solve(bb); if (!(again == sol)) violation(ks + "_solve_repeat:" + t, "a second solve differs"); stat_add("n_lup_ok", 1);
      // the object again after further decompositions, by either algorithm and through copies
      auto lu0 = d.get_lu(); if (r.below(2)) { bool o2 = alt ? d.decompose() : d.decompose_alt(); stat_add("n_lup_other", o2); } bool o3 = alt ? d.decompose_alt() : d.decompose(); if (!o3) violation(ks + "_again:" + t, "a second decomposition of the same object fails"); else { if (!(d.get_lu() == lu0)) violation(ks + "_again:" + t, "a second decomposition of the same object gives other factors"); if (!(d.solve(bb) == sol)) violation(ks + "_again:" + t, "solving after a second decomposition differs"); if (!(d.invert() == iv)) violation(ks + "_again:" + t, "the inverse after a second decomposition differs"); susa::lup<T> e(d); if (!(e.solve(bb) == sol) || !(e.get_lu() == lu0)) violation(ks + "_copy:" + t, "a copy of the decomposed object solves differently"); }
    }
    // --- free functions
    if (mp > 5e-4 && maxa < 1e5) {
      L na = 0; for (auto& q : a) { L s = 0; for (auto v : q) s += std::fabs(v); na = std::max(na, s); }
      susa::matrix<T> b(n, 1); if (r.below(2) && n > 1) b = susa::matrix<T>(1, n); for (size_t i = 0; i < n; i++) b(i) = (T)(r.gauss() * 3); auto b0 = b; auto sol = susa::linsolve(x, b); if (!(b == b0)) violation("linsolve_argument:" + t, "b modified"); if (sol.size() != n) violation("linsolve_shape:" + t, "shape"); else { LM xs = lm(sol); L nx = 0; for (auto& q : xs) nx = std::max(nx, std::fabs(q[0])); LM res = mul(a, xs); for (size_t i = 0; i < n; i++) { L e = std::fabs(res[i][0] - (L)b(i)), tl = 200 * n * n * E * na * nx + tiny; stat_max("linsolve_res_over_bound", (double)(e / tl)); MON_CHECK(e <= tl, "linsolve:" + t, "residual " << (double)e << " in row " << i << " bound " << (double)tl << " b=" << vecstr(from_susa(b).v)); } }
      auto iv = susa::inv(x); if (iv.no_rows() != n || iv.no_cols() != n) violation("inv_shape:" + t, "shape"); else { LM im = lm(iv), p = mul(a, im); L ni = 0; for (auto& q : im) { L s = 0; for (auto v : q) s += std::fabs(v); ni = std::max(ni, s); } for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { L e = std::fabs(p[i][j] - (i == j)), tl = 200 * n * n * E * na * ni + tiny; MON_CHECK(e <= tl, "inv:" + t, "A*inv(A) off by " << (double)e << " at " << i << "," << j); } }
      stat_add("n_solved", 1); }
    std::string w; MON_CHECK(matches(x, m, &w), "argument:" + t, w); seen(hmod(m), n > 1);
  }
}
// matrices without an LU factorisation: an exactly zero leading minor above a non-zero column; exact dyadic arithmetic
template <class T> static void without(uint64_t N_) {
  std::string kind = std::string("nofactor:") + tn<T>();
  for (uint64_t c = 0; c < N_; c++) {
    if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t n = 2 + r.below(6), k = r.below(n - 1); LM l(n, std::vector<L>(n, 0)), u = l; for (size_t i = 0; i < n; i++) { l[i][i] = 1; for (size_t j = 0; j < i; j++) l[i][j] = (L)r.range(-2, 2); for (size_t j = i; j < n; j++) u[i][j] = (L)r.range(-3, 3); u[i][i] = (L)(1 << r.below(3)) * (r.below(2) ? 1 : -1); }
    u[k][k] = 0; LM p = mul(l, u); size_t row = k + 1 + r.below(n - k - 1); p[row][k] += 1; Mod<T> m(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m.at(i, j) = (T)p[i][j]; begin(kind, mstr(m)); susa::lu<T> d(to_susa(m)); bool ok = d.decompose(); MON_CHECK(!ok, std::string("lu_no_factorisation:") + tn<T>(), "success reported although leading minor " << k + 1 << " is zero and the matrix has no LU factorisation");
    // singular: duplicate rows (exact)
    Mod<T> s(n, n); for (auto& q : s.v) q = (T)r.range(-3, 3); size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n; for (size_t q = 0; q < n; q++) s.at(j, q) = s.at(i, q); begin(kind, mstr(s)); if (std::is_same_v<T, double>) { susa::lup<T> d1(to_susa(s)), d2(to_susa(s)); MON_CHECK(!d1.decompose(), std::string("lup_singular:") + tn<T>(), "decompose() accepts a singular matrix"); MON_CHECK(!d2.decompose_alt(), std::string("lup_alt_singular:") + tn<T>(), "decompose_alt() accepts a singular matrix"); }
    seen(hmod(m) ^ hmod(s));
  }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(2500);
#if PART(0)
  all<double>(n); without<double>(n);
#endif
#if PART(1)
  all<float>(n); without<float>(n);
#endif
  return finish();
}
