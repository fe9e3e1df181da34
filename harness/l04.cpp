// L04: thin SVD: success, orthonormal factors, reconstruction, and singular values against one-sided Jacobi.
#include "mat.h"
using namespace mon;
typedef long double L; typedef std::vector<std::vector<L>> C; // columns
static std::vector<L> jacobi(C a) { // singular values, descending
  size_t n = a.size(), m = a[0].size(); for (int sweep = 0; sweep < 60; sweep++) { bool rot = false; for (size_t p = 0; p < n; p++) for (size_t q = p + 1; q < n; q++) { L al = 0, be = 0, ga = 0; for (size_t i = 0; i < m; i++) { al += a[p][i] * a[p][i]; be += a[q][i] * a[q][i]; ga += a[p][i] * a[q][i]; } if (std::fabs(ga) <= 1e-17L * std::sqrt(al * be)) continue; rot = true; L z = (be - al) / (2 * ga), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), s = c * t; for (size_t i = 0; i < m; i++) { L x = a[p][i], y = a[q][i]; a[p][i] = c * x - s * y; a[q][i] = s * x + c * y; } } if (!rot) break; }
  std::vector<L> s; for (auto& c : a) { L x = 0; for (auto v : c) x += v * v; s.push_back(std::sqrt(x)); } std::sort(s.rbegin(), s.rend()); return s; }
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(6000); const char* modes[] = {"dense", "integer", "sparse", "lowrank", "zero", "scaled", "illcond", "repeated", "structured", "tinyentries"};
  for (uint64_t c = 0; c < n; c++) {
    if (!turn()) continue; int mode = (int)(c % 10); std::string kind = std::string("svd:") + modes[mode]; Rng r = case_rng("svd", c); size_t p, q; rnd_shape(r, p, q, r.chance(.05) ? 20 : 6); if (r.chance(.005)) { p = 1 + r.below(70); q = 1 + r.below(70); if (r.below(3) == 0) p = 100 + r.below(400); if (r.below(4) == 0) std::swap(p, q); } Mod<float> m(p, q);
    for (auto& x : m.v) x = (float)(mode == 1 ? r.range(-4, 4) : mode == 2 ? (r.chance(.7) ? 0. : (double)r.range(-3, 3)) : r.gauss());
    if (mode == 3) { size_t k = r.below(std::min(p, q) + 1); std::vector<double> z(p * q, 0); for (size_t t = 0; t < k; t++) { std::vector<double> u(p), v(q); bool in = r.below(2); for (auto& x : u) x = in ? (double)r.range(-3, 3) : r.gauss(); for (auto& x : v) x = in ? (double)r.range(-3, 3) : r.gauss(); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) z[i + j * p] += u[i] * v[j]; } for (size_t i = 0; i < p * q; i++) m.v[i] = (float)z[i]; }
    if (mode == 4) { for (auto& x : m.v) x = 0; if (r.below(2)) m.v[r.below(p * q)] = (float)r.range(-2, 2); }
    if (mode == 5) { float s = (float)std::pow(10., (double)r.range(-15, 15)); for (auto& x : m.v) x *= s; }
    if (mode == 6) for (size_t j = 0; j < q; j++) { float s = (float)std::pow(10., (double)r.range(-5, 3)); for (size_t i = 0; i < p; i++) m.at(i, j) *= s; }
    if (mode == 7) for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) m.at(i, j) = r.chance(.3) ? 0.f : (float)((i == j) * (r.below(2) ? 2 : 1)) ; 
    if (mode == 8) { int k = (int)r.below(5); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) m.at(i, j) = k == 0 ? 1.f : k == 1 ? 1.f / (i + j + 1) : k == 2 ? (float)(i >= j) : k == 3 ? (float)(i + 1 == j || i == j) : (i + j) % 2 ? -1.f : 1.f; }
    if (mode == 9) for (auto& x : m.v) if (r.chance(.5)) x *= 1e-6f;
    begin(kind, mstr(m)); auto a = to_susa(m); susa::matrix<float> u, s, v; if (r.below(3) == 0) { u = susa::matrix<float>(3, 2, 7.f); s = susa::matrix<float>(9, 1, 5.f); v = susa::matrix<float>(2, 4, -1.f); } else if (r.below(4) == 0) { size_t k0 = std::min(p, q); u = susa::matrix<float>(q, p, 2.f); s = susa::matrix<float>(1, k0, 3.f); v = r.below(2) ? susa::matrix<float>(1, q * k0, 4.f) : susa::matrix<float>(k0, q, 4.f); } // the outputs may hold anything before
    int rc = susa::svd(a, u, s, v); MON_CHECK(rc == 0, "svd_failed", "svd() returned " << rc); std::string w; MON_CHECK(matches(a, m, &w), "svd_argument", w);
    size_t k = std::min(p, q); if (u.no_rows() != p || u.no_cols() != k || s.size() != k || s.no_cols() != 1 || v.no_rows() != q || v.no_cols() != k) { violation("svd_shape", "shapes " + std::to_string(u.no_rows()) + "x" + std::to_string(u.no_cols()) + " " + std::to_string(s.size()) + " " + std::to_string(v.no_rows()) + "x" + std::to_string(v.no_cols())); continue; }
    bool fin = true; for (size_t i = 0; i < u.size(); i++) fin = fin && std::isfinite(u(i)); for (size_t i = 0; i < v.size(); i++) fin = fin && std::isfinite(v(i)); for (size_t i = 0; i < k; i++) fin = fin && std::isfinite(s(i)); if (!fin) { violation("svd_nonfinite", "non-finite factors"); continue; }
    L big = 0; for (size_t i = 0; i < k; i++) { MON_CHECK(s(i) >= 0, "svd_negative", "singular value " << s(i)); }
    C cols; if (p >= q) { cols.assign(q, std::vector<L>(p)); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) cols[j][i] = m.at(i, j); } else { cols.assign(p, std::vector<L>(q)); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) cols[i][j] = m.at(i, j); }
    std::vector<L> want = jacobi(cols), got; for (size_t i = 0; i < k; i++) got.push_back(s(i)); std::sort(got.rbegin(), got.rend()); big = want[0]; const L tol = 2e-5L * std::sqrt((L)(p + q)), off = 1e-37L;
    for (size_t i = 0; i < k; i++) { L e = std::fabs(got[i] - want[i]); stat_max("values_rel_err", big > 0 ? (double)(e / big) : 0.); MON_CHECK(e <= tol * big + off, "svd_values", "singular value " << i << " is " << (double)got[i] << " instead of " << (double)want[i]); }
    for (size_t x = 0; x < k; x++) for (size_t y = x; y < k; y++) { L du = 0, dv = 0; for (size_t i = 0; i < p; i++) du += (L)u(i, x) * u(i, y); for (size_t i = 0; i < q; i++) dv += (L)v(i, x) * v(i, y); L ii = x == y; stat_max("ortho_err", (double)std::max(std::fabs(du - ii), std::fabs(dv - ii))); MON_CHECK(std::fabs(du - ii) <= tol, "svd_u_orthonormal", "columns " << x << "," << y << " of U have inner product " << (double)du); MON_CHECK(std::fabs(dv - ii) <= tol, "svd_v_orthonormal", "columns " << x << "," << y << " of V have inner product " << (double)dv); }
    L fro = 0; for (auto z : want) fro += z * z; fro = std::sqrt(fro); for (size_t i = 0; i < p; i++) for (size_t j = 0; j < q; j++) { L z = 0; for (size_t t = 0; t < k; t++) z += (L)u(i, t) * s(t) * v(j, t); L e = std::fabs(z - (L)m.at(i, j)); stat_max("recon_rel_err", fro > 0 ? (double)(e / fro) : 0.); MON_CHECK(e <= tol * fro + off, "svd_reconstruct", "(" << i << "," << j << ") reconstructs to " << (double)z << " instead of " << m.at(i, j)); }
    size_t rk = 0; for (auto z : want) rk += z > 1e-6L * big; stat_add("n_rank_deficient", rk < k); seen(hmod(m), p * q > 1);
  }
  return finish();
}
