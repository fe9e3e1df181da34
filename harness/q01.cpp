// Q01: constellations, demodulation, noise deviation, BPSK and AWGN.
#include "mat.h"
#include <random>
using namespace mon;
typedef std::complex<double> Z; typedef long double L_;
static const uint32_t orders[] = {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 65536, 131072};
static std::vector<Z> grid(uint32_t m, uint32_t& w, uint32_t& l) { w = 1; for (uint32_t k = 1; (uint64_t)k * k <= m; k++) if (m % k == 0) w = k; l = m / w; std::vector<Z> g; for (uint32_t i = 0; i < l; i++) for (uint32_t j = 0; j < w; j++) g.push_back(Z(i - (l - 1) / 2., j - (w - 1) / 2.)); return g; }
int main(int argc, char** argv) {
  init(argc, argv);
  for (uint32_t m : orders) { if (!turn()) continue; Rng r = case_rng("qam", m); begin("qam", "order " + std::to_string(m)); susa::qam q(m); auto c = q.get_constellation(); uint32_t w, l; auto g = grid(m, w, l);
    if (c.size() != m) { violation("qam_points", std::to_string(c.size()) + " points"); continue; }
    auto less = [](const Z& a, const Z& b) { return a.real() != b.real() ? a.real() < b.real() : a.imag() < b.imag(); }; std::vector<Z> p; for (size_t i = 0; i < m; i++) p.push_back(c(i)); auto ps = p, gs = g; std::sort(ps.begin(), ps.end(), less); std::sort(gs.begin(), gs.end(), less); bool same_ = ps == gs; if (!same_) { for (auto& z : gs) z = Z(z.imag(), z.real()); std::sort(gs.begin(), gs.end(), less); same_ = ps == gs; } if (!same_) violation("qam_grid", "constellation starts " + vecstr(p, 20));
    L_ es = 0; for (auto& z : g) es += std::norm(z); es /= m; L_ eb = es / std::log2((double)m);
    for (int k = 0; k < 60; k++) { double dB = k == 0 ? 0 : k < 20 ? r.range(-30, 30) : r.uni(-40, 60), dev = q.get_noise_deviation(dB); L_ want = std::sqrt(.5L * eb * std::pow(10.L, -(L_)dB / 10)); if (!(std::fabs(dev - want) <= 1e-12L * want)) violation("noise_deviation", "order " + std::to_string(m) + " at " + vstr(dB) + " dB: " + vstr(dev) + " instead of " + vstr((double)want)); }
    seen(m, true); }
  uint64_t nd = N(40000, 12); susa::qam* cache[15] = {}; std::vector<Z> pts[15];
  for (uint64_t k = 0; k < nd; k++) { if (!turn()) continue; Rng r = case_rng("demod", k); size_t oi = r.below(r.chance(.2) ? 12 : 8); if (r.chance(.001)) oi = 12 + r.below(3); uint32_t m = orders[oi], w, l; auto& q = cache[oi]; if (!q) { q = new susa::qam(m); auto c = q->get_constellation(); for (size_t i = 0; i < c.size(); i++) pts[oi].push_back(c(i)); }
    grid(m, w, l); Z x; int t = (int)r.below(6); if (t == 0) x = pts[oi][r.below(m)]; else if (t == 1) x = pts[oi][r.below(m)] + Z(.3 * r.gauss(), .3 * r.gauss()); else if (t == 2) x = Z(r.uni(-2, 2) * l, r.uni(-2, 2) * l); else if (t == 3) x = Z(std::pow(10, r.uni(-10, 8)) * (r.below(2) ? 1 : -1), std::pow(10, r.uni(-10, 8)) * (r.below(2) ? 1 : -1)); else if (t == 4) x = Z(r.range(-20, 20) / 2., r.range(-20, 20) / 2.); else x = Z(r.uni(-1, 1), 0);
    begin("demod", "order " + std::to_string(m) + " input " + vstr(x)); Z d = r.chance(.1) ? [&] { susa::qam copy = *q; return copy.demodulate_symbol(x); }() : q->demodulate_symbol(x);
    double best = 1e300; bool member = false; for (auto& z : pts[oi]) { best = std::min(best, std::abs(x - z)); member = member || z == d; } if (!member) violation("demod_point", "returned " + vstr(d) + ", not a constellation point"); double got = std::abs(x - d); if (!(got <= best * (1 + 1e-12))) violation("demod_nearest", "returned " + vstr(d) + " at distance " + vstr(got) + ", the nearest is at " + vstr(best)); if (t == 0 && d != x) violation("demod_identity", "returned " + vstr(d)); seen(hval(x, m)); }
  for (auto* q : cache) delete q;
  uint64_t nb = N(3000, 12); for (uint64_t k = 0; k < nb; k++) { if (!turn()) continue; Rng r = case_rng("bpsk", k); size_t R, C; rnd_shape(r, R, C, 12); if (r.chance(.01)) { R = 250 + r.below(100); C = r.below(2) ? 1 : 250 + r.below(60); if (C > 1 && r.below(4) == 0) { R = 1; C = 65530 + r.below(2000); } if (r.below(2)) std::swap(R, C); } susa::matrix<uint8_t> b(R, C); std::vector<int> v; for (size_t i = 0; i < R * C; i++) { uint8_t x = r.chance(.4) ? 0 : r.chance(.5) ? 1 : (uint8_t)r.u64(); b(i) = x; v.push_back(x); } begin("bpsk", std::to_string(R) + "x" + std::to_string(C) + " " + vecstr(v)); auto b0 = b; auto s = susa::bpsk(b); bool ok = s.no_rows() == R && s.no_cols() == C; for (size_t i = 0; ok && i < v.size(); i++) ok = s(i) == (v[i] ? 1 : -1); if (!ok) violation("bpsk", "wrong mapping"); if (!(b == b0)) violation("argument", "bpsk input modified"); seen(hvec(v, R), v.size() > 1); }
  // AWGN: shape, power against the request; the generator's default stream makes it deterministic, so the sample power is judged against a wide band for short and a tight one for long signals
  uint64_t na = N(1200, 12); for (uint64_t k = 0; k < na; k++) { if (!turn()) continue; Rng r = case_rng("awgn", k); bool cx = r.below(2); size_t R, C; if (r.chance(.3)) { R = 1 + r.below(60); C = 1 + r.below(60); } else { rnd_shape(r, R, C, 12); } bool big = r.chance(.1); if (big) { R = 1000; C = 20 + r.below(20); if (r.below(2)) std::swap(R, C); } float snr = (float)r.uni(-20, 40); unsigned ovs = r.chance(.6) ? 1 : 1 + (unsigned)r.below(8); double amp = std::pow(10, r.uni(-3, 3)); int ty = r.chance(.5) ? 0 : 1 + (int)r.below(5); if (ty == 0 && r.chance(.1)) amp = std::pow(10., r.uni(-100, 100));
    begin(cx ? "awgn:complex" : "awgn:real", std::to_string(R) + "x" + std::to_string(C) + " snr " + vstr(snr) + " dB oversampling " + std::to_string(ovs) + " amplitude " + vstr(amp) + (big ? " long" : "")); L_ P = 0, Q = 0, S = 0; size_t n = R * C; bool ok; std::vector<Z> no;
    auto rd = [&](auto& m) { ok = m.no_rows() == R && m.no_cols() == C; for (size_t i = 0; i < m.size(); i++) { Z z = m(i); no.push_back(z); } };
    // element types: the power of a narrow type leaves its range long before the noise does
    auto real_ = [&](auto t, double sc) { typedef decltype(t) T; susa::matrix<T> s(R, C); for (size_t i = 0; i < n; i++) { double x = std::is_integral<T>::value ? (sc <= 1 ? (r.below(2) || !std::is_signed<T>::value ? 1. : -1.) : std::floor(r.uni(std::is_signed<T>::value ? -sc : 0, sc))) : sc * r.gauss(); s(i) = (T)x; P += (L_)s(i) * s(i); } if (P == 0) { s(0) = 1; P = 1; } auto s0 = s; auto m = r.below(2) && ovs == 1 ? susa::awgn(s, snr) : susa::awgn(s, snr, ovs); rd(m); if (!(s == s0)) violation("argument", "awgn input modified"); };
    auto cplx_ = [&](auto t, double sc) { typedef decltype(t) T; susa::matrix<std::complex<T>> s(R, C); for (size_t i = 0; i < n; i++) { double x = sc * r.gauss(), y = sc * r.gauss(); if (std::is_integral<T>::value) { x = std::floor(r.uni(-sc, sc)); y = std::floor(r.uni(-sc, sc)); if (sc <= 1) x = x < 0 ? -1 : 1; } s(i) = std::complex<T>((T)x, (T)y); P += (L_)s(i).real() * s(i).real() + (L_)s(i).imag() * s(i).imag(); } if (P == 0) { s(0) = std::complex<T>(1, 0); P = 1; } auto s0 = s; auto m = r.below(2) && ovs == 1 ? susa::awgn(s, snr) : susa::awgn(s, snr, ovs); rd(m); if (!(s == s0)) violation("argument", "awgn input modified"); };
    bool one = r.below(2);
    if (cx) { if (ty == 0) cplx_(0., amp); else if (ty == 1) cplx_(0.f, amp); else if (ty == 2) cplx_((int)0, one ? 1 : 1e6); else if (ty == 3) cplx_((int8_t)0, one ? 1 : 127); else cplx_(0., amp); }
    else { if (ty == 0) real_(0., amp); else if (ty == 1) real_(0.f, amp); else if (ty == 2) real_((int)0, one ? 1 : 1e9); else if (ty == 3) real_((int8_t)0, one ? 1 : 127); else if (ty == 4) real_((uint8_t)0, one ? 1 : 255); else real_((short)0, one ? 1 : 32767); }
    if (!ok || no.size() != n) { violation("awgn_shape", "wrong shape"); continue; } L_ var = .5L * (P / n) * ovs / std::pow(10.L, (L_)snr / 10), sd = std::sqrt(var); double mx = 0; for (auto& z : no) { Q += std::norm(z); S += z.real() + (cx ? z.imag() : 0); mx = std::max(mx, std::max(std::fabs(z.real()), std::fabs(z.imag()))); if (!std::isfinite(z.real()) || !std::isfinite(z.imag())) { violation("awgn_finite", "noise sample not finite"); break; } }
    size_t dof = cx ? 2 * n : n; L_ ratio = Q / (var * dof); double band = 6 * std::sqrt(2. / dof) + 20. / dof; stat_max("awgn_power_dev_" + std::string(big ? "long" : "short"), (double)std::fabs(ratio - 1)); if (!(std::fabs(ratio - 1) <= band)) violation("awgn_power", "noise power is " + vstr((double)ratio) + " times the requested one (" + std::to_string(dof) + " draws, accepted deviation " + vstr(band) + ")"); if (!(std::fabs(S / dof) <= 6 * sd / std::sqrt((L_)dof))) violation("awgn_mean", "mean " + vstr((double)(S / dof)) + " at deviation " + vstr((double)sd)); if (!(mx <= 8 * sd)) violation("awgn_tail", "sample " + vstr(mx) + " at deviation " + vstr((double)sd));
    for (size_t i = 1; i < no.size(); i++) if (no[i] == no[i - 1]) { violation("awgn_repeat", "equal neighbouring samples"); break; }
    seen(hvec(no, R), n > 1); }
  return finish();
}
