// Q02: root-raised-cosine taps against the inverse DFT of the sampled root spectrum in long double.
#include "mat.h"
using namespace mon;
typedef long double L_;
int main(int argc, char** argv) {
  init(argc, argv); const L_ pi = 3.14159265358979323846264338327950288L; uint64_t n = N(3000, 10);
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng("rrc", c);
    unsigned l = r.chance(.1) ? 1 + (unsigned)r.below(64) : 1 + (unsigned)r.below(12); if (r.chance(.02)) l = 1000 + (unsigned)r.below(100000); double al = r.chance(.15) ? 0 : r.chance(.2) ? 1 : r.chance(.2) ? r.range(1, 9) / 10. : r.uni(0.001, 1); int ord = 1 + 2 * (int)r.below(r.chance(.1) ? 150 : 40); if (r.chance(.01)) ord = 301 + 2 * (int)r.below(600); if (r.chance(.1)) al = std::pow(10., r.uni(-9, -2)); bool giant = c == 5 || (thorough() && c % 5000 == 77); if (giant) { ord = 12001 + 2 * (int)r.below(1000); l = c == 5 ? 1 : 1 + (unsigned)r.below(2); }
    begin("rrc", "factor " + std::to_string(l) + " roll-off " + vstr(al) + " length " + std::to_string(ord)); susa::rrcosine f(l, al, ord); auto g = f.get(); if (r.chance(.1)) { susa::rrcosine f2 = f; if (!(f2.get() == g)) violation("rrc_copy", "copy differs"); }
    if ((int)g.size() != ord || g.no_cols() != 1) { violation("rrc_length", std::to_string(g.size()) + " taps"); continue; }
    // reference; a spectrum sample within 1e-12 of a band edge of an abrupt (alpha=0) spectrum is not judged
    int h = (ord - 1) / 2; std::vector<L_> s(ord), ref(ord); bool edge = false; for (int m = -h; m <= h; m++) { L_ fr = std::fabs((L_)l * m / ord), a = al, x; if (fr > (1 + a) / 2) x = 0; else if (fr > (1 - a) / 2) x = .5L * (1 + std::cos(pi / a * (fr - (1 - a) / 2))); else x = 1; if (al < 1e-9 && std::fabs(fr - .5L) < 1e-12L) edge = true; s[m + h] = std::sqrt(std::max(x, 0.L)); }
    L_ en = 0; std::vector<L_> cs; for (int i = 0; giant && i < ord; i++) cs.push_back(std::cos(2 * pi * i / ord));
    for (int i = 0; i < ord; i++) { if (giant && i > h) { ref[i] = ref[ord - 1 - i]; en += ref[i] * ref[i]; continue; } L_ v = 0; if (giant) { for (int m = 0; m <= h; m++) v += (m ? 2 : 1) * s[m + h] * cs[(size_t)((long)m * (h - i) % ord)]; } else for (int m = -h; m <= h; m++) { long ph = ((long)m * (i - h)) % ord; v += s[m + h] * std::cos(2 * pi * ph / ord); } ref[i] = v; en += v * v; } en = std::sqrt(en); L_ ge = 0, dev = 0, asym = 0;
    for (int i = 0; i < ord; i++) { L_ v = g(i); if (!std::isfinite((double)v)) { dev = 9; break; } ge += v * v; dev = std::max(dev, std::fabs(v - ref[i] / en)); asym = std::max(asym, std::fabs(v - (L_)g(ord - 1 - i))); }
    stat_max("tap_err", (double)dev); stat_max("asymmetry", (double)asym); if (!(dev <= 1e-7L) && !edge) violation("rrc_taps", "largest tap deviation " + vstr((double)dev)); if (edge) stat_add("n_edge_skipped", 1); if (!(std::fabs(ge - 1) <= 1e-10L)) violation("rrc_energy", "energy " + vstr((double)ge)); if (!(asym <= 1e-10L)) violation("rrc_symmetry", "asymmetry " + vstr((double)asym)); seen(hval(al, hval(l, ord)), ord > 1); }
  return finish();
}
