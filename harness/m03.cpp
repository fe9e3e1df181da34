// M03: element-wise arithmetic, comparison and conversion, element by element.
#include "mat.h"
using namespace mon;
template <class T> T opnd(Rng& r, bool div) {   // operands for which the operation is defined in T's arithmetic
  if constexpr (is_cplx<T>::value) { using U = typename T::value_type; T v(small_val<U>(r, 12), small_val<U>(r, 12)); if constexpr (std::is_floating_point_v<U>) if (r.below(2)) v = T((U)r.gauss(), (U)(r.gauss() * 50)); if (div && v == T()) v = T(1, 2); return v; }
  else if constexpr (std::is_floating_point_v<T>) { T v = any_val<T>(r); if (div && v == 0 && r.below(2)) v = (T)3; return v; }   // x/0 is inf or nan in IEEE arithmetic
  else if constexpr (sizeof(T) == 1 || std::is_unsigned_v<T>) { T v = any_val<T>(r); if (div && v == 0) v = 7; return v; }
  else { T v; switch (r.below(4)) { case 0: v = (T)r.range(-46340, 46340); break; case 1: v = (T)(r.below(2) ? 46340 : -46340); break; default: v = (T)r.range(-20, 20); } if (div && v == 0) v = -3; return v; }
}
template <class T> bool divide_ub(const T& a, const T& b) { if constexpr (std::is_integral_v<T>) return b == 0; else return false; }
template <class T, class A> void one(Rng& r, const std::string& kind) {
  using M = susa::matrix<T, A>;
  size_t a, b; rnd_shape(r, a, b, 7); if (r.chance(0.02)) { a = 1 + r.below(200); b = 1 + r.below(60); } if (r.chance(0.002)) { a = 1; b = 66000 + r.below(3000); if (r.below(2)) std::swap(a, b); if (r.below(2)) { a = 260; b = 260; } }
  Mod<T> p(a, b), q(a, b), d(a, b); T s = opnd<T>(r, false), sd = opnd<T>(r, true);
  for (size_t i = 0; i < p.size(); i++) { p.v[i] = opnd<T>(r, false); q.v[i] = opnd<T>(r, false); d.v[i] = opnd<T>(r, true); }
  if constexpr (std::is_floating_point_v<T>) if (r.chance(0.1)) { const double L[] = {INFINITY, -INFINITY, NAN, 0.0, -0.0}; for (auto* m : {&p, &q, &d}) for (auto& v : m->v) if (r.below(4) == 0) v = (T)L[r.below(5)]; }   // inf - inf, 0 / 0
  begin(kind, mstr(p) + " op " + mstr(q) + " / " + mstr(d) + " scalars " + vstr(s) + "," + vstr(sd));
  M x = to_susa<T, A>(p), y = to_susa<T, A>(q), z = to_susa<T, A>(d); std::string why;
  auto el = [&](auto f) { Mod<T> w(a, b); for (size_t i = 0; i < w.size(); i++) w.v[i] = (T)f(i); return w; };
#define CHK(op, expr, f) do { M got = (expr); if (!matches(got, el([&](size_t i) { return f; }), &why)) { violation(std::string(op) + ":" + tn<T>(), why); return; } if (!matches(x, p) || !matches(y, q) || !matches(z, d)) { violation(std::string("operand_changed:") + op + ":" + tn<T>(), "an operand was changed"); return; } } while (0)
  CHK("m+m", x + y, p.v[i] + q.v[i]); CHK("m-m", x - y, p.v[i] - q.v[i]); CHK("m*m", x * y, p.v[i] * q.v[i]); CHK("m/m", x / z, p.v[i] / d.v[i]);
  CHK("m+s", x + s, p.v[i] + s); CHK("m-s", x - s, p.v[i] - s); CHK("m*s", x * s, p.v[i] * s); CHK("m/s", x / sd, p.v[i] / sd);
  CHK("s+m", s + x, s + p.v[i]); CHK("s-m", s - x, s - p.v[i]); CHK("s*m", s * x, s * p.v[i]);
  // aliased operands
  CHK("x-x", x - x, p.v[i] - p.v[i]); CHK("x+x", x + x, p.v[i] + p.v[i]); CHK("x*x", x * x, p.v[i] * p.v[i]); CHK("z/z", z / z, d.v[i] / d.v[i]);
  // compound assignment: value, result and untouched right operand
  { M t = x; M ret = (t += y); Mod<T> w = el([&](size_t i) { T v = p.v[i]; v += q.v[i]; return v; }); if (!matches(t, w, &why)) { violation(std::string("+=:") + tn<T>(), why); return; } if (!matches(ret, w, &why)) { violation(std::string("+=ret:") + tn<T>(), why); return; } }
  { M t = x; M ret = (t -= y); Mod<T> w = el([&](size_t i) { T v = p.v[i]; v -= q.v[i]; return v; }); if (!matches(t, w, &why)) { violation(std::string("-=:") + tn<T>(), why); return; } if (!matches(ret, w, &why)) { violation(std::string("-=ret:") + tn<T>(), why); return; } }
  { M t = x; t += t; if (!matches(t, el([&](size_t i) { T v = p.v[i]; v += p.v[i]; return v; }), &why)) { violation(std::string("t+=t:") + tn<T>(), why); return; } t = x; t -= t; if (!matches(t, el([&](size_t i) { T v = p.v[i]; v -= p.v[i]; return v; }), &why)) { violation(std::string("t-=t:") + tn<T>(), why); return; } }
  if (!matches(x, p) || !matches(y, q)) { violation(std::string("operand_changed:compound:") + tn<T>(), "an operand was changed"); return; }
  // comparison
  auto cmp = [&](const M& l, const M& rr, bool e, const char* w) { bool g1 = l == rr, g2 = l != rr; if (g1 != e || g2 == e) { violation(std::string("compare:") + w + ":" + tn<T>(), std::string(w) + ": == gives " + (g1 ? "true" : "false") + ", != gives " + (g2 ? "true" : "false")); return false; } return true; };
  M c1 = x; bool nan = false; for (auto&& v : p.v) if (!(v == v)) nan = true;
  if (!cmp(x, x, !nan, "self") || !cmp(x, c1, !nan, "copy")) return;
  { size_t i = r.below(3) == 0 ? p.size() - 1 : r.below(p.size()); T v = p.v[i]; v = v + T(1); if (!(v == p.v[i])) { c1(i) = v; if (!cmp(x, c1, false, "one element differs") || !cmp(c1, x, false, "one element differs")) return; } }
  { size_t i = r.below(3) == 0 ? p.size() - 1 : r.below(p.size()); T v = p.v[i];   // the smallest possible difference
    if constexpr (std::is_integral_v<T>) v = (T)(v ^ (T)((uint64_t)1 << r.below(sizeof(T) * 8))); else if constexpr (is_cplx<T>::value) { using U = typename T::value_type; if constexpr (std::is_floating_point_v<U>) { U re = v.real(), im = v.imag(); if (r.below(2)) re = std::nextafter(re, (U)1e3); else im = std::nextafter(im, (U)1e3); v = T(re, im); } else v = T(v.real(), v.imag() + 1); } else v = std::nextafter(v, (T)(r.below(2) ? 1e35 : -1e35));
    M c2 = x; c2(i) = v; if (!(v == p.v[i]) && (!cmp(x, c2, false, "one element differs slightly") || !cmp(c2, x, false, "one element differs slightly"))) return; }
  if constexpr (!std::is_integral_v<T>) {   // comparison of values, not of representations
    Mod<T> z = p; for (auto&& v : z.v) if (!(v == v)) v = T(1); size_t i = r.below(z.size()); z.v[i] = T(0); M zx = to_susa<T, A>(z), zy = zx; if constexpr (is_cplx<T>::value) { using U = typename T::value_type; zy(i) = T(r.below(2) ? (U)0 : -(U)0, -(U)0); } else zy(i) = -(T)0;
    if (!cmp(zx, zy, true, "zeros of both signs") || !cmp(zy, zx, true, "zeros of both signs")) return;
    auto sp = [&](double q) { if constexpr (is_cplx<T>::value) { using U = typename T::value_type; return r.below(2) ? T((U)q, 0) : T(0, (U)q); } else return (T)q; };
    bool fl = true; if constexpr (is_cplx<T>::value) fl = std::is_floating_point_v<typename T::value_type>;
    if (fl) { zy = zx; zy(i) = sp(std::numeric_limits<double>::quiet_NaN()); M zn = zy; if (!cmp(zy, zy, false, "not a number, same object") || !cmp(zy, zn, false, "not a number, copy")) return; zy(i) = sp(std::numeric_limits<double>::infinity()); zn = zy; if (!cmp(zy, zn, true, "infinite element, copy")) return; } }
  if (a != b && a * b > 1) { M t = x.reshape(b, a); if (!cmp(x, t, false, "other shape, same elements")) return; }
  { Mod<T> big(a + 1, b); for (size_t j = 0; j < b; j++) for (size_t i = 0; i < a; i++) big.at(i, j) = p.at(i, j); if (!cmp(x, to_susa<T, A>(big), false, "longer")) return; Mod<T> wide(a, b + 1); for (size_t i = 0; i < p.size(); i++) wide.v[i] = p.v[i]; if (!cmp(x, to_susa<T, A>(wide), false, "wider") || !cmp(to_susa<T, A>(wide), x, false, "wider")) return; }
  { M e1, e2; if (!cmp(e1, e2, true, "empty") || !cmp(e1, x, false, "empty/full") || !cmp(x, e1, false, "full/empty")) return; }
  { bool e = true; for (size_t i = 0; i < p.size(); i++) if (!(p.v[i] == q.v[i])) e = false; if (!cmp(x, y, e, "random pair")) return; }
  seen(hmod(p) ^ hmod(q) * 3, a * b > 1);
}
// conversions
template <class T, class U> bool conv(Rng& r, const char* un) {
  size_t a, b; rnd_shape(r, a, b, 6); if (r.chance(0.004)) { a = 1 + r.below(400); b = 200; } Mod<T> p(a, b);
  for (size_t i = 0; i < p.size(); i++) {   // values representable in the target
    int64_t lim = 100; int64_t lo = (std::is_unsigned_v<T> || std::is_same_v<U, uint8_t> || std::is_same_v<U, std::complex<uint8_t>>) ? 0 : -lim;
    if constexpr (is_cplx<T>::value) { using V = typename T::value_type; p.v[i] = T((V)r.range(lo, lim), (V)r.range(lo, lim)); if constexpr (std::is_floating_point_v<V>) p.v[i] += T((V)r.uni(0, 0.9), (V)r.uni(0, 0.9)); }
    else { p.v[i] = (T)r.range(lo, lim); if constexpr (std::is_floating_point_v<T>) p.v[i] += (T)r.uni(0, 0.9); if constexpr (std::is_same_v<T, double>) if (r.below(6) == 0) p.v[i] = std::nextafter((double)r.range(std::max<int64_t>(lo, 1), lim), r.below(2) ? 0.0 : 1e9); if constexpr (std::is_same_v<U, int> && std::is_same_v<T, double>) if (r.below(4) == 0) p.v[i] = r.below(2) ? 2147483647.0 : -2147483648.0; }
  }
  begin(std::string("convert:") + tn<T>() + ">" + un, mstr(p));
  auto x = to_susa<T>(p); susa::matrix<U> y = x.operator susa::matrix<U>(); std::string why; Mod<U> w(a, b);
  for (size_t i = 0; i < w.size(); i++) { if constexpr (is_cplx<U>::value) { using V = typename U::value_type; w.v[i] = U((V)p.v[i].real(), (V)p.v[i].imag()); } else w.v[i] = (U)p.v[i]; }
  bool ok = matches(y, w, &why); if (!ok) violation(std::string("convert:") + tn<T>() + ">" + un, why);
  if (!matches(x, p, &why)) violation(std::string("convert_source:") + tn<T>(), why);
  seen(hmod(p), a * b > 1); return ok;
}
template <class T> void convs(uint64_t n) {
  std::string kind = std::string("convert:") + tn<T>();
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c);
    if constexpr (is_cplx<T>::value) { conv<T, std::complex<double>>(r, "cdouble"); conv<T, std::complex<float>>(r, "cfloat"); conv<T, std::complex<int>>(r, "cint"); conv<T, std::complex<int8_t>>(r, "cint8"); conv<T, std::complex<uint8_t>>(r, "cuint8"); }
    else { conv<T, double>(r, "double"); conv<T, float>(r, "float"); conv<T, int>(r, "int"); conv<T, int8_t>(r, "int8"); conv<T, uint8_t>(r, "uint8"); } }
}
template <class T, class A = std::allocator<T>> void run(const char* an, uint64_t n) {
  std::string kind = std::string("arith:") + tn<T>() + an;
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); begin(kind, ""); one<T, A>(r, kind); }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(1500);
#if PART(0)
  run<int>("", n); run<double, susa::allocator_log<double>>("/log", n / 2); convs<int>(n / 4);
#endif
#if PART(1)
  run<double>("", n); run<float>("", n); convs<double>(n / 4); convs<float>(n / 4);
#endif
#if PART(2)
  run<uint8_t>("", n); run<int8_t>("", n); convs<uint8_t>(n / 4); convs<int8_t>(n / 4);
#endif
#if PART(3)
  run<std::complex<double>>("", n); convs<std::complex<double>>(n / 4); convs<std::complex<int>>(n / 4);
#endif
#if PART(4)
  run<std::complex<float>>("", n); convs<std::complex<float>>(n / 4); convs<std::complex<int8_t>>(n / 4); 
#endif
#if PART(5)
  run<size_t>("", n); run<unsigned>("", n); run<int16_t>("", n);
#endif
  return finish();
}
