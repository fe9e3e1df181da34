// M05: textual form: random formatting of random matrices, printing round trips, ragged text.
#include "mat.h"
using namespace mon;
static const bool nas =
#ifdef SUSA_NASSERT
  true;
#else
  false;
#endif
static std::string blanks(Rng& r, int lo) { std::string s; int n = lo + (r.below(3) ? 0 : (int)r.below(4)); const char* cs = " \t\r"; for (int i = 0; i < n; i++) s += r.below(4) ? ' ' : cs[r.below(3)]; return s; }
template <class T> std::string number(Rng& r, T& v) {
  char buf[80];
  if constexpr (is_cplx<T>::value) { typename T::value_type q; std::string s = number(r, q); v = T(q, 0); return s; }
  else if constexpr (std::is_integral_v<T>) {
    v = r.below(3) ? (T)r.range(std::is_unsigned_v<T> ? 0 : -99, 99) : any_val<T>(r); std::string s = std::to_string(+v); if (r.below(8) == 0 && s[0] != '-') s = "+" + s; if (r.below(12) == 0) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, "00"); return s; }
  else {
    double x; switch (r.below(7)) { case 0: x = (double)r.range(-1000, 1000); snprintf(buf, 80, "%d", (int)x); break; case 1: x = r.gauss() * 100; snprintf(buf, 80, "%.17g", x); break;
      case 2: x = r.gauss(); snprintf(buf, 80, "%.3f", x); break; case 3: x = r.gauss() * std::pow(10, r.range(-20, 20)); snprintf(buf, 80, r.below(2) ? "%e" : "%.12E", x); break;
      case 4: x = r.unit(); snprintf(buf, 80, "%.6f", x); if (buf[0] == '0') memmove(buf, buf + 1, strlen(buf)); break; case 5: x = (double)r.range(-9, 9); snprintf(buf, 80, "%d.", (int)x); break;
      default: x = r.gauss() * 1e5; snprintf(buf, 80, "%+g", x); }
    std::string s = buf; std::istringstream is(s); is >> v; return s; }
}
template <class T, class A> void one(Rng& r, const std::string& kind, uint64_t c) {
  using M = susa::matrix<T, A>; size_t a, b; rnd_shape(r, a, b, 6);
  if (c % 60 == 7) { a = 1 + r.below(3); b = 500 + r.below(1500); if (r.below(3) == 0) std::swap(a, b); } if (c % 1200 == 67) { a = 1; b = 65530 + r.below(1000); if (r.below(2)) std::swap(a, b); }  // long rows, many rows
  Mod<T> m(a, b); std::string s; bool br = r.below(3) == 0; int nl = (int)r.below(4); int sepk = (int)r.below(5);
  s += blanks(r, 0); if (br) { s += "["; s += blanks(r, 0); }
  for (size_t i = 0; i < a; i++) {
    if (i) { s += blanks(r, 0); s += nl == 0 ? "\n" : nl == 1 ? "\r\n" : nl == 2 ? (r.below(2) ? "\n" : ";") : ";"; s += blanks(r, 0); }
    for (size_t j = 0; j < b; j++) { if (j) { if (sepk == 0) s += ","; else if (sepk == 1) { s += blanks(r, 0); s += ","; s += blanks(r, 0); } else if (sepk == 2) s += r.below(2) ? "\t" : ", "; else s += blanks(r, 1); } s += number<T>(r, m.at(i, j)); }
  }
  s += blanks(r, 0); if (br) { s += "]"; s += blanks(r, 0); }
  begin(kind, "text \"" + s.substr(0, 1500) + "\" expected " + mstr(m)); std::string why;
  { M x(s); if (!agrees(x, m, &why)) { violation(std::string("parse_ctor:") + tn<T>(), why); return; } }
  // assignment over whatever was there
  size_t p, q; rnd_shape(r, p, q, 5); M y; int pre = (int)r.below(4); if (pre == 1) y = M(p, q, T(3)); else if (pre == 2) y = M(a, b, T(3)); else if (pre == 3) y = M(b, a, T(3)); 
  if (r.below(2)) y = s; else y = s.c_str(); if (!agrees(y, m, &why)) { violation(std::string("parse_assign:") + tn<T>(), why + " (previous shape kind " + std::to_string(pre) + ")"); return; }
  // empty texts
  if (c % 5 == 0) { const char* es[] = {"", "[]", " ", "[ ]", "\t", " [\t] "}; const char* e = es[r.below(6)]; begin(kind, std::string("empty text '") + e + "'"); M z{std::string(e)}; M t = y; if (r.below(2)) t = e; else t = std::string(e); Mod<T> none; if (!agrees(z, none, &why)) violation(std::string("empty_ctor:") + tn<T>(), why); if (!agrees(t, none, &why)) violation(std::string("empty_assign:") + tn<T>(), why); t = y; if (!agrees(t, m, &why)) violation(std::string("after_empty:") + tn<T>(), why); }
  seen(hmod(m) ^ hstr(s.c_str()), a * b > 1);
}
// printing and parsing back
template <class T, class A> void round_trip(Rng& r, const std::string& kind) {
  using M = susa::matrix<T, A>; size_t a, b; rnd_shape(r, a, b, 7); Mod<T> m = any_mod<T>(r, a, b); if constexpr (std::is_floating_point_v<T>) for (auto&& v : m.v) if (std::fabs(v) > std::numeric_limits<T>::max() / 2) v /= 2; /* rounding to a few digits stays in range */ if (r.below(25) == 0) m = Mod<T>();
  if constexpr (std::is_floating_point_v<T>) for (auto&& v : m.v) if (r.below(3) == 0) v = (T)r.range(-3, 3) * (T)1e6;
  M x = to_susa<T, A>(m); std::ostringstream o; int prec = 6; if constexpr (std::is_floating_point_v<T>) { prec = (int)r.range(1, std::numeric_limits<T>::max_digits10); if (r.below(2)) prec = std::numeric_limits<T>::max_digits10; o.precision(prec); }
  o << x; std::string s = o.str(); begin(kind, "printed \"" + s.substr(0, 1200) + "\" of " + mstr(m));
  Mod<T> w = m; if constexpr (std::is_floating_point_v<T>) for (auto&& v : w.v) { std::ostringstream q; q.precision(prec); q << v; std::istringstream i(q.str()); T t; i >> t; v = t; }
  std::string why; M y(s), z; z = s; if (!matches(y, w, &why)) violation(std::string("roundtrip:") + tn<T>(), why); if (!matches(z, w, &why)) violation(std::string("roundtrip_assign:") + tn<T>(), why);
  // the printed form itself: rows on lines, elements separated by blanks
  std::istringstream is(s); std::string line; size_t rows = 0, cells = 0; while (std::getline(is, line)) { rows++; std::istringstream ls(line); std::string t; while (ls >> t) if (t != "[" && t != "]" && t != "[]") cells++; }
  if (rows != std::max<size_t>(m.r, 1) || cells != m.size()) violation(std::string("print_layout:") + tn<T>(), "printed " + std::to_string(rows) + " lines with " + std::to_string(cells) + " elements");
  if (!matches(x, m, &why)) violation(std::string("print_changed:") + tn<T>(), why);
  seen(hmod(m), m.size() > 1);
}
// the printed form of a complex matrix: each element as (real,imaginary) in decimal
template <class T> void complex_print(uint64_t n) {
  std::string kind = std::string("print:") + tn<T>(); typedef typename T::value_type V;
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(kind.c_str(), c); size_t a, b; rnd_shape(r, a, b, 7); Mod<T> m(a, b); for (auto& v : m.v) { if constexpr (std::is_integral_v<V>) v = T(any_val<V>(r), any_val<V>(r)); else v = T((V)r.range(-999, 999) / 8, (V)r.gauss()); } const auto x = to_susa<T, std::allocator<T>>(m); std::ostringstream o; o.precision(17); o << x; std::string s = o.str(), want = "["; begin(kind, mstr(m));
    for (size_t i = 0; i < a; i++) { if (i) want += "\n "; for (size_t j = 0; j < b; j++) { std::ostringstream q; q.precision(17); q << (j ? " " : "") << "(" << +m.at(i, j).real() << "," << +m.at(i, j).imag() << ")"; want += q.str(); } } want += "]";
    auto squeeze = [](const std::string& t) { std::string u; for (char ch : t) if (ch == '\n' || !isspace((unsigned char)ch) || (u.size() && u.back() != ' ' && u.back() != '\n')) u += ch == '\t' ? ' ' : ch; return u; }; if (squeeze(s) != squeeze(want)) violation(std::string("print_complex:") + tn<T>(), "printed \"" + s.substr(0, 600) + "\" instead of \"" + want.substr(0, 600) + "\""); seen(hmod(m), a * b > 1); }
}
// rows of different lengths are rejected
template <class T, class A> void ragged(Rng& r, const std::string& kind) {
  using M = susa::matrix<T, A>; size_t a = 2 + r.below(5); std::vector<size_t> n(a); size_t base = 1 + r.below(5); bool diff = false; for (auto& q : n) q = base; int mode = (int)r.below(4);
  if (mode == 0) { for (auto& q : n) q = 1 + r.below(6); } else if (mode == 1) n[a - 1] += 1 + r.below(3); else if (mode == 2) n[0] += a; else { n[r.below(a)]++; size_t k = r.below(a); if (n[k] > 1) n[k]--; }   // mode 2 and 3 can keep the total divisible
  for (auto q : n) if (q != n[0]) diff = true; if (!diff) return;
  std::string s; for (size_t i = 0; i < a; i++) { if (i) s += r.below(2) ? ";" : "\n"; for (size_t j = 0; j < n[i]; j++) { if (j) s += " "; s += std::to_string(r.below(9)); } }
  begin(kind, "ragged \"" + s + "\""); bool ctor = r.below(2); M y(2, 3, T(7));
  if (!nas) { Obs o = isolated([&] { if (ctor) { M x(s); } else y = s; }); if (!o.trapped) violation(std::string("ragged_accepted:") + tn<T>(), obs_str(o)); }
  else { std::string why; Mod<T> old(2, 3, T(7)), none; if (ctor) { M x(s); if (!agrees(x, none, &why)) violation(std::string("ragged_ctor:") + tn<T>(), "read as another matrix: " + why); } else { y = s; if (!agrees(y, old, &why) && !agrees(y, none, &why)) violation(std::string("ragged_assign:") + tn<T>(), "read as another matrix: " + why); } }
  seen(hstr(s.c_str()));
}
template <class T, class A = std::allocator<T>> void run(const char* an, uint64_t n) {
  std::string k1 = std::string("parse:") + tn<T>() + an, k2 = std::string("print:") + tn<T>() + an, k3 = std::string("ragged:") + tn<T>() + an;
  if (!nas) for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(k1.c_str(), c); begin(k1, ""); one<T, A>(r, k1, c); }
  if constexpr (!is_cplx<T>::value) if (!nas) for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(k2.c_str(), c); begin(k2, ""); round_trip<T, A>(r, k2); }
  for (uint64_t c = 0; c < n / (nas ? 2 : 10); c++) { if (!turn()) continue; Rng r = case_rng(k3.c_str(), c); begin(k3, ""); ragged<T, A>(r, k3); }
}
int main(int argc, char** argv) {
  init(argc, argv); uint64_t n = N(2500);
#if PART(0)
  run<int>("", n); run<double>("", n); 
#endif
#if PART(1)
  run<float>("", n); run<uint8_t>("", n); run<std::complex<double>>("", n / 4);
#endif
#if PART(2)
  run<int8_t>("", n); run<size_t>("", n / 2); run<double, susa::allocator_log<double>>("/log", n / 2);
#endif
#if PART(3)
  run<long>("", n / 2); run<unsigned>("", n / 2); run<int16_t>("", n / 2); run<char>("", n / 2); run<uint16_t>("", n / 4); run<unsigned long long>("", n / 4);
#if !defined(SUSA_NASSERT)
  complex_print<std::complex<double>>(n / 4); complex_print<std::complex<int8_t>>(n / 4); complex_print<std::complex<uint8_t>>(n / 4); complex_print<std::complex<float>>(n / 4); complex_print<std::complex<int>>(n / 4);
#endif
#endif
  return finish();
}
