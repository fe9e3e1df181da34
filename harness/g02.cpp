// G02: predecessors returned by dijkstra against Bellman-Ford distances.
#include "mat.h"
using namespace mon;
template <class T> void run(uint64_t n) {
  typedef std::conditional_t<std::is_floating_point_v<T>, long double, unsigned __int128> C;
  for (uint64_t c = 0; c < n; c++) { if (!turn()) continue; Rng r = case_rng(tn<T>(), c);
    size_t V = 1 + r.below(r.chance(.15) ? 40 : 10); if (r.chance(.006)) V = 60 + r.below(r.below(3) ? 100 : 240); double dens = r.chance(.2) ? 1 : r.uni(.05, .7); int k = (int)r.below(5); std::vector<T> w(V * V, T(0)); T big = std::is_floating_point_v<T> ? (T)1e30 : std::numeric_limits<T>::max();
    for (size_t i = 0; i < V; i++) for (size_t j = 0; j < V; j++) if (r.chance(dens)) { T x; if constexpr (std::is_floating_point_v<T>) x = k == 0 ? (T)r.uni(0, 1) : k == 1 ? (T)(.25 * (double)r.below(40)) : k == 2 ? (T)std::pow(10., r.uni(-12, 12)) : (T)r.below(20); else x = k == 0 ? (T)r.below(3) : k == 1 ? (T)(big - (T)r.below(5)) : k == 2 ? (T)((uint64_t)r.u64() % ((uint64_t)big / 2 + 1)) : (T)r.below(100); w[i * V + j] = x; }
    if (k == 4) for (size_t i = 0; i < V; i++) for (size_t j = 0; j < i; j++) w[i * V + j] = w[j * V + i];            // undirected
    if (r.chance(.2) && V > 3) { for (auto& x : w) x = T(0); for (size_t i = 0; i + 1 < V; i++) w[(V - 1 - i) * V + (V - 2 - i)] = (T)(1 + r.below(9)); for (size_t i = 0; i < V; i++) if (r.chance(.5)) w[r.below(V) * V + r.below(V)] = (T)(1 + r.below(60)); } // long chains against index order
    size_t src = r.below(V); begin(std::string("graph:") + tn<T>(), std::to_string(V) + " nodes, source " + std::to_string(src) + " weights by row " + vecstr(w, 200)); susa::matrix<T> g(V, V); for (size_t i = 0; i < V; i++) for (size_t j = 0; j < V; j++) g(i, j) = w[i * V + j]; auto g0 = g;
    auto p = susa::dijkstra(g, (unsigned)src); if (!(g == g0)) violation("argument", "graph modified"); if (p.size() != V) { violation("size", std::to_string(p.size())); continue; }
    std::vector<C> d(V, 0); std::vector<char> reach(V, 0); reach[src] = 1; for (size_t it = 0; it < V; it++) for (size_t i = 0; i < V; i++) if (reach[i]) for (size_t j = 0; j < V; j++) if (w[i * V + j] != T(0)) { C x = d[i] + (C)w[i * V + j]; if (!reach[j] || x < d[j]) { d[j] = x; reach[j] = 1; } }
    size_t nr = 0; for (size_t t = 0; t < V; t++) {
      if (!reach[t] || t == src) { if (p(t) != 0) violation(t == src ? "source_predecessor" : "unreachable_predecessor", "node " + std::to_string(t) + " has predecessor " + std::to_string(p(t))); continue; }
      nr++; C tot = 0; size_t u = t, steps = 0; bool ok = true; while (u != src && ok) { size_t q = p(u); if (q >= V || w[q * V + u] == T(0) || ++steps > V) { violation("path", "no edge or cycle at node " + std::to_string(u) + " on the path to " + std::to_string(t)); ok = false; break; } tot += (C)w[q * V + u]; u = q; }
      if (!ok) break; bool good; if constexpr (std::is_floating_point_v<T>) good = tot <= d[t] * (1 + (long double)V * 1e-15L); else good = tot == d[t];
      if (!good) { violation("not_shortest", "path to node " + std::to_string(t) + " has weight " + vstr((double)tot) + " instead of " + vstr((double)d[t])); break; } }
    stat_add("n_reachable", (double)nr); stat_add("n_unreachable", (double)(V - nr - 1)); seen(hvec(w, src), V > 1); }
}
int main(int argc, char** argv) { init(argc, argv); uint64_t n = N(4000, 12); run<int>(n); run<double>(n); run<unsigned>(n / 2); run<float>(n / 2); run<uint8_t>(n / 2); run<int16_t>(n / 2); return finish(); }
