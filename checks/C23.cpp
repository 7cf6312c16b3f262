// C23 Union-find H0
#include "oracle.hpp"
#include "persgen.hpp"
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using FC = bats::FilteredChainComplex<double, M<P>>;
typedef std::multiset<std::pair<double, double>> BD;
static std::string showBD(const BD& b) { std::ostringstream o; o.precision(17); for (auto& p : b) o << "(" << p.first << "," << p.second << ")"; return o.str(); }
static const double INF = std::numeric_limits<double>::infinity();
// degree-zero barcode from components only: edges in stable order by value, component labels rewritten by hand
struct UF0 { BD bars; std::map<size_t, double> killed; };   // killed: merging edge (original index) -> birth of the younger component
static UF0 components(const std::vector<double>& v, const std::vector<std::pair<size_t, size_t>>& e, const std::vector<double>& ev) {
    UF0 r; size_t n = v.size(); std::vector<size_t> lab(n), ord(e.size()); for (size_t i = 0; i < n; ++i) lab[i] = i; for (size_t i = 0; i < ord.size(); ++i) ord[i] = i; std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return ev[a] < ev[b]; });
    auto minOf = [&](size_t l) { double m = INF; for (size_t i = 0; i < n; ++i) if (lab[i] == l) m = std::min(m, v[i]); return m; };
    for (auto k : ord) { size_t a = lab[e[k].first], b = lab[e[k].second]; if (a == b) continue; double y = std::max(minOf(a), minOf(b)); r.bars.insert({y, ev[k]}); r.killed[k] = y; for (auto& q : lab) if (q == b) q = a; } std::set<size_t> L(lab.begin(), lab.end()); for (auto l : L) r.bars.insert({minOf(l), INF}); return r;
}
static void checkPairs(const std::vector<bats::PersistencePair<double>>& ps, const UF0& ref, const Vals& vals, const std::string& w) {
    BD got; std::map<size_t, double> killed; std::set<size_t> births; for (auto& p : ps) { CHECKM(p.dim == 0 && p.birth_ind < vals[0].size() && births.insert(p.birth_ind).second, w << ": birth index " << p.birth_ind); CHECKM(p.birth == vals[0][p.birth_ind], w << ": birth " << p.birth << " of vertex " << p.birth_ind << " with value " << vals[0][p.birth_ind]); if (p.death_ind == bats::NO_IND) CHECKM(p.death == INF, w << ": death of an essential bar"); else { CHECKM(p.death_ind < vals[1].size() && p.death == vals[1][p.death_ind], w << ": death value"); CHECKM(killed.emplace(p.death_ind, p.birth).second, w << ": edge kills two components"); } got.insert({p.birth, p.death}); }
    CHECKM(births.size() == vals[0].size(), w << ": a vertex is missing"); CHECKM(got == ref.bars, w << "\n  got  " << showBD(got) << "\n  want " << showBD(ref.bars)); CHECKM(killed == ref.killed, w << ": merging edges");
}
// spread values so that they differ only beyond single precision, keeping order and ties
static void squeeze(Src& s, Vals& v) { int m = s.draw(3); if (m <= 1) return; double base = m == 2 ? 1.0 : 1000.0, eps = m == 2 ? 1e-12 : 1e-9; for (auto& q : v) for (auto& x : q) x = base + eps * x; s.note << " squeezed"; }
PROP(complexes, "filtrations on every kind of complex over F2, F3, F5, Q, unsorted input order, ties, differences below single precision: union-find pairs have the degree-zero barcode of an independent reduction and of component tracking, indices and values refer to the original cells, merging edges kill the younger component; the reduction in the library agrees; non-trivial: the vertices are not entered in order of value and a bar with positive length dies", 20000, 300000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto f = facesOf(X); auto vals = genVals(s, f); squeeze(s, vals); s.note << showVals(vals); auto F = bats::Filtration(X, vals); FC<P> C(F); auto x = cxOf<P>(CH<P>(X)); BD ref; for (auto& b : refBars<P>(x, vals)) if (b.dim == 0) ref.insert({b.b, b.inf ? INF : b.d}); std::vector<std::pair<size_t, size_t>> e; Vals v2 = {vals[0], {}}; std::vector<size_t> id; if (f.size() > 1) for (size_t j = 0; j < f[1].size(); ++j) { if (f[1][j].size() == 2) e.push_back({f[1][j][0], f[1][j][1]}); else e.push_back({0, 0}); v2[1].push_back(vals[1][j]); } auto u = components(vals[0], e, v2[1]); CHECKM(u.bars == ref, "oracles disagree"); auto ps = bats::union_find_pairs(C); checkPairs(ps, u, v2, "union find");
        BD red; for (auto& p : bats::ReducedFilteredChainComplex<double, M<P>>(C).persistence_pairs(0)) red.insert({p.birth, p.death}); CHECKM(red == ref, "reduction"); bool pos = false; for (auto& b : ref) pos |= b.second < INF && b.second > b.first; s.nontrivial(pos && !std::is_sorted(vals[0].begin(), vals[0].end())); }); });
}
PROP(graphs, "filtered graphs on up to 60 vertices (sparse, dense, paths, stars), edges unsorted, values tied or distinct: union-find pairs equal component tracking; non-trivial: at least 10 merges of positive length with unsorted vertices", 8000, 80000) {
    size_t n = s.sized(1, 60); std::vector<std::pair<size_t, size_t>> e; std::set<std::pair<size_t, size_t>> have; int kind = s.draw(4); if (s.coin(1, kind == 4 ? 8 : 60)) n = s.range(60, 200); auto put = [&](size_t a, size_t b) { if (a > b) std::swap(a, b); if (a != b && have.insert({a, b}).second) e.push_back({a, b}); }; auto p = s.perm(n);
    size_t np = n; if (kind == 4 && n > 2) np -= s.coin(); /* an isolated vertex: the search cannot stop early */ if (kind == 0 || kind == 4) for (size_t i = 1; i < np; ++i) put(p[i - 1], p[i]); if (kind == 1) for (size_t i = 1; i < n; ++i) put(p[0], p[i]); if (kind == 4) for (long i = 0, t = s.sized(0, 4); i < t; ++i) put(p[s.draw(np - 1)], p[np - 1 - s.draw(std::min<size_t>(3, np - 1))]); if (kind >= 1 && kind < 4) for (long i = 0, t = s.sized(0, kind == 3 ? 200 : 60); i < t && n > 1; ++i) put(s.draw(n - 1), s.draw(n - 1)); if (kind == 0) { auto q = s.perm(e.size()); auto e2 = e; for (size_t i = 0; i < e.size(); ++i) e[i] = e2[q[i]]; }
    bats::SimplicialComplex X(n, 1); Vals v(2); long sp = s.coin() ? 4 : 1000; for (size_t i = 0; i < n; ++i) { std::vector<size_t> q = {i}; X.add(q); v[0].push_back((double)s.range(-sp, sp)); } for (auto& q : e) { std::vector<size_t> t = {q.first, q.second}; X.add(t); v[1].push_back(std::max(v[0][q.first], v[0][q.second]) + (s.coin() ? (double)s.draw(sp) : 0.0)); } if (kind == 4) { bool up = s.coin(), rev = s.coin(3, 4); /* a path whose components merge end to end, so that every merge lengthens the chain of elders */ std::vector<size_t> at(n); for (size_t i = 0; i < n; ++i) at[p[i]] = i; for (size_t i = 0; i < n; ++i) v[0][i] = (double)(up ? at[i] : n - at[i]); for (size_t k = 0; k < e.size(); ++k) { size_t a = std::max(at[e[k].first], at[e[k].second]); v[1][k] = (double)(n + 1 + (up == rev ? n - a : a)); if (k + 1 >= np) v[1][k] = (double)(3 * n + s.draw(2)); /* chords, looked up from both ends of the chain */ } } if (s.coin(1, 12)) { for (auto& x : v[1]) if (s.coin(1, 6)) x = INF; } else squeeze(s, v); s.note << "n=" << n << " edges " << e.size() << showVals(v); auto u = components(v[0], e, v[1]); auto F = bats::Filtration(X, v); bats::FilteredChainComplex<double, M<3>> C(F); checkPairs(bats::union_find_pairs(C), u, v, "graph"); size_t c = 0; for (auto& b : u.bars) c += b.second < INF && b.second > b.first; s.nontrivial(c >= 10 && !std::is_sorted(v[0].begin(), v[0].end()));
}
PROP(rips, "packed pairwise distances of up to 50 points (points on a line, in the plane, arbitrary non-negative symmetric values, ties, zeros): every bar is born at 0, the deaths are the edge lengths of a minimum spanning tree (Prim), each at the named position of the sorted order, one essential bar; small cases also equal the reduction of the Rips filtration; non-trivial: at least 6 points and three distinct positive deaths", 10000, 150000) {
    size_t n = s.sized(1, 50); int kind = s.draw(3); std::vector<std::pair<double, double>> pt; long sp = s.coin() ? 5 : 500; for (size_t i = 0; i < n; ++i) pt.push_back({(double)s.range(-sp, sp), kind == 1 ? (double)s.range(-sp, sp) : 0.0}); std::vector<std::vector<double>> d(n, std::vector<double>(n, 0)); std::vector<double> v; std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { double x = kind <= 1 ? std::hypot(pt[i].first - pt[j].first, pt[i].second - pt[j].second) : (double)s.draw(sp) / 4; d[i][j] = d[j][i] = x; v.push_back(x); e.push_back({i, j}); }
    s.note << "n=" << n << " " << pbt::show(v); std::vector<size_t> ord = bats::util::sortperm(v); CHECK(ord.size() == v.size()); auto ps = bats::rips_union_find_pairs(ord, v); std::multiset<double> want, got; std::vector<bool> in(n); std::vector<double> key(n, INF); key[0] = 0; for (size_t t = 0; t < n; ++t) { size_t b = n; for (size_t i = 0; i < n; ++i) if (!in[i] && (b == n || key[i] < key[b])) b = i; in[b] = true; if (t) want.insert(key[b]); for (size_t i = 0; i < n; ++i) key[i] = std::min(key[i], d[b][i]); } CHECKEQ(ps.size(), n);
    size_t ess = 0; std::set<size_t> bi, di; for (auto& p : ps) { CHECK(p.dim == 0 && p.birth == 0 && p.birth_ind < n && bi.insert(p.birth_ind).second); if (p.death_ind == bats::NO_IND) { ++ess; CHECK(p.death == INF); } else { CHECKM(p.death_ind < ord.size() && di.insert(p.death_ind).second && p.death == v[ord[p.death_ind]], "death index " << p.death_ind); got.insert(p.death); } } CHECKEQ(ess, (size_t)1); CHECKM(got == want, "deaths " << pbt::show(std::vector<double>(got.begin(), got.end())) << " minimum spanning tree " << pbt::show(std::vector<double>(want.begin(), want.end())));
    if (n <= 12) { bats::SimplicialComplex X(n, 1); Vals w(2); for (size_t i = 0; i < n; ++i) { std::vector<size_t> q = {i}; X.add(q); w[0].push_back(0); } for (size_t k = 0; k < e.size(); ++k) { std::vector<size_t> q = {e[k].first, e[k].second}; X.add(q); w[1].push_back(v[k]); } auto F = bats::Filtration(X, w); bats::FilteredChainComplex<double, M<2>> C(F); std::multiset<double> r; for (auto& p : bats::ReducedFilteredChainComplex<double, M<2>>(C).persistence_pairs(0)) if (p.death_ind != bats::NO_IND) r.insert(p.death); CHECKM(r == want, "reduction disagrees"); }
    std::set<double> pos(want.begin(), want.end()); pos.erase(0.0); s.nontrivial(n >= 6 && pos.size() >= 3);
}
PROP(packed_index, "the packed index of pair (i,j), i<j<n, enumerates pairs row by row: for small n exhaustively, for n up to a million at random positions and row ends; non-trivial: n at least 1000", 20000, 400000) {
    size_t n = s.coin(1, 3) ? 2 + s.draw(38) : 2 + s.draw(s.coin() ? 5000 : 1000000); auto at = [&](size_t i, size_t j) { size_t k = i * (2 * n - i - 1) / 2 + (j - i - 1); auto r = bats::binom_to_inds(k, n); CHECKM(r.first == i && r.second == j, "n=" << n << " k=" << k << " gives " << r.first << "," << r.second << " expected " << i << "," << j); };
    s.note << "n=" << n; if (n < 40) for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) at(i, j); else for (int t = 0; t < 8; ++t) { size_t i = s.coin(1, 4) ? n - 2 - s.draw(5) : s.draw(n - 2); at(i, i + 1); at(i, n - 1); at(i, i + 1 + s.draw(n - i - 2)); } s.nontrivial(n >= 1000); s.label(n < 40 ? "exhaustive" : "sampled");
}
PBT_MAIN("C23")
