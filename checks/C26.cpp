// C26 Dowker, witness and nerve complexes match their definitions
#include "geomgen.hpp"
using pbt::Src; using namespace orc;
typedef std::map<Spx, double> Model;
// every simplex on n vertices with up to md+1 vertices and a finite value; fn gives the value (vertices v0), closed downwards by monotonicity of fn
static Model brute(size_t n, size_t md, const std::function<bool(const Spx&)>& in) { Model m; std::function<void(Spx, size_t)> go = [&](Spx q, size_t from) { if (!q.empty()) { if (q.size() > 1 && !in(q)) return; m[q] = 0; } if (q.size() == md + 1) return; for (size_t k = from; k < n; ++k) { auto t = q; t.push_back(k); go(t, k + 1); } }; go({}, 0); return m; }
static bats::Cover genCover(Src& s, size_t k, size_t pts) { bats::Cover c(k); for (size_t i = 0; i < k; ++i) for (size_t p = 0; p < pts; ++p) if (s.coin(1, 3)) c[i].insert(p * 3); for (auto& x : c) s.note << pbt::show(std::vector<size_t>(x.begin(), x.end())); return c; }
static bool common(const bats::Cover& c, const Spx& q) { for (auto p : c[q[0]]) { bool ok = true; for (auto i : q) ok &= c[i].count(p) > 0; if (ok) return true; } return false; }
// relation with neither all nor no pairs, containing a triangle of edges without a common point
static bool nontriv(const Model& m, size_t n) { size_t e = 0, t = 0; for (auto& p : m) { e += p.first.size() == 2; t += p.first.size() == 3; } return t && e && e < n * (n - 1) / 2; }
PROP(nerve, "covers of 0-7 sets on 0-8 points (empty and equal sets included), dimension bound 0-6: one vertex per set and exactly the sets of elements with a common point; non-trivial: a triangle, a missing edge, and three sets meeting pairwise but not all together", 15000, 200000) {
    size_t k = s.coin(2, 3) ? s.range(3, 7) : s.sized(0, 7), p = s.range(0, 8), md = s.range(0, 6); auto c = genCover(s, k, p); s.note << " md" << md; auto m = brute(k, md, [&](const Spx& q) { return common(c, q); }); sameCells(bats::Nerve(c, md), m, "nerve");
    bool hollow = false; for (size_t a = 0; a < k; ++a) for (size_t b = a + 1; b < k; ++b) for (size_t d = b + 1; d < k; ++d) hollow |= common(c, {a, b}) && common(c, {a, d}) && common(c, {b, d}) && !common(c, {a, b, d}); s.nontrivial(hollow && nontriv(m, k));
}
// landmark by witness distances
struct Setup { Pts L, X; bats::DataSet<double> dL, dX; int metric; Pts D; size_t nL, nX; };
static Setup setup(Src& s, size_t minL, bool generic = false) {
    Setup r; r.nL = bigN(s, minL, 7, 14); r.nX = bigN(s, 1, generic ? 16 : 9, 30); size_t d = s.range(1, 3); r.metric = s.draw(6); s.note << metricName(r.metric); if (generic) { auto g = [&](size_t n) { Pts p(n, std::vector<double>(d)); for (auto& x : p) { for (auto& c : x) c = (double)s.range(-50000, 50000) / 257.0; if (x[0] == 0) x[0] = 1; } s.note << showPts(p); return p; }; r.X = g(r.nX); r.L = g(r.nL); } else { r.X = genPts(s, r.nX, d, r.metric >= 3); r.L = genPts(s, r.nL, d, r.metric >= 3); }
    if (s.coin(1, 3)) for (auto& l : r.L) if (s.coin()) l = r.X[s.draw(r.nX - 1)]; r.dL = bats::DataSet<double>(toBM(r.L, d)); r.dX = bats::DataSet<double>(toBM(r.X, d)); r.D.assign(r.nL, std::vector<double>(r.nX)); withMetric(r.metric, [&](auto f) { for (size_t i = 0; i < r.nL; ++i) for (size_t j = 0; j < r.nX; ++j) r.D[i][j] = f(r.dL[i], r.dX[j]); }); return r;
}
static Pts best(const Pts& D) { size_t n = D.size(); Pts R(n, std::vector<double>(n, 0.0)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) { double v = std::numeric_limits<double>::max(); for (size_t k = 0; k < D[i].size(); ++k) v = std::min(v, std::max(D[i][k], D[j][k])); R[i][j] = v; } return R; }
static void edgesOK(const std::vector<bats::filtered_edge<double>>& e, const Pts& R, const std::function<bool(size_t, size_t)>& in, const char* w) { std::set<std::pair<size_t, size_t>> g; for (auto& x : e) { auto q = std::minmax(x.s, x.t); CHECKM(x.s != x.t && in(q.first, q.second) && x.r == R[q.first][q.second] && g.insert(q).second, w << ": edge " << x.s << "," << x.t << " value " << x.r); } size_t c = 0; for (size_t i = 0; i < R.size(); ++i) for (size_t j = i + 1; j < R.size(); ++j) c += in(i, j); CHECKM(c == g.size(), w << ": " << g.size() << " edges, expected " << c); }
static double pickR(Src& s, const Pts& R) { Pts q = R; return genRadius(s, q); }
static bool threeVals(const Model& m) { std::set<double> v; size_t t = 0; for (auto& p : m) { if (p.first.size() > 1) v.insert(p.second); t += p.first.size() == 3; } return t && v.size() >= 2; }
PROP(dowker, "landmark-by-witness distances from two point sets in any metric or any non-negative matrix (1-7 landmarks, 1-9 witnesses), radius also exactly a value, dimension bound 0-4: every edge parameter is the best common witness and the Dowker filtration is the flag filtration of the edges below the radius; with a cover of the landmarks only edges inside a cover set count; non-trivial: a triangle, two different edge values and an excluded edge", 12000, 150000) {
    Setup u; bool pts = s.coin(); if (pts) u = setup(s, 1); else { u.nL = bigN(s, 1, 7, 20); u.nX = bigN(s, 1, 9, 30); u.D.assign(u.nL, std::vector<double>(u.nX)); long sp = s.range(1, 9); for (auto& r : u.D) for (auto& x : r) x = (double)s.range(0, sp); s.note << showPts(u.D); }
    Pts R = best(u.D); double r = pickR(s, R); size_t md = s.range(0, u.nL > 9 ? 2 : 4); s.note << " md" << md; auto M = toBM(u.D, u.nX); auto E = bats::dowker_edge_param(M); for (size_t i = 0; i < u.nL; ++i) for (size_t j = 0; j < u.nL; ++j) if (i != j) { CHECKM(E(i, j) == R[i][j], "edge parameter " << i << "," << j); CHECKM(bats::dowker_edge_param(M, i, j) == R[i][j], "single edge parameter"); }
    auto in = [&](size_t i, size_t j) { return R[i][j] < r; }; auto m = cliques(R, 0, md, 0, in); sameFilt(bats::DowkerFiltration(M, r, md), m, "DowkerFiltration(matrix)"); edgesOK(bats::flag_filtration_edges(E, r), R, in, "flag_filtration_edges");
    size_t k = s.range(0, 4); bats::Cover c(k); for (auto& x : c) { for (size_t i = 0; i < u.nL; ++i) if (s.coin(2, 3)) x.insert(i); s.note << " c" << pbt::show(std::vector<size_t>(x.begin(), x.end())); } auto inc = [&](size_t i, size_t j) { if (!(R[i][j] < r)) return false; for (auto& x : c) if (x.count(i) && x.count(j)) return true; return false; }; auto mc = cliques(R, 0, md, 0, inc); sameFilt(bats::DowkerFiltration(M, c, r, md), mc, "DowkerFiltration(matrix, cover)"); edgesOK(bats::dowker_filtration_edges(M, c, r), R, inc, "dowker_filtration_edges");
    if (pts) withMetric(u.metric, [&](auto d) { sameFilt(bats::DowkerFiltration(u.dL, u.dX, d, r, md), m, "DowkerFiltration(points)"); sameFilt(bats::DowkerFiltration(u.dL, u.dX, d, c, r, md), mc, "DowkerFiltration(points, cover)"); });
    s.nontrivial(threeVals(m) && nontriv(m, u.nL));
}
// witness parameters: distances reduced by the nu-th smallest of each witness
static Pts reduced(const Setup& u, size_t nu) { Pts D = u.D; for (size_t j = 0; j < u.nX; ++j) { std::vector<double> c; for (size_t i = 0; i < u.nL; ++i) c.push_back(u.D[i][j]); std::sort(c.begin(), c.end()); double m = nu ? c[nu - 1] : 0; for (size_t i = 0; i < u.nL; ++i) { D[i][j] -= m; if (!(D[i][j] > 0)) D[i][j] = 0; } } return D; }
PROP(witness_parameters, "1-7 landmarks (some among the witnesses), 1-9 witnesses, any metric, nu from 0 up to the number of landmarks: edge parameters are best common witnesses of the distances reduced by the nu-th nearest landmark; the lazy witness complex is their Rips complex, the strict one the nerve of the reduced neighbourhoods, the witness filtration the flag filtration with nu 0; non-trivial: nu at least 1, a triangle, and the strict complex different from the lazy one or an excluded edge", 12000, 150000) {
    Setup u = setup(s, 1); size_t nu = s.range(0, std::min<size_t>(3, u.nL)); s.note << " nu" << nu; Pts D = reduced(u, nu), R = best(D); double r = pickR(s, R); size_t md = s.range(0, u.nL > 9 ? 2 : 4); s.note << " md" << md;
    withMetric(u.metric, [&](auto d) { auto mm = bats::get_m(toBM(u.D, u.nX), nu); for (size_t j = 0; j < u.nX; ++j) { std::vector<double> c; for (size_t i = 0; i < u.nL; ++i) c.push_back(u.D[i][j]); std::sort(c.begin(), c.end()); CHECKM(mm[j] == (nu ? c[nu - 1] : 0), "nu-th smallest of column " << j << " is " << mm[j]); } { auto m2 = mm; auto& m3 = bats::increment_m(toBM(u.D, u.nX), m2); CHECK(&m3 == &m2); for (size_t j = 0; j < u.nX; ++j) { double e = std::numeric_limits<double>::max(); for (size_t i = 0; i < u.nL; ++i) if (u.D[i][j] > mm[j]) e = std::min(e, u.D[i][j]); CHECKM(m2[j] == e, "next larger entry of column " << j << " is " << m2[j]); } }
        auto E = bats::witness_edge_param(u.dX, u.dL, d, nu); for (size_t i = 0; i < u.nL; ++i) for (size_t j = 0; j < u.nL; ++j) if (i != j) CHECKM(E(i, j) == R[i][j], "witness edge parameter " << i << "," << j << " is " << E(i, j) << " expected " << R[i][j]);
        auto lazy = cliques(R, r, md); sameCells(bats::WitnessComplex(u.dX, u.dL, d, nu, r, md), lazy, "lazy witness complex");
        auto strict = brute(u.nL, md, [&](const Spx& q) { for (size_t k = 0; k < u.nX; ++k) { bool ok = true; for (auto i : q) ok &= D[i][k] <= r; if (ok) return true; } return false; }); sameCells(bats::StrictWitnessComplex(u.dX, u.dL, d, nu, r, md), strict, "strict witness complex"); auto P0 = best(reduced(u, 0)); auto F = cliques(P0, 0, md, 0, [&](size_t i, size_t j) { return P0[i][j] < r; }); sameFilt(bats::WitnessFiltration(u.dL, u.dX, d, r, md), F, "WitnessFiltration"); auto nb = bats::neighborhoods(toBM(D, u.nX), r); for (size_t i = 0; i < u.nL; ++i) for (size_t j = 0; j < u.nX; ++j) CHECK((nb[i].count(j) > 0) == (D[i][j] <= r)); CHECK(bats::witness_neighborhoods(u.dX, u.dL, d, nu, r) == nb);
        s.nontrivial(nu >= 1 && (strict.size() != lazy.size() || nontriv(lazy, u.nL))); });
}
PROP(witness_complex, "landmarks and witnesses in general position (distinct distances), any metric, dimension bound below the number of landmarks: exactly the simplices all of whose faces are the nearest landmarks of some witness; non-trivial: a triangle present and a witnessed set left out because a face has no witness", 12000, 150000) {
    Setup u = setup(s, 2, true); for (size_t j = 0; j < u.nX; ++j) { std::set<double> v; for (size_t i = 0; i < u.nL; ++i) v.insert(u.D[i][j]); if (v.size() < u.nL) throw pbt::Discard{}; } size_t md = s.range(0, std::min<size_t>(4, u.nL - 1)); s.note << " md" << md; std::set<Spx> wit; for (size_t j = 0; j < u.nX; ++j) { std::vector<size_t> o(u.nL); for (size_t i = 0; i < u.nL; ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return u.D[a][j] < u.D[b][j]; }); for (size_t k = 2; k <= md + 1; ++k) { Spx q(o.begin(), o.begin() + k); std::sort(q.begin(), q.end()); wit.insert(q); } }
    Model m; bool left = false; for (size_t i = 0; i < u.nL; ++i) m[{i}] = 0; for (size_t k = 2; k <= md + 1; ++k) for (auto& q : wit) if (q.size() == k) { bool ok = true; for (size_t i = 0; i < k; ++i) { Spx f = q; f.erase(f.begin() + i); ok &= m.count(f) > 0; } if (ok) m[q] = 0; else left = true; }
    withMetric(u.metric, [&](auto d) { sameCells(bats::WitnessComplex(u.dX, u.dL, d, md), m, "witness complex"); }); size_t t = 0; for (auto& p : m) t += p.first.size() == 3; s.nontrivial(t && left);
}
PROP(witness_edges, "1-7 landmarks, 1-9 witnesses (shared and duplicate points included), any metric, radius anywhere between the distances: the pairs of landmarks with a common witness within the radius, each once; non-trivial: two landmarks with and two without", 12000, 150000) {
    Setup u = setup(s, 1); std::vector<double> v{0}; for (auto& r : u.D) for (auto x : r) v.push_back(x); std::sort(v.begin(), v.end()); size_t k = s.draw(v.size() - 1); double r = k + 1 < v.size() ? (v[k] + v[k + 1]) / 2 : v[k] + 1; bool tie = false; for (double x : v) tie |= std::abs(x - r) <= 1e-9 * (1 + std::abs(r)); if (tie) throw pbt::Discard{}; s.note << " r=" << r;
    auto R = best(u.D); withMetric(u.metric, [&](auto d) { auto e = bats::witness_edges(u.dX, u.dL, d, r); CHECK(e.size() % 2 == 0); std::set<std::pair<size_t, size_t>> g; for (size_t i = 0; i + 1 < e.size(); i += 2) CHECKM(e[i] < e[i + 1] && e[i + 1] < u.nL && g.emplace(e[i], e[i + 1]).second, "witnessed edge " << e[i] << "," << e[i + 1]); size_t c = 0, n = 0; for (size_t i = 0; i < u.nL; ++i) for (size_t j = i + 1; j < u.nL; ++j) { bool in = R[i][j] < r; CHECKM(in == (g.count({i, j}) > 0), "landmarks " << i << "," << j << (in ? " have" : " have no") << " common witness"); c += in; ++n; } s.nontrivial(c && c < n); });
}
PBT_MAIN("C26")
