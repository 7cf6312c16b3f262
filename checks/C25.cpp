// C25 Rips and flag constructions are exactly the clique complexes
#include "geomgen.hpp"
#include <filtration/rips.hpp>
using pbt::Src; using namespace orc;
typedef std::map<Spx, double> Model;
static bool interesting(const Model& m, size_t n) { size_t e = 0, t = 0; std::set<double> v; for (auto& p : m) { if (p.first.size() == 2) { ++e; v.insert(p.second); } t += p.first.size() == 3; } return t && e < n * (n - 1) / 2 && v.size() >= 2; }
// extension: every index names an edge of the sorted list attaining the value
template <class R> void extOK(R& r, const Model& m, std::vector<bats::filtered_edge<double>> es, size_t n, const std::string& w) {
    auto& F = std::get<0>(r); auto& inds = std::get<1>(r); sameFilt(F, m, w); std::sort(es.begin(), es.end()); auto& x = F.complex();
    for (size_t k = 0; k <= x.maxdim(); ++k) { if (!x.ncells(k)) continue; CHECKM(k < inds.size() && inds[k].size() == x.ncells(k), w << ": number of indices in dimension " << k); for (size_t i = 0; i < x.ncells(k); ++i) { auto q = x.get_simplex(k, i); Spx t(q.begin(), q.end()); size_t j = inds[k][i]; if (k == 0) { CHECKM(j == t[0], w << ": vertex index"); continue; } CHECKM(j < es.size(), w << ": edge index out of range"); CHECKM(es[j].r == m.at(t) && std::count(t.begin(), t.end(), es[j].s) && std::count(t.begin(), t.end(), es[j].t), w << ": edge " << j << " does not give the value of " << pbt::show(t)); } }
    (void)n;
}
template <class X> void ripsAll(Src& s, const bats::DataSet<double>* P, int metric, const Pts& D, double r, size_t md, const Model& m) {
    size_t n = D.size(); bats::Matrix<double> M = toBM(D, n);
    sameCells(bats::RipsComplex<X>(M, r, md), m, "RipsComplex(matrix)"); sameFilt(bats::RipsFiltration<X>(M, r, md), m, "RipsFiltration(matrix)");
    { auto e = bats::RipsFiltration_extension<X>(M, r, md); extOK(e, m, bats::rips_filtration_edges(M, r), n, "RipsFiltration_extension(matrix)"); }
    if (P) withMetric(metric, [&](auto d) { sameCells(bats::RipsComplex<X>(*P, d, r, md), m, "RipsComplex(points)"); sameFilt(bats::RipsFiltration<X>(*P, d, r, md), m, "RipsFiltration(points)"); auto e = bats::RipsFiltration_extension<X>(*P, d, r, md); extOK(e, m, bats::rips_filtration_edges(*P, d, r), n, "RipsFiltration_extension(points)"); });
    (void)s;
}
static void dispatch(Src& s, const bats::DataSet<double>* P, int metric, const Pts& D, double r, size_t md, const Model& m) { if (s.coin()) ripsAll<bats::SimplicialComplex>(s, P, metric, D, r, md, m); else { s.note << " light"; ripsAll<LightC>(s, P, metric, D, r, md, m); } }
PROP(rips_points, "0-9 points of dimension 1-3 on coarse grids (ties, repeated points) or irregular, all seven metrics, any radius (also exactly a distance), dimension bound 0-4, trie and hash complexes, from points and from the distance matrix: exactly the cliques, each once, with the largest distance, extension indices naming an edge of the simplex with that value; non-trivial: a triangle, a missing edge and two different edge values", 12000, 200000) {
    size_t n = s.coin(1, 150) ? s.range(10, 24) : s.coin(2, 3) ? s.range(3, 9) : s.sized(0, 9), d = s.range(1, 3); int metric = s.draw(6); Pts p = genPts(s, n, d, metric >= 3); bats::DataSet<double> X(toBM(p, d)); Pts D(n, std::vector<double>(n)); s.note << " " << metricName(metric);
    withMetric(metric, [&](auto dist) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { D[i][j] = i == j ? 0 : dist(X[i], X[j]); double q = i == j ? 0 : refDist(metric, p[i], p[j]); CHECKM(std::fabs(D[i][j] - q) <= metricTol(metric), metricName(metric) << " distance is " << D[i][j] << " expected " << q); CHECKM(D[i][j] >= 0, "negative distance"); } });
    double r = genRadius(s, D); size_t md = s.range(0, n > 9 ? 2 : 4); s.note << " md" << md; auto m = cliques(D, r, md); dispatch(s, &X, metric, D, r, md, m); s.nontrivial(interesting(m, n)); s.label(metricName(metric));
}
PROP(rips_matrix, "symmetric non-negative matrices with few distinct values (any, not only metrics), 0-9 points, any radius, dimension bound 0-4, both complex types; float entries too; the enclosing radius is the smallest over points of the largest distance, and above it the complex is a cone (all Betti numbers but the zeroth vanish); non-trivial: a triangle, a missing edge and two different edge values", 12000, 200000) {
    size_t n = s.coin(1, 150) ? s.range(10, 24) : s.coin(2, 3) ? s.range(3, 9) : s.sized(0, 9); Pts D = genDistMat(s, n); double r = genRadius(s, D); size_t md = s.range(0, n > 9 ? 2 : 4); s.note << " md" << md; auto m = cliques(D, r, md); dispatch(s, nullptr, 0, D, r, md, m);
    if (n && n <= 9) { double e = std::numeric_limits<double>::max(); for (auto& x : D) e = std::min(e, *std::max_element(x.begin(), x.end())); CHECKEQ(bats::enclosing_radius(toBM(D, n)), e); auto C = bats::RipsComplex<LightC>(toBM(D, n), e, n); auto R = bats::ReducedChainComplex<M<2>>(bats::ChainComplex<M<2>>(C)); CHECK(R.hdim(0) == 1); for (size_t k = 1; k < R.maxdim(); ++k) CHECKM(R.hdim(k) == 0, "complex at the enclosing radius is not acyclic"); }
    { bats::Matrix<float> f(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) f(i, j) = (float)D[i][j]; Model mf = m; sameFilt(bats::RipsFiltration<bats::SimplicialComplex>(f, (float)r, md), (float)r == r ? mf : cliques(D, (float)r, md), "float"); }
    s.nontrivial(interesting(m, n));
}
PROP(edge_lists, "the edge lists behind Rips constructions (points, matrix; plain, filtered; the one-dimensional helper with all pairs, sorting by length): exactly the pairs within the radius, once each, with their distance, filtered ones in increasing order; non-trivial: some pair excluded and some included", 6000, 60000) {
    size_t n = s.coin(1, 150) ? s.range(10, 24) : s.coin(2, 3) ? s.range(3, 9) : s.sized(0, 9), d = s.range(1, 3); int metric = s.draw(6); Pts p = genPts(s, n, d, metric >= 3); bats::DataSet<double> X(toBM(p, d)); Pts D(n, std::vector<double>(n)); withMetric(metric, [&](auto dist) {
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D[i][j] = i == j ? 0 : dist(X[i], X[j]); double r = genRadius(s, D); std::map<std::pair<size_t, size_t>, double> m; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (D[i][j] <= r) m[{i, j}] = D[i][j];
    auto plain = [&](const std::vector<size_t>& e, const char* w) { std::set<std::pair<size_t, size_t>> g; CHECK(e.size() % 2 == 0); for (size_t k = 0; k < e.size(); k += 2) { auto q = std::minmax(e[k], e[k + 1]); CHECKM(m.count(q) && g.insert(q).second, w << ": pair " << e[k] << "," << e[k + 1]); } CHECKM(g.size() == m.size(), w << ": " << g.size() << " edges, expected " << m.size()); };
    auto filt = [&](std::vector<bats::filtered_edge<double>> e, const char* w) { std::set<std::pair<size_t, size_t>> g; for (auto& x : e) { auto q = std::minmax(x.s, x.t); CHECKM(m.count(q) && g.insert(q).second && m[q] == x.r, w << ": pair " << x.s << "," << x.t << " value " << x.r); } CHECKM(g.size() == m.size(), w << ": " << g.size() << " edges, expected " << m.size()); };
    auto M = toBM(D, n); plain(bats::rips_edges(X, dist, r), "points"); plain(bats::rips_edges(M, r), "matrix"); auto fe = bats::rips_filtration_edges(X, dist, r); filt(fe, "points filtered"); CHECK(std::is_sorted(fe.begin(), fe.end(), [](auto& a, auto& b) { return a.r < b.r; })); filt(bats::rips_filtration_edges(M, r), "matrix filtered"); s.nontrivial(!m.empty() && m.size() < n * (n - 1) / 2); });
    std::vector<double> x; for (auto& q : p) x.push_back(q[0]); if (n) { std::vector<size_t> e; std::vector<double> t; bats::rips_edges(x, e, t); CHECKEQ(e.size(), n * (n - 1)); CHECKEQ(t.size(), n * (n - 1) / 2); auto chk = [&] { std::set<std::pair<size_t, size_t>> g; for (size_t k = 0; k < t.size(); ++k) { CHECK(e[2 * k] != e[2 * k + 1]); CHECK(g.insert(std::minmax(e[2 * k], e[2 * k + 1])).second); CHECKEQ(t[k], std::fabs(x[e[2 * k]] - x[e[2 * k + 1]])); } }; chk(); bats::sort_edges(e, t); chk(); CHECK(std::is_sorted(t.begin(), t.end())); auto ap = bats::all_pairs(n); std::set<std::pair<size_t, size_t>> g; for (size_t k = 0; k < ap.size(); k += 2) { CHECK(ap[k] != ap[k + 1] && ap[k] < n && ap[k + 1] < n); g.insert(std::minmax(ap[k], ap[k + 1])); } CHECK(g.size() == n * (n - 1) / 2 && ap.size() == n * (n - 1)); std::vector<double> flat; for (auto& q : p) flat.insert(flat.end(), q.begin(), q.end()); auto pd = bats::pairwise_dist(flat, ap, d); for (size_t k = 0; k < pd.size(); ++k) CHECKM(std::fabs(pd[k] - refDist(0, p[ap[2 * k]], p[ap[2 * k + 1]])) < 1e-10, "pairwise_dist"); }
}
template <class X> void flags(Src& s) {
    size_t n = s.coin(1, 150) ? s.range(10, 24) : s.coin(2, 3) ? s.range(3, 9) : s.sized(0, 9), md = s.range(0, n > 9 ? 2 : 5); Pts D = genDistMat(s, n); double t0 = s.coin(1, 3) ? -2.0 : 0.0; double pr = s.range(1, 4); std::vector<std::pair<size_t, size_t>> es; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if ((double)s.draw(4) <= pr) es.push_back({i, j}); auto ord = s.perm(es.size()); bool flip = s.coin(); std::vector<size_t> e; std::vector<bats::filtered_edge<double>> fe; std::set<std::pair<size_t, size_t>> E(es.begin(), es.end());
    for (auto k : ord) { size_t a = es[k].first, b = es[k].second; if (flip && s.coin()) std::swap(a, b); e.push_back(a); e.push_back(b); fe.emplace_back(a, b, D[a][b]); s.note << " " << a << "-" << b; } s.note << " md" << md;
    auto m = cliques(D, 0, md, t0, [&](size_t i, size_t j) { return E.count({std::min(i, j), std::max(i, j)}) > 0; });
    sameCells(bats::FlagComplex<X>(e, n, md), m, "FlagComplex"); auto f1 = fe, f2 = fe; sameFilt(bats::FlagFiltration<X>(f1, n, md, t0), m, "FlagFiltration"); auto r = bats::FlagFiltration_extension<X>(f2, n, md, t0); extOK(r, m, fe, n, "FlagFiltration_extension"); CHECK(bats::FlagFiltration<X>(f1, n, md, t0).sortperm() == bats::FlagFiltration<X>(f2, n, md, t0).sortperm());
    s.nontrivial(interesting(m, n) && flip); if (e.size() > 2) CHECK(pbt::throws([&] { auto o = e; o.pop_back(); bats::FlagComplex<X>(o, n, md); }));
}
PROP(flag_lists, "random graphs given as edge lists in random order and orientation, with values (ties) and any vertex value at or below them, dimension bound 0-5, both complex types: FlagComplex, FlagFiltration and its extension are the clique complex with largest edge values; an odd-length list is refused; non-trivial: a triangle, a missing edge, two values, and some edge listed larger vertex first", 12000, 200000) { if (s.coin()) flags<bats::SimplicialComplex>(s); else { s.note << "light"; flags<LightC>(s); } }
PROP(complete_flag, "all edges of a complete graph in increasing order of value (either orientation), dimension bound 1-5: the filtration holds every simplex with its largest edge value, and the returned complex is the same complex; non-trivial: at least 4 vertices, tied values, dimension bound at least 2", 5000, 50000) {
    size_t n = bigN(s, 1, 7, 16), md = s.range(1, n > 9 ? 2 : 5); Pts D = genDistMat(s, n); std::vector<std::tuple<double, size_t, size_t>> o; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { bool f = s.coin(); o.emplace_back(D[i][j], f ? j : i, f ? i : j); } std::stable_sort(o.begin(), o.end(), [](auto& a, auto& b) { return std::get<0>(a) < std::get<0>(b); }); std::vector<size_t> e; std::vector<double> t; std::set<double> dv; for (auto& x : o) { t.push_back(std::get<0>(x)); dv.insert(t.back()); e.push_back(std::get<1>(x)); e.push_back(std::get<2>(x)); } s.note << " md" << md;
    auto m = cliques(D, 1e9, md); auto r = bats::CompleteFlagFiltration(e, t, n, md, 0.0); sameFilt(std::get<1>(r), m, "filtration"); sameCells(std::get<0>(r), m, "complex"); s.nontrivial(n >= 4 && md >= 2 && dv.size() < t.size());
}
PROP(rips_over_cover, "points of any metric (ties, repeats) and a cover of them by 0-5 sets, radius also exactly a distance, dimension bound 0-4: edges are the pairs inside one cover set closer than the radius, the cover Rips filtration is their flag filtration, and the strict one keeps only cliques lying inside a single set; trie and hash types; non-trivial: a triangle, and the strict version smaller than the plain one", 10000, 100000) {
    size_t n = s.coin(1, 150) ? s.range(10, 40) : s.coin(2, 3) ? s.range(3, 9) : s.sized(1, 9), d = s.range(1, 3), md = s.range(0, n > 24 ? 1 : n > 9 ? 2 : 4); int metric = s.draw(6); Pts p = genPts(s, n, d, metric >= 3); bats::DataSet<double> X(toBM(p, d)); bats::Cover c(s.range(0, 5)); long pr = s.range(1, 3); for (auto& x : c) { for (size_t i = 0; i < n; ++i) if (s.coin(pr, 4)) x.insert(i); s.note << pbt::show(std::vector<size_t>(x.begin(), x.end())); } s.note << " md" << md;
    withMetric(metric, [&](auto dist) { Pts D(n, std::vector<double>(n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D[i][j] = i == j ? 0 : dist(X[i], X[j]); double r = genRadius(s, D); auto in = [&](const Spx& q) { for (auto& x : c) { bool ok = true; for (auto i : q) ok &= x.count(i) > 0; if (ok) return true; } return false; }; auto edge = [&](size_t i, size_t j) { return D[i][j] < r && in({i, j}); }; auto m = cliques(D, 0, md, 0, edge); Model ms; for (auto& q : m) if (q.first.size() == 1 || in(q.first)) ms.insert(q);
        sameFilt(bats::RipsFiltration(X, c, dist, r, md), m, "RipsFiltration(cover)"); auto e = bats::rips_filtration_edges(X, c, dist, r); std::set<std::pair<size_t, size_t>> g; for (auto& x : e) CHECKM(edge(x.s, x.t) && x.r == D[x.s][x.t] && g.insert(std::minmax(x.s, x.t)).second, "edge " << x.s << "," << x.t); size_t ne = 0; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) ne += edge(i, j); CHECKEQ(g.size(), ne);
        if (!c.empty()) { if (s.coin()) sameFilt(bats::StrictRipsCoverFiltration<double, bats::SimplicialComplex>(X, c, dist, r, md), ms, "strict"); else sameFilt(bats::StrictRipsCoverFiltration<double, LightC>(X, c, dist, r, md), ms, "strict light"); } size_t t = 0; for (auto& q : ms) t += q.first.size() == 3; s.nontrivial(t && ms.size() < m.size()); });
}
PBT_MAIN("C25")
