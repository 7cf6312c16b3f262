// C29 Diagram functors commute: covers, complexes, chains and homology
// split: field
#include "geomgen.hpp"
#include <omp.h>
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::Diagram<std::set<size_t>, std::vector<size_t>> SetD;
struct Threads { Threads(Src& s) { omp_set_num_threads(s.coin(1, 3) ? (int)s.range(2, 4) : 1); } ~Threads() { omp_set_num_threads(1); } };
typedef std::map<std::pair<size_t, size_t>, long> BarCount;
template <class R> BarCount barCount(const R& ps, size_t k) { BarCount r; for (auto& p : ps) if (p.dim == k) ++r[{(size_t)p.birth, (size_t)p.death}]; return r; }
static void dropZero(BarCount& b) { for (auto it = b.begin(); it != b.end();) if (!it->second) it = b.erase(it); else ++it; }
static std::string showB(const BarCount& m) { std::ostringstream o; for (auto& q : m) o << "[" << q.first.first << "," << q.first.second << "]x" << q.second << " "; return o.str(); }
static bool longBar(const BarCount& b, size_t len) { for (auto& q : b) { size_t l = q.first.second - q.first.first + 1; if (l > 1 && l < len) return true; } return false; }
// directed graph of complexes and vertex maps; target complexes contain the images; edges 3 = 2 o 1 are recorded
struct Node { size_t n; std::vector<Spx> v; std::vector<std::vector<Spx>> cells; };
struct Edge { size_t a, b; std::vector<size_t> f; };
struct Dag { std::vector<Node> node; std::vector<Edge> edge; size_t md; bool path = false; };
static Dag genDag(Src& s, bool path, size_t md) {
    Dag d; d.md = md; d.path = path; size_t N = bigN(s, path ? 2 : 1, path ? 6 : 4, path ? 16 : 7); std::vector<size_t> nv; for (size_t i = 0; i < N; ++i) nv.push_back(N > 7 ? s.range(1, 4) : bigN(s, 1, 5, 8));
    std::vector<std::pair<size_t, size_t>> es; if (path) for (size_t i = 0; i + 1 < N; ++i) es.push_back(s.coin() ? std::make_pair(i, i + 1) : std::make_pair(i + 1, i)); else { for (size_t a = 0; a < N; ++a) for (size_t b = a + 1; b < N; ++b) if (s.coin()) es.push_back({a, b}); if (s.coin(1, 3)) { size_t a = s.range(0, N - 1); es.push_back({a, a}); } }
    std::map<std::pair<size_t, size_t>, std::vector<size_t>> fm; for (auto& e : es) { std::vector<size_t> f; bool mono = s.coin(); for (size_t i = 0; i < nv[e.first]; ++i) f.push_back(e.first == e.second ? i : mono ? std::min(i, nv[e.second] - 1) : s.range(0, nv[e.second] - 1)); fm[e] = f; }
    if (!path) for (auto& e1 : es) for (auto& e2 : es) if (e1.second == e2.first && e1 != e2 && e1.first != e1.second && e2.first != e2.second) { std::pair<size_t, size_t> c{e1.first, e2.second}; if (fm.count(c) && s.coin(2, 3)) { auto& f = fm[c]; for (size_t i = 0; i < f.size(); ++i) f[i] = fm[e2][fm[e1][i]]; } }
    for (auto& e : fm) d.edge.push_back({e.first.first, e.first.second, e.second}); if (!path) { auto p = s.perm(d.edge.size()); std::vector<Edge> t; for (auto i : p) t.push_back(d.edge[i]); d.edge = t; } else { std::vector<Edge> t; for (auto& e : es) t.push_back({e.first, e.second, fm[e]}); d.edge = t; }
    std::vector<std::set<Spx>> S(N); for (size_t i = 0; i < N; ++i) { auto c = genComplex(s, nv[i], md, s.range(0, 3)); S[i].insert(c.begin(), c.end()); for (size_t j = 0; j < nv[i]; ++j) S[i].insert({j}); }
    for (bool ch = true; ch;) { ch = false; for (auto& e : d.edge) for (auto& q : S[e.a]) for (auto& t : closure({imageOf(q, e.f)})) ch |= S[e.b].insert(t).second; }
    for (size_t i = 0; i < N; ++i) { std::vector<Spx> v(S[i].begin(), S[i].end()); byDim(v); Node n; n.n = nv[i]; n.v = linearExtension(s, v); n.cells.resize(md + 1); for (auto& q : n.v) n.cells[q.size() - 1].push_back(q); s.note << " " << i << ":" << pbt::show(n.v); d.node.push_back(n); } for (auto& e : d.edge) s.note << " " << e.a << "->" << e.b << pbt::show(e.f); return d;
}
static SC mkSC(const Node& n, size_t md) { SC x(n.n, md); for (auto q : n.v) x.add(q); return x; }
static LightC mkLC(const Node& n, size_t md, size_t V) { LightC x(V, md); for (auto& q : n.v) x.add(q); return x; }
template <int P> DM<P> refMap(const Node& A, const Node& B, const std::vector<size_t>& f, size_t k) {
    DM<P> r(B.cells[k].size(), A.cells[k].size()); for (size_t j = 0; j < A.cells[k].size(); ++j) { std::vector<size_t> im; for (auto x : A.cells[k][j]) im.push_back(f[x]); int sg = 1; for (size_t x = 0; x < im.size(); ++x) for (size_t y = x + 1; y < im.size(); ++y) if (im[x] > im[y]) sg = -sg; std::sort(im.begin(), im.end()); if (std::adjacent_find(im.begin(), im.end()) != im.end()) continue; for (size_t i = 0; i < B.cells[k].size(); ++i) if (B.cells[k][i] == im) r(i, j) = Z<P>(sg); } return r;
}
template <int P> Cx<P> refCx(const Node& n) { Cx<P> r; for (size_t k = 0; k < n.cells.size(); ++k) r.d.push_back(k ? simplicialBoundary<P>(n.cells, k) : DM<P>(1, n.cells[0].size())); return r; }
template <int P> struct HRef { std::vector<size_t> dim; std::vector<DM<P>> f; };
template <int P> HRef<P> refHom(const Dag& d, const std::vector<Cx<P>>& X, size_t k) { HRef<P> r; std::vector<HomBasis<P>> h; for (auto& x : X) { Mask m; for (size_t q = 0; q < x.d.size(); ++q) m.push_back(std::vector<char>(x.dim(q), 1)); h.push_back(homOfMask(x, m, k)); r.dim.push_back(h.back().H.n); } for (auto& e : d.edge) r.f.push_back(homCoords(h[e.b], refMap<P>(d.node[e.a], d.node[e.b], e.f, k) * h[e.a].H)); return r; }
template <class CD> void edgesMatch(const CD& C, const Dag& d, bool rev, const char* w) { CHECK(C.nnode() == d.node.size() && C.nedge() == d.edge.size()); for (size_t j = 0; j < d.edge.size(); ++j) CHECKM(C.edge_source(j) == (rev ? d.edge[j].b : d.edge[j].a) && C.edge_target(j) == (rev ? d.edge[j].a : d.edge[j].b), w << ": ends of edge " << j); }
template <class DT> DT cellDiagram(Src& s, const Dag& d, std::function<typename std::decay<decltype(std::declval<DT>().node[0])>::type(const Node&)> mk) {
    size_t n = d.node.size(), m = d.edge.size(); if (s.coin()) { DT D; for (auto& x : d.node) { auto y = mk(x); if (s.coin()) D.add_node(y); else D.add_node(mk(x)); } for (auto& e : d.edge) { auto y = bats::SimplicialMap(D.node[e.a], D.node[e.b], e.f); size_t q = s.coin() ? D.add_edge(e.a, e.b, y) : D.add_edge(e.a, e.b, bats::SimplicialMap(D.node[e.a], D.node[e.b], e.f)); CHECK(q + 1 == D.nedge()); } return D; }
    DT D(n, m); for (size_t i : s.perm(n)) D.set_node(i, mk(d.node[i])); for (size_t j : s.perm(m)) D.set_edge(j, d.edge[j].a, d.edge[j].b, bats::SimplicialMap(D.node_data(d.edge[j].a), D.node_data(d.edge[j].b), d.edge[j].f)); return D;
}
template <int P, class DT> void checkFunctors(Src& s, const Dag& d, const DT& D) {
    Threads th(s); std::vector<Cx<P>> X; for (auto& n : d.node) X.push_back(refCx<P>(n)); int how = s.draw(2); auto C = how == 0 ? bats::Chain(D, orc::F<P>()) : how == 1 ? bats::ChainFunctor(D, orc::F<P>()) : bats::ChainFunctor<M<P>>(D); edgesMatch(C, d, false, "chain functor"); bool nt = false, comp = false;
    typedef typename std::decay<decltype(D.node[0])>::type XT; for (size_t i = 0; i < d.node.size(); ++i) { bats::ChainComplex<M<P>> own(D.node[i]); CHECK(C.node[i].maxdim() == d.md); for (size_t k = 0; k <= d.md; ++k) { auto b = matOf<P>(C.node[i].boundary[k], "node"); CHECKM(b == matOf<P>(own.boundary[k], "own"), "chain complex of node " << i << " differs from the one of its complex in degree " << k); if (k) CHECKM(b == X[i].d[k] || b == X[i].d[k].scaled(Z<P>(-1)), "boundary of node " << i << " in degree " << k); } }
    for (size_t j = 0; j < d.edge.size(); ++j) for (size_t k = 0; k <= d.md; ++k) { auto& e = d.edge[j]; auto f = matOf<P>(C.edata[j][k], "edge"); CHECKM(f == refMap<P>(d.node[e.a], d.node[e.b], e.f, k), "chain map of edge " << j << " in degree " << k); if (k) CHECKM(matOf<P>(C.node[e.b].boundary[k], "") * f == matOf<P>(C.edata[j][k - 1], "") * matOf<P>(C.node[e.a].boundary[k], ""), "edge " << j << " does not commute with boundaries"); }
    auto E1 = bats::DGLinearFunctor<M<P>>(D, -1), E2 = bats::DGLinearFunctor<M<P>>(D, 1); edgesMatch(E1, d, false, "dg functor"); edgesMatch(E2, d, true, "cochain functor"); auto A = bats::Hom(C, true); auto B1 = bats::Hom(E1, true), B2 = bats::Hom(E2, true); for (size_t j = 0; j < d.edge.size(); ++j) CHECK(A.edata[j].size() == d.md + 1 && B1.edata[j].size() == d.md + 1 && B2.edata[j].size() == d.md + 1);
    if (d.md) { auto A0 = bats::Hom(C); auto G0 = bats::Hom(E1); for (size_t j = 0; j < d.edge.size(); ++j) { CHECK(A0.edata[j].size() == d.md && G0.edata[j].size() == d.md); for (size_t k = 0; k < d.md; ++k) CHECK(A0.edata[j][k] == A.edata[j][k] && G0.edata[j][k] == B1.edata[j][k]); } } else CHECK(pbt::throws([&] { bats::Hom(C); }));
    for (size_t k = 0; k <= d.md; ++k) { auto R = refHom<P>(d, X, k); auto H = bats::Hom(C, k), G1 = bats::Hom(E1, k), G2 = bats::Hom(E2, k); edgesMatch(H, d, false, "Hom"); edgesMatch(G1, d, false, "Hom of dg"); edgesMatch(G2, d, true, "Hom of cochains"); for (size_t i = 0; i < d.node.size(); ++i) CHECKM(H.node[i].hdim(k) == R.dim[i] && (long)R.dim[i] == X[i].betti(k), "Betti number " << k << " of node " << i << " is " << H.node[i].hdim(k) << " expected " << R.dim[i]);
        auto mats = [&](const auto& Q, bool rev, const char* w) { std::vector<DM<P>> r; for (size_t j = 0; j < d.edge.size(); ++j) { auto m = matOf<P>(Q.edata[j], w); size_t a = d.edge[j].a, b = d.edge[j].b; if (rev) std::swap(a, b); CHECKM(m.m == R.dim[b] && m.n == R.dim[a], w << ": shape of edge " << j << " in degree " << k << " is " << m.m << "x" << m.n << " expected " << R.dim[b] << "x" << R.dim[a]); CHECKM(m.rank() == R.f[j].rank(), w << ": rank of edge " << j << " in degree " << k << " is " << m.rank() << " expected " << R.f[j].rank()); r.push_back(m); } return r; };
        auto m = mats(H, false, "Hom"), g1 = mats(G1, false, "Hom of dg"), g2 = mats(G2, true, "Hom of cochains"); for (size_t j = 0; j < d.edge.size(); ++j) { CHECKM(H.edata[j] == A.edata[j][k] && G1.edata[j] == B1.edata[j][k] && G2.edata[j] == B2.edata[j][k], "all degrees at once differs on edge " << j); if (k) nt |= R.f[j].rank() > 0 && R.f[j].rank() < std::max(R.f[j].m, R.f[j].n); }
        for (size_t x = 0; x < d.edge.size(); ++x) for (size_t y = 0; y < d.edge.size(); ++y) for (size_t z = 0; z < d.edge.size(); ++z) { auto &e1 = d.edge[x], &e2 = d.edge[y], &e3 = d.edge[z]; if (e1.b != e2.a || e3.a != e1.a || e3.b != e2.b) continue; bool same = true; for (size_t i = 0; i < e1.f.size(); ++i) same &= e3.f[i] == e2.f[e1.f[i]]; if (!same) continue; CHECKM(m[z] == m[y] * m[x], "Hom does not compose along edges " << x << "," << y << " in degree " << k); CHECKM(g1[z] == g1[y] * g1[x], "Hom of dg does not compose along edges " << x << "," << y); CHECKM(g2[z] == g2[x] * g2[y], "Hom of cochains does not compose along edges " << x << "," << y); if (e1.a != e1.b && e2.a != e2.b && m[z].rank() && !(m[z] == DM<P>::eye(m[z].m))) comp = true; }
        if (d.path) { std::vector<bool> dir; for (size_t j = 0; j < d.edge.size(); ++j) dir.push_back(d.edge[j].b == j + 1); auto want = quiverBars<P>(R.dim, R.f, dir); dropZero(want); auto chk = [&](const BarCount& g, const char* w) { CHECKM(g == want, w << ": bars in degree " << k << " are " << showB(g) << " expected " << showB(want)); }; chk(barCount(bats::barcode(H, k), k), "Hom"); chk(barCount(bats::barcode(G1, k), k), "Hom of dg"); chk(barCount(bats::barcode(G2, k), k), "Hom of cochains"); chk(barCount(bats::barcode(A), k), "Hom in all degrees"); nt |= longBar(want, d.node.size()); } }
    s.nontrivial(d.path ? nt : (comp || nt));
}
PROP(chains_and_homology, "diagrams of simplicial complexes (trie and hash) of arbitrary shape with simplicial vertex maps, collapses and composites included, 1 to 4 threads, every field: chain functor at nodes and edges, homology functors in one and all degrees for chain, dg and cochain diagrams: shapes, ranks against dense linear algebra, composition of edges; non-trivial: an induced map neither zero nor bijective, or a non-trivial composite", 3500, 50000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto d = genDag(s, false, s.range(0, 2)); if (s.coin()) { size_t md = d.md; checkFunctors<P>(s, d, cellDiagram<bats::Diagram<SC, bats::CellularMap>>(s, d, [md](const Node& n) { return mkSC(n, md); })); } else { size_t md = d.md, V = 1; for (auto& n : d.node) V = std::max(V, n.n); checkFunctors<P>(s, d, cellDiagram<bats::Diagram<LightC, bats::CellularMap>>(s, d, [md, V](const Node& n) { return mkLC(n, md, V); })); } });
}
PROP(zigzag_paths, "zigzag diagrams of up to 6 complexes with arbitrary simplicial maps in either direction: as above, and the barcodes of all homology functors equal the dense decomposition; non-trivial: a bar covering more than one but not all nodes", 3500, 50000) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto d = genDag(s, true, s.range(0, 2)); if (s.coin(2, 3)) { size_t md = d.md; checkFunctors<P>(s, d, cellDiagram<bats::Diagram<SC, bats::CellularMap>>(s, d, [md](const Node& n) { return mkSC(n, md); })); } else { size_t md = d.md, V = 1; for (auto& n : d.node) V = std::max(V, n.n); checkFunctors<P>(s, d, cellDiagram<bats::Diagram<LightC, bats::CellularMap>>(s, d, [md, V](const Node& n) { return mkLC(n, md, V); })); } });
}
static void sameMap(const bats::CellularMap& F, const SC& A, const SC& B, const std::vector<size_t>& f, const std::string& w) {
    for (size_t k = 0; k <= A.maxdim() && k <= B.maxdim(); ++k) for (size_t j = 0; j < A.ncells(k); ++j) { auto q = A.get_simplex(k, j); auto im = imageOf(Spx(q.begin(), q.end()), f); std::map<size_t, int> want, got; if (im.size() == k + 1) { int sg = 1; for (size_t x = 0; x < q.size(); ++x) for (size_t y = x + 1; y < q.size(); ++y) if (f[q[x]] > f[q[y]]) sg = -sg; size_t i = B.find_idx(std::vector<size_t>(im.begin(), im.end())); CHECK(i != bats::NO_IND); want[i] = sg; } auto& M = F[k]; for (auto it = M[j].nzbegin(); it != M[j].nzend(); ++it) got[it->ind] = it->val; CHECKM(got == want, w << ": image of " << pbt::show(q)); }
}
PROP(nerve, "diagrams of covers with index maps into coarser covers (empty members, chains of refinements, shared targets), any dimension bound: nerve at every node by brute force, simplicial map at every edge, 1 to 4 threads; for zigzags the barcode of homology; non-trivial: a triangle in a nerve and a collapsing map", 6000, 60000) {
    bool path = s.coin(); size_t N = bigN(s, 1, path ? 5 : 4, path ? 12 : 7), dmax = s.range(0, 3), pts = bigN(s, 1, 6, 20); std::vector<std::vector<std::set<size_t>>> U(N); for (auto& u : U) { u.resize(s.range(1, 5)); for (auto& x : u) for (size_t p = 0; p < pts; ++p) if (s.coin(1, 3)) x.insert(p); }
    std::vector<Edge> es; for (size_t a = 0; a < N; ++a) for (size_t b = a + 1; b < N; ++b) if (path ? b == a + 1 : s.coin()) { size_t x = a, y = b; if (path && s.coin()) std::swap(x, y); std::vector<size_t> f; for (size_t i = 0; i < U[x].size(); ++i) f.push_back(s.range(0, U[y].size() - 1)); es.push_back({x, y, f}); }
    for (bool ch = true; ch;) { ch = false; for (auto& e : es) for (size_t i = 0; i < U[e.a].size(); ++i) for (auto p : U[e.a][i]) ch |= U[e.b][e.f[i]].insert(p).second; }
    bats::Diagram<bats::Cover, std::vector<size_t>> D(N, es.size()); for (size_t i = 0; i < N; ++i) { bats::Cover c; s.note << " " << i << ":"; for (auto& x : U[i]) { s.note << pbt::show(std::vector<size_t>(x.begin(), x.end())); c.emplace_back(x.begin(), x.end()); } D.set_node(i, c); } for (size_t j = 0; j < es.size(); ++j) { D.set_edge(j, es[j].a, es[j].b, es[j].f); s.note << " " << es[j].a << "->" << es[j].b << pbt::show(es[j].f); } s.note << " dmax" << dmax;
    Threads th(s); auto T = bats::Nerve(D, dmax); CHECK(T.nnode() == N && T.nedge() == es.size()); bool tri = false, col = false; Dag d; d.md = dmax; d.path = path;
    for (size_t i = 0; i < N; ++i) { std::map<Spx, double> want; size_t c = U[i].size(); Node nd; nd.n = c; for (size_t m = 1; m < ((size_t)1 << c); ++m) { Spx q; std::set<size_t> in; for (size_t x = 0; x < c; ++x) if (m >> x & 1) { std::set<size_t> t; if (q.empty()) t = U[i][x]; else for (auto p : in) if (U[i][x].count(p)) t.insert(p); in = t; q.push_back(x); } if (q.size() > dmax + 1 || (q.size() > 1 && in.empty())) continue; want[q] = 0; tri |= q.size() == 3; } sameCells(T.node[i], want, "nerve"); nd.cells.resize(dmax + 1); for (size_t k = 0; k <= dmax; ++k) for (size_t q = 0; q < T.node[i].ncells(k); ++q) nd.cells[k].push_back(T.node[i].get_simplex(k, q)); d.node.push_back(nd); }
    for (size_t j = 0; j < es.size(); ++j) { CHECK(T.edge_source(j) == es[j].a && T.edge_target(j) == es[j].b); sameMap(T.edata[j], T.node[es[j].a], T.node[es[j].b], es[j].f, "nerve map"); std::set<size_t> im(es[j].f.begin(), es[j].f.end()); col |= im.size() < es[j].f.size(); } d.edge = es; s.nontrivial(tri && col); if (path && N > 1) withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; checkFunctors<P>(s, d, T); }); s.nontrivial(tri && col);
}
static SetD setDiagram(Src& s, std::vector<std::set<size_t>>& S, bool uni) { return uni ? bats::linear_subset_union_diagram(S) : bats::linear_cover_intersection_diagram(S); }
static std::vector<std::set<size_t>> genSets(Src& s, size_t n, size_t k) { std::vector<std::set<size_t>> S(k); for (auto& x : S) { int m = s.draw(3); for (size_t i = 0; i < n; ++i) if (s.coin(m == 0 ? 1 : 2, 3)) x.insert(i); s.note << pbt::show(std::vector<size_t>(x.begin(), x.end())); } return S; }
static void checkSetDiagram(const SetD& D, const std::vector<std::set<size_t>>& S, bool uni) {
    size_t N = S.empty() ? 0 : 2 * S.size() - 1; CHECK(D.nnode() == N); CHECK(D.nedge() == (N ? N - 1 : 0)); for (size_t i = 0; i < N; ++i) { std::set<size_t> w; if (i % 2 == 0) w = S[i / 2]; else { for (auto x : S[i / 2]) if (uni || S[i / 2 + 1].count(x)) w.insert(x); if (uni) for (auto x : S[i / 2 + 1]) w.insert(x); } CHECKM(D.node[i] == w, "node " << i); }
    for (size_t j = 0; j + 1 < N; ++j) { size_t a = (j % 2 == 0) == uni ? j : j + 1, b = (j % 2 == 0) == uni ? j + 1 : j; CHECKM(D.edge_source(j) == a && D.edge_target(j) == b, "edge " << j << " goes from " << D.edge_source(j) << " to " << D.edge_target(j) << " expected " << a << " to " << b); std::vector<size_t> src(D.node[a].begin(), D.node[a].end()), tg(D.node[b].begin(), D.node[b].end()); CHECK(D.edata[j].size() == src.size()); for (size_t x = 0; x < src.size(); ++x) CHECKM(D.edata[j][x] < tg.size() && tg[D.edata[j][x]] == src[x], "inclusion of edge " << j); }
}
PROP(set_diagrams, "sequences of up to 6 subsets (empty, nested, equal, disjoint): union and intersection diagrams have the stated nodes, edge directions and inclusions; inclusion map of a subset into a superset; non-trivial: three subsets, none containing its neighbour", 15000, 150000) {
    size_t n = bigN(s, 0, 8, 40); auto S = genSets(s, n, bigN(s, 0, 6, 20)); bool uni = s.coin(); s.note << (uni ? " union" : " intersection"); auto D = setDiagram(s, S, uni); checkSetDiagram(D, S, uni); bool inc = false; for (size_t i = 0; i + 1 < S.size(); ++i) { inc |= std::includes(S[i].begin(), S[i].end(), S[i + 1].begin(), S[i + 1].end()) || std::includes(S[i + 1].begin(), S[i + 1].end(), S[i].begin(), S[i].end()); } s.nontrivial(S.size() >= 3 && !inc);
}
template <int P> void ripsZigzag(Src& s) {
    size_t n = bigN(s, 1, 7, 11), dim = s.range(1, 2), len = bigN(s, 1, 3, 7); auto p = genPts(s, n, dim); int mt = s.draw(2); auto S = genSets(s, n, len); bool uni = s.coin(), vec = s.coin(2, 3); size_t hdim = s.range(0, 1), dmax = hdim + 1; Pts D(n, std::vector<double>(n)); s.note << metricName(mt) << (uni ? " union" : " intersection") << " H" << hdim; withMetric(mt, [&](auto dist) {
        auto B = toBM(p, dim); bats::DataSet<double> X(B); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D[i][j] = dist(X[i], X[j]); auto SD = setDiagram(s, S, uni); size_t N = SD.nnode(); std::vector<double> r(N); double r0 = genRadius(s, D); for (size_t i = 0; i < N; ++i) r[i] = vec && i % 2 == 0 ? genRadius(s, D) : r0; if (vec) for (size_t i = 1; i < N; i += 2) { r[i] = uni ? std::max(r[i - 1], r[i + 1]) : std::min(r[i - 1], r[i + 1]); if (s.coin(1, 3)) r[i] += uni ? 0.25 : -0.25; } s.note << " r" << pbt::show(r);
        Threads th(s); double rm = *std::max_element(r.begin(), r.end()); auto all = cliques(D, rm, dmax); std::vector<Spx> v; for (auto& q : all) v.push_back(q.first); byDim(v); auto cells = cellsOf(v); Cx<P> C = cxOf<P>(v); cells.resize(dmax + 1); while (C.d.size() < dmax + 1) C.d.push_back(DM<P>(C.d.back().n, 0)); std::vector<Mask> ms; std::vector<bool> g; auto T = vec ? bats::Rips(SD, X, dist, r, dmax) : bats::Rips(SD, X, dist, r0, dmax); CHECK(T.nnode() == N && T.nedge() == SD.nedge());
        for (size_t i = 0; i < N; ++i) { std::map<Spx, double> want; std::map<size_t, size_t> loc; for (auto x : SD.node[i]) loc.insert({x, loc.size()}); Mask m; for (auto& c : cells) { m.emplace_back(); for (auto& q : c) { bool in = all[q] <= r[i] || q.size() == 1; for (auto x : q) in &= loc.count(x) > 0; m.back().push_back(in); if (in) { Spx t; for (auto x : q) t.push_back(loc[x]); want[t] = 0; } } } ms.push_back(m); sameCells(T.node[i], want, "Rips complex of node " + std::to_string(i)); }
        for (size_t j = 0; j + 1 < N; ++j) { g.push_back(SD.edge_target(j) == j + 1); CHECK(T.edge_source(j) == SD.edge_source(j) && T.edge_target(j) == SD.edge_target(j)); sameMap(T.edata[j], T.node[T.edge_source(j)], T.node[T.edge_target(j)], SD.edata[j], "Rips map"); } if (N < 2) return;
        auto want = subcomplexBars(C, ms, g, hdim); dropZero(want); auto CD = bats::Chain(T, orc::F<P>()); auto b1 = barCount(bats::barcode(bats::Hom(CD, hdim), hdim), hdim); CHECKM(b1 == want, "barcode of Hom of Rips is " << showB(b1) << " expected " << showB(want)); auto RH = bats::RipsHom(SD, X, dist, r, hdim, orc::F<P>()); for (size_t i = 0; i < N; ++i) { long e = 0; for (auto& q : want) if (q.first.first <= i && i <= q.first.second) e += q.second; CHECKM((long)RH.node[i] == e, "RipsHom: dimension of node " << i << " is " << RH.node[i] << " expected " << e); } auto b2 = barCount(bats::barcode(RH, hdim), hdim); CHECKM(b2 == want, "barcode of RipsHom is " << showB(b2) << " expected " << showB(want)); s.nontrivial(longBar(want, N) && N >= 3); if (hdim && longBar(want, N)) s.label("degree-1 bar over part of the zigzag");
        if (vec) { auto q = r; size_t j = s.range(0, N - 2); q[SD.edge_target(j)] = q[SD.edge_source(j)] - 0.5; CHECKM(pbt::throws([&] { bats::Rips(SD, X, dist, q, dmax); }), "no error for a radius that decreases along an edge"); CHECKM(pbt::throws([&] { bats::RipsHom(SD, X, dist, q, hdim, orc::F<P>()); }), "no error for a radius that decreases along an edge (RipsHom)"); } });
}
PROP(rips_zigzag, "point clouds, 1 to 3 subsets, union and intersection zigzags, one radius or one per node, three metrics, 1 to 4 threads: Rips complexes and inclusion maps at every node and edge; homology barcode of Rips functor and of RipsHom equal the dense zigzag decomposition of the subcomplexes; radii decreasing along an edge are an error; non-trivial: a bar covering more than one but not all nodes", 5000, 60000) { withFiniteField(s, [&](auto pc) { ripsZigzag<decltype(pc)::value>(s); }); }
PBT_MAIN("C29")
