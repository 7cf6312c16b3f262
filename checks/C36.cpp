// C36 Cell pairings stay matchings and apparent-pair compression never changes homology
#include "persgen.hpp"
#include <morse/pairing.hpp>
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::CubicalComplex CC; typedef std::pair<size_t, size_t> Cell;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using FC = bats::FilteredChainComplex<double, M<P>>; template <int P> using RF = bats::ReducedFilteredChainComplex<double, M<P>>;
// reference: the matching, and components of the vertices by pairs of a vertex and an edge
struct Model { std::vector<std::vector<size_t>> up, down; std::vector<std::vector<long>> mate; std::vector<size_t> par;   // mate -1 none, -2 paired
    void size(size_t d, size_t n) { while (mate.size() <= d) mate.emplace_back(); while (up.size() < mate.size()) { up.emplace_back(); down.emplace_back(); } if (mate[d].size() < n) mate[d].resize(n, -1); if (d == 0) while (par.size() < n) par.push_back(par.size()); }
    bool pair(size_t d, size_t i, size_t j) { if (mate[d][i] != -1 || mate[d + 1][j] != -1) return false; mate[d][i] = mate[d + 1][j] = -2; up[d].push_back(i); down[d].push_back(j); return true; }
    size_t root(size_t i) { while (par[i] != i) i = par[i]; return i; }
    bool edge(size_t i, size_t j, size_t e, const std::vector<double>* rank) { i = root(i); j = root(j); if (i == j) return false; auto older = [&](size_t a, size_t b) { return rank ? std::make_pair((*rank)[a], a) < std::make_pair((*rank)[b], b) : a < b; }; if (!older(i, j)) std::swap(i, j); if (!pair(0, j, e)) return false; par[j] = i; return true; }
    void clear() { for (auto& m : mate) for (auto& x : m) x = -1; for (auto& u : up) u.clear(); for (auto& d : down) d.clear(); for (size_t i = 0; i < par.size(); ++i) par[i] = i; } };
template <class MP> void same(const MP& m, const Model& r, const std::string& w) {
    CHECKM(m.maxdim() + 1 >= r.mate.size(), w << ": maxdim " << m.maxdim()); for (size_t d = 0; d < r.mate.size(); ++d) { CHECKM(m.size(d) == r.mate[d].size() && m.ncells(d) == r.mate[d].size(), w << ": " << m.size(d) << " cells in dimension " << d << " expected " << r.mate[d].size()); std::vector<size_t> un; for (size_t i = 0; i < r.mate[d].size(); ++i) { CHECKM(m.is_paired(d, i) == (r.mate[d][i] != -1), w << ": cell " << i << " of dimension " << d << (m.is_paired(d, i) ? " is" : " is not") << " paired"); if (r.mate[d][i] == -1) un.push_back(i); } CHECKM(m.unpaired(d) == un, w << ": unpaired cells of dimension " << d << " are " << pbt::show(m.unpaired(d)) << " expected " << pbt::show(un));
        if (d + 1 < r.mate.size()) { CHECKM(m.up_paired(d) == r.up[d] && m.down_paired(d + 1) == r.down[d], w << ": pairs in dimension " << d << " are " << pbt::show(m.up_paired(d)) << pbt::show(m.down_paired(d + 1)) << " expected " << pbt::show(r.up[d]) << pbt::show(r.down[d])); std::set<size_t> a(r.up[d].begin(), r.up[d].end()), b(r.down[d].begin(), r.down[d].end()); if (a.size() != r.up[d].size() || b.size() != r.down[d].size()) PBT_FAIL("oracle: cell in two pairs"); } }
}
static std::vector<double> genRank(Src& s, size_t n) { std::vector<double> r; for (size_t i = 0; i < n; ++i) r.push_back((double)s.range(-3, 3) / 2); return r; }
// operations on a complex of a fixed size without an underlying complex
PROP(set_pair_histories, "pairings of up to 7 cells in each of 2 to 4 dimensions, histories of up to 25 pairings of arbitrary cells, vertex-edge pairings with and without ranks, clears and copies: returned success, pairs in both directions, paired flags and unpaired cells equal a reference matching; non-trivial: a refused pairing and pairs in two dimensions or after a clear", 25000, 400000) {
    size_t D = s.range(1, 3); std::vector<size_t> n; for (size_t d = 0; d <= D; ++d) n.push_back(s.range(1, 7)); MorsePairing<SC> m(n); Model r; for (size_t d = 0; d <= D; ++d) r.size(d, n[d]); std::vector<double> rank; if (s.coin()) rank = genRank(s, n[0]); s.note << "cells " << pbt::show(n) << " ranks " << pbt::show(rank); size_t ops = s.sized(1, 25); bool refused = false, cleared = false;
    for (size_t k = 0; k < ops; ++k) { int op = s.draw(11); if (op < 6) { size_t d = s.range(0, D - 1), i = s.range(0, n[d] - 1), j = s.range(0, n[d + 1] - 1); s.note << " pair" << d << "(" << i << "," << j << ")"; bool w = r.pair(d, i, j), g = m.set_pair(d, i, j); refused |= !w; CHECKM(g == w, "set_pair returned " << g); } else if (op < 10) { size_t i = s.range(0, n[0] - 1), j = s.range(0, n[0] - 1), e = s.range(0, n[1] - 1); s.note << " edge(" << i << "," << j << "," << e << ")"; bool w = r.edge(i, j, e, rank.empty() ? nullptr : &rank), g = rank.empty() ? m.set_pair_edge(i, j, e) : m.set_pair_edge(i, j, e, rank); refused |= !w && i != j; CHECKM(g == w, "set_pair_edge returned " << g); } else if (op == 10) { s.note << " clear"; m.clear(); r.clear(); cleared = true; } else { MorsePairing<SC> c(m); same(c, r, "copy"); if (s.coin()) m = c; } same(m, r, "history"); }
    size_t dims = 0; for (auto& u : r.up) dims += !u.empty(); s.nontrivial(refused && (dims > 1 || (cleared && dims))); if (cleared && dims) s.label("pairs after a clear");
}
// a complex grown through the pairing
template <class X, class Add> void grow(Src& s, X& x, MorsePairing<X>& m, Model& r, const std::vector<std::vector<size_t>>& cells, size_t md, Add present, bool& nt) {
    for (auto& q : cells) { bool p = s.coin(3, 4); auto c = q; s.note << (p ? " +" : " ") << pbt::show(q); auto before = r; bool had = present(q); auto ret = p ? m.add_pair(c) : m.add(c); CHECKM(ret.dim == present.dim(q), "dimension of the added cell"); if (ret.ind == bats::NO_IND) { r.size(ret.dim, 0); same(m, r, "after a cell with a missing face"); s.label("missing face"); continue; } CHECKM(ret.ind < x.ncells(ret.dim), "index of the added cell"); r.size(ret.dim, ret.ind + 1); if (had) s.label("cell added again");
        if (p && ret.dim > 0 && r.mate[ret.dim][ret.ind] == -1) { std::vector<size_t> f(x.faces_begin(ret.dim, ret.ind), x.faces_end(ret.dim, ret.ind)); if (ret.dim == 1) { bool ok = r.edge(f[0], f[1], ret.ind, nullptr); (void)ok; } else { bool free = false; for (auto i : f) free |= r.mate[ret.dim - 1][i] == -1; if (free) { CHECKM(m.up_paired(ret.dim - 1).size() == r.up[ret.dim - 1].size() + 1 && m.down_paired(ret.dim).back() == ret.ind, "no pair although a face was unpaired"); size_t i = m.up_paired(ret.dim - 1).back(); CHECKM(std::count(f.begin(), f.end(), i) && r.mate[ret.dim - 1][i] == -1, "paired with cell " << i << " which is " << (std::count(f.begin(), f.end(), i) ? "already paired" : "not a face")); r.pair(ret.dim - 1, i, ret.ind); nt = true; } } }
        same(m, r, "after adding"); for (size_t d = 0; d < r.mate.size(); ++d) CHECKM(r.mate[d].size() == x.ncells(d), "pairing knows " << r.mate[d].size() << " cells of dimension " << d << " of " << x.ncells(d)); }
}
struct SPres { SC* x; size_t dim(const std::vector<size_t>& q) const { return q.size() - 1; } bool operator()(const std::vector<size_t>& q) const { auto t = q; std::sort(t.begin(), t.end()); return x->find_idx(t) != bats::NO_IND; } };
struct CPres { CC* x; size_t dim(const std::vector<size_t>& q) const { size_t d = 0; for (size_t i = 0; i < q.size(); i += 2) d += q[i] != q[i + 1]; return d; } bool operator()(const std::vector<size_t>& q) const { return x->find_idx(q) != bats::NO_IND; } };
template <class X> void startModel(const X& x, Model& r) { for (size_t d = 0; d <= x.maxdim(); ++d) r.size(d, x.ncells(d)); }
PROP(grown_simplicial, "simplicial complexes partly built first and partly grown through the pairing (cells repeated, given unsorted or with a missing face), some cells paired as they are added: every complex cell is known, a cell is paired with one of its unpaired faces whenever it has one, edges by the elder rule; non-trivial: a pair above dimension 1", 15000, 200000) {
    size_t n = s.sized(2, 6); auto v = linearExtension(s, genComplex(s, n, 3, 5)); size_t pre = s.coin() ? 0 : s.range(0, v.size()); bool cap = s.coin(); SC x = cap ? SC(n, 6) : SC(); for (size_t i = 0; i < pre; ++i) x.add(v[i]); s.note << "first " << pre << " of " << v.size() << (cap ? " reserved" : ""); MorsePairing<SC> m(x); Model r; startModel(x, r); same(m, r, "new pairing"); std::vector<std::vector<size_t>> cells; for (size_t i = pre; i < v.size(); ++i) { if (s.coin(1, 12)) continue; std::vector<size_t> q(v[i].begin(), v[i].end()); if (s.coin(1, 4)) std::reverse(q.begin(), q.end()); cells.push_back(q); if (s.coin(1, 6)) { auto& w = v[s.range(0, i)]; cells.push_back(std::vector<size_t>(w.begin(), w.end())); } } bool nt = false; grow(s, x, m, r, cells, 6, SPres{&x}, nt); s.nontrivial(nt);
}
PROP(grown_cubical, "as above for cubical complexes in 2 or 3 dimensions; non-trivial: as above", 10000, 120000) {
    size_t D = s.range(2, 3); CC x(D); std::set<std::vector<size_t>> all; size_t tops = s.range(1, 4); for (size_t t = 0; t < tops; ++t) { std::vector<size_t> c; for (size_t i = 0; i < D; ++i) { size_t a = s.range(0, 2); c.push_back(a); c.push_back(s.coin(1, 5) ? a : a + 1); } std::vector<std::vector<size_t>> st{c}; while (!st.empty()) { auto q = st.back(); st.pop_back(); if (!all.insert(q).second) continue; for (size_t i = 0; i < D; ++i) if (q[2 * i] != q[2 * i + 1]) { auto f = q; f[2 * i] = q[2 * i + 1]; st.push_back(f); f = q; f[2 * i + 1] = q[2 * i]; st.push_back(f); } } } CPres pr{&x}; std::vector<std::vector<size_t>> v(all.begin(), all.end()), w; for (auto i : s.perm(v.size())) w.push_back(v[i]); std::stable_sort(w.begin(), w.end(), [&](const auto& a, const auto& b) { return pr.dim(a) < pr.dim(b); }); size_t pre = s.coin() ? 0 : s.range(0, w.size()); for (size_t i = 0; i < pre; ++i) x.add(w[i]); s.note << "first " << pre << " of " << w.size(); MorsePairing<CC> m(x); Model r; startModel(x, r); same(m, r, "new pairing"); std::vector<std::vector<size_t>> cells; for (size_t i = pre; i < w.size(); ++i) { if (s.coin(1, 20)) continue; cells.push_back(w[i]); if (s.coin(1, 8)) cells.push_back(w[s.range(0, i)]); } bool nt = false; grow(s, x, m, r, cells, D, pr, nt); s.nontrivial(nt);
}
PROP(components, "graphs of up to 10 vertices (parallel edges, loops), vertices ranked or not, edges in any order: pairs of vertices and edges are the degree-0 persistence pairs of an independent reduction and the unpaired vertices the eldest of each component; non-trivial: two components, one of at least 3 vertices", 15000, 200000) {
    size_t n = s.range(1, 10), ne = s.sized(0, 14); MorsePairing<SC> m(std::vector<size_t>{n, ne}); std::vector<double> rank = genRank(s, n); bool ranked = s.coin(); if (!ranked) for (auto& x : rank) x = 0; std::vector<size_t> ord; for (size_t i = 0; i < n; ++i) ord.push_back(i); std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return rank[a] < rank[b]; }); std::vector<size_t> pos(n); for (size_t i = 0; i < n; ++i) pos[ord[i]] = i; auto names = s.perm(ne); s.note << n << " vertices ranks " << pbt::show(rank);
    std::map<size_t, std::pair<std::set<size_t>, size_t>> low; std::set<Cell> want; std::vector<std::pair<size_t, size_t>> es; for (size_t k = 0; k < ne; ++k) { size_t a = s.range(0, n - 1), b = s.range(0, n - 1); es.push_back({a, b}); s.note << " " << a << "-" << b; std::set<size_t> c; if (a != b) c = {pos[a], pos[b]}; while (!c.empty()) { auto it = low.find(*c.rbegin()); if (it == low.end()) break; for (auto x : it->second.first) if (!c.erase(x)) c.insert(x); } bool w = !c.empty(); if (w) { low[*c.rbegin()] = {c, names[k]}; want.insert({ord[*c.rbegin()], names[k]}); } bool g = ranked ? m.set_pair_edge(a, b, names[k], rank) : m.set_pair_edge(a, b, names[k]); CHECKM(g == w, "edge " << k << (g ? " was" : " was not") << " paired"); }
    std::set<Cell> got; for (size_t k = 0; k < m.up_paired(0).size(); ++k) got.insert({m.up_paired(0)[k], m.down_paired(1)[k]}); CHECKM(got == want, "pairs " << pbt::show(std::vector<Cell>(got.begin(), got.end())) << " expected " << pbt::show(std::vector<Cell>(want.begin(), want.end()))); CHECK(m.unpaired(0).size() + want.size() == n && m.unpaired(1).size() + want.size() == ne); s.nontrivial(n >= want.size() + 2 && want.size() >= 2);
}
// three terms with long, dense columns whose leading entries differ
template <int P> CH<P> wide(Src& s) { size_t n0 = s.range(10, 30), n1 = s.range(4, 24), n2 = s.range(1, 8); DM<P> a = genMat<P>(s, n0, n1); for (size_t j = 0; j < n1; ++j) { size_t c = s.range(0, n0 / 2); for (size_t i = n0 - c; i < n0; ++i) a(i, j) = Z<P>(0); } DM<P> N = a.null(), b = N.n ? N * genMat<P>(s, N.n, n2) : DM<P>(n1, n2); s.note << a << b; return CH<P>(std::vector<M<P>>{toMat<P>(DM<P>(1, n0)), toMat<P>(a), toMat<P>(b)}); }
template <int P> void sameBoundary(const CH<P>& C, const CH<P>& D) { for (size_t k = 0; k <= C.maxdim(); ++k) { auto a = matOf<P>(C.boundary[k], "original"), b = matOf<P>(D.boundary[k], "compressed"); CHECKM(a.m == b.m && a.n == b.n, "shape of boundary " << k << " changed"); for (size_t i = 0; i < a.m; ++i) for (size_t j = 0; j < a.n; ++j) CHECKM(b(i, j).zero() || b(i, j) == a(i, j), "entry (" << i << "," << j << ") of boundary " << k << " changed to " << b(i, j)); } }
PROP(apparent_pairs_betti, "chain complexes of all kinds (simplicial, light, cubical, cell, relative, tensor products, random matrices) over every field, compressed by apparent pairs: entries only removed, Betti numbers and pivots under all 19 reduction options as without compression; non-trivial: entries were removed and some Betti number is positive above degree 0 or two boundaries have rank 2", 8000, 100000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; CH<P> C = P && s.coin(1, 12) ? wide<P>(s) : genChain<P>(s), D = C; D.clear_compress_apparent_pairs(); sameBoundary<P>(C, D); bats::ReducedChainComplex<M<P>> R0(C); bool removed = false; for (size_t k = 0; k <= C.maxdim(); ++k) removed |= !(matOf<P>(C.boundary[k], "") == matOf<P>(D.boundary[k], "")); std::vector<size_t> n; std::vector<DM<P>> d; for (size_t k = 0; k <= C.maxdim(); ++k) { d.push_back(matOf<P>(C.boundary[k], "")); n.push_back(C.dim(k)); } auto e = bettiOf<P>(d, n);
        for (int o = 0; o < 19; ++o) { auto R = withFlags(o, [&](auto... a) { return bats::ReducedChainComplex<M<P>>(D, a...); }); for (size_t k = 0; k <= C.maxdim(); ++k) { CHECKM((long)R.hdim(k) == e[k], optName19(o) << ": Betti number " << k << " is " << R.hdim(k) << " after compression, expected " << e[k]); CHECKM(R.p2c[k] == R0.p2c[k] && R.I[k] == R0.I[k], optName19(o) << ": pivots in degree " << k << " are " << pbt::show(std::vector<size_t>(R.p2c[k].begin(), R.p2c[k].end())) << pbt::show(R.I[k]) << " expected " << pbt::show(std::vector<size_t>(R0.p2c[k].begin(), R0.p2c[k].end())) << pbt::show(R0.I[k])); } } bool pos = false; for (size_t k = 1; k < e.size(); ++k) pos |= e[k] > 0; size_t rk = 0; for (auto& q : d) rk += q.rank() >= 2; s.nontrivial(removed && (pos || rk >= 2)); });
}
PROP(apparent_pairs_persistence, "filtrations (ties, any cell order) of simplicial, light, cubical and cell complexes over every field, compressed by apparent pairs after sorting: pairing and barcode under all 19 options equal an independent reduction; non-trivial: a finite bar of positive length above degree 0", 6000, 80000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withComplex(s, [&](auto X) { auto vals = genVals(s, facesOf(X)); s.note << showVals(vals); auto F = bats::Filtration(X, vals); auto ref = refBars<P>(cxOf<P>(CH<P>(X)), vals); auto want = refPairs(ref); FC<P> C(F); auto before = C.C; C.C.clear_compress_apparent_pairs(); sameBoundary<P>(before, C.C); for (int o = 0; o < 19; ++o) { auto R = withFlags(o, [&](auto... a) { return RF<P>(C, a...); }); auto got = pairsOf(R, vals, optName19(o)); CHECKM(got == want, optName19(o) << ": pairing after compression\n  got  " << showPairs(got) << "\n  want " << showPairs(want)); } s.nontrivial(hasFinite(canon(ref))); }); });
}
PBT_MAIN("C36")
