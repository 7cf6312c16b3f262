// C11 unions, intersections, index lists, triangulated products, copies/moves/assignments
#include <memory>
#include <functional>
#include "oracle.hpp"
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC;
static std::vector<size_t> labels(Src& s, size_t n) { std::set<size_t> l; size_t mode = s.draw(1); while (l.size() < n) l.insert(mode == 0 ? l.size() : (size_t)s.range(0, 300)); return std::vector<size_t>(l.begin(), l.end()); }
static std::vector<Spx> gen(Src& s, const std::vector<size_t>& lab, size_t maxd, size_t tops) { auto v = genComplex(s, lab.size(), maxd, tops, s.coin()); for (auto& x : v) for (auto& y : x) y = lab[y]; return linearExtension(s, v); }
static SC build(const std::vector<Spx>& v) { SC x; for (auto& q : v) { Spx t = q; x.add(t); } return x; }
template <class X> std::set<Spx> setOf(const X& x, const char* w, size_t skip = 0) {
    (void)skip; std::set<Spx> r; size_t cnt = 0; for (size_t d = 0; d <= x.maxdim(); ++d) for (size_t i = 0; i < x.ncells(d); ++i) { Spx g = x.get_simplex(d, i); CHECKM(g.size() == d + 1 && std::is_sorted(g.begin(), g.end()), w << ": malformed " << pbt::show(g)); CHECKM(r.insert(g).second, w << ": " << pbt::show(g) << " twice"); CHECKM(x.find_idx(g) == i, w << ": index of " << pbt::show(g)); ++cnt; }
    CHECKM(x.ncells() == cnt, w << ": count"); for (auto& g : r) if (g.size() > 1) for (size_t t = 0; t < g.size(); ++t) { Spx f = g; f.erase(f.begin() + t); CHECKM(r.count(f), w << ": face missing of " << pbt::show(g)); }
    return r;
}
static std::string sh(const std::vector<Spx>& v) { std::ostringstream o; for (auto& x : v) o << pbt::show(x); return o.str(); }
static void facesOk(const SC& x, const char* w) { for (size_t d = 1; d <= x.maxdim(); ++d) for (size_t i = 0; i < x.ncells(d); ++i) { Spx g = x.get_simplex(d, i); std::vector<size_t> e, f(x.faces_begin(d, i), x.faces_end(d, i)); for (size_t t = 0; t <= d; ++t) { Spx q = g; q.erase(q.begin() + t); e.push_back(x.find_idx(q)); } std::sort(e.begin(), e.end()); CHECKM(f == e, w << ": faces of " << pbt::show(g)); } }
PROP(set_ops, "pairs of complexes (overlapping, nested, disjoint, empty, different dimensions) built in random orders: simplicial_union, union_add, intersection, get_indices vs std::set operations and unchanged inputs; non-trivial: both the overlap and the two differences are non-empty", 120000, 1500000) {
    size_t n = bigN(s, 1, 6, 12); auto lab = labels(s, n); auto a = gen(s, lab, 3, 5), b = gen(s, lab, 3, 5); if (s.coin(1, 4)) { b.clear(); size_t k = s.range(0, a.size()); b.assign(a.begin(), a.begin() + k); }
    s.note << "X=" << sh(a) << " Y=" << sh(b); SC X = build(a), Y = build(b); std::set<Spx> A(a.begin(), a.end()), B(b.begin(), b.end()); CHECK(setOf(X, "X") == A); CHECK(setOf(Y, "Y") == B);
    std::set<Spx> U = A, I; U.insert(B.begin(), B.end()); for (auto& q : A) if (B.count(q)) I.insert(q);
    SC u = simplicial_union(X, Y), i = intersection(X, Y); CHECKM(setOf(u, "union") == U, "simplicial_union"); facesOk(u, "union"); CHECKM(setOf(i, "intersection") == I, "intersection"); facesOk(i, "intersection");
    CHECKM(setOf(intersection(Y, X), "intersection") == I, "intersection the other way");
    { SC w = X; w.union_add(Y); CHECKM(setOf(w, "union_add") == U, "union_add"); facesOk(w, "union_add"); for (size_t d = 0; d <= X.maxdim(); ++d) for (size_t k = 0; k < X.ncells(d); ++k) CHECKM(w.get_simplex(d, k) == X.get_simplex(d, k), "union_add moved an existing simplex");
      auto idx = w.get_indices(Y); for (size_t d = 0; d <= w.maxdim(); ++d) { auto one = w.get_indices(Y, d); CHECK(d < idx.size() && idx[d] == one); size_t m = d <= Y.maxdim() ? Y.ncells(d) : 0; CHECKM(one.size() == m, "get_indices size"); for (size_t k = 0; k < m; ++k) CHECKM(w.get_simplex(d, one[k]) == Y.get_simplex(d, k), "get_indices entry"); } }
    // indices of simplices not in the complex are reported absent
    { for (size_t d = 0; d <= Y.maxdim(); ++d) { auto id = X.get_indices(Y, d); for (size_t k = 0; k < id.size(); ++k) CHECK(id[k] == (A.count(Y.get_simplex(d, k)) ? X.find_idx(Y.get_simplex(d, k)) : bats::NO_IND)); } }
    // extending the results afterwards keeps them consistent
    { Spx t; for (auto v : lab) if (t.size() < 3) t.push_back(v); auto e = closure({t}); i.add_recursive(t); auto I2 = I; I2.insert(e.begin(), e.end()); CHECK(setOf(i, "extended intersection") == I2); u.add_recursive(t); auto U2 = U; U2.insert(e.begin(), e.end()); CHECK(setOf(u, "extended union") == U2); }
    CHECK(setOf(X, "X") == A); CHECK(setOf(Y, "Y") == B); s.nontrivial(!I.empty() && I.size() < A.size() && I.size() < B.size());
}
PROP(product, "triangulated products of two small complexes, default and explicit vertex stride and dimension bound: exactly the chains of the product order over pairs of simplices within the bound; non-trivial: both factors have an edge", 20000, 200000) {
    size_t n = bigN(s, 1, 4, 6, 100), m = bigN(s, 1, 4, 6, 100); auto a = genComplex(s, n, 2, 3), b = genComplex(s, m, 2, 3); byDim(a); byDim(b); SC X = build(a), Y = build(b);
    size_t stride = n; int mode = s.draw(2); size_t md = X.maxdim() + Y.maxdim(); if (mode == 1) md = s.range(0, md); if (mode == 2) { md = s.range(0, md); stride = n + s.draw(2); }
    s.note << "X=" << sh(a) << " Y=" << sh(b) << " maxdim=" << md << " stride=" << stride << " mode=" << mode;
    SC XY = mode == 0 ? bats::TriangulatedProduct(X, Y) : mode == 1 ? bats::TriangulatedProduct(X, Y, md) : bats::TriangulatedProduct(X, Y, md, stride);
    // all chains in sigma x tau, for sigma, tau with dim sum <= md, projecting onto simplices of X and Y
    std::set<Spx> e; 
    for (auto& sg : a) for (auto& ta : b) if (sg.size() + ta.size() - 2 <= md) {
        std::vector<std::pair<size_t, size_t>> pts; for (size_t i = 0; i < sg.size(); ++i) for (size_t j = 0; j < ta.size(); ++j) pts.push_back({i, j});
        for (size_t msk = 1; msk < ((size_t)1 << pts.size()); ++msk) { std::vector<std::pair<size_t, size_t>> c; for (size_t k = 0; k < pts.size(); ++k) if (msk >> k & 1) c.push_back(pts[k]); bool ok = true; for (size_t k = 1; k < c.size() && ok; ++k) ok = c[k - 1].first <= c[k].first && c[k - 1].second <= c[k].second; if (!ok) continue; Spx q; for (auto& [i, j] : c) q.push_back(sg[i] + stride * ta[j]); std::sort(q.begin(), q.end()); e.insert(q); } }
    auto g = setOf(XY, "product"); CHECKM(g == e, "product has " << g.size() << " simplices, expected " << e.size()); facesOk(XY, "product"); s.nontrivial(X.maxdim() && Y.maxdim() && XY.maxdim() >= 2);
}
// copies, moves and assignments
template <class X, class Key> struct Slot { std::unique_ptr<X> x; std::vector<std::vector<Key>> m; bool dead = false; };
template <class X> void slots(Src& s, std::function<X()> fresh, std::function<bool(X&, std::vector<std::vector<Spx>>&)> mutate, std::function<void(const X&, const std::vector<std::vector<Spx>>&)> agree) {
    const int K = 3; std::vector<Slot<X, Spx>> a(K); for (auto& q : a) q.x.reset(new X(fresh())); long steps = s.sized(2, 16); int copies = 0, muts = 0; bool asgEmpty = false;
    for (long t = 0; t < steps; ++t) {
        int op = s.draw(8), i = s.range(0, K - 1), j = s.range(0, K - 1); s.note << " op" << op << ":" << i << "," << j; auto& A = a[i]; auto& B = a[j];
        if (op <= 3) { if (!A.dead) { mutate(*A.x, A.m); if (copies) ++muts; } }
        else if (B.dead) continue;
        else if (op == 4) { *A.x = *B.x; A.m = B.m; A.dead = B.dead; ++copies; if (B.m.empty()) asgEmpty = true; }
        else if (op == 5) { if (i == j) continue; *A.x = std::move(*B.x); A.m = B.m; A.dead = false; B.dead = true; B.m.clear(); ++copies; }
        else if (op == 6) { if (i == j) { X c(*B.x); agree(c, B.m); } else { A.x.reset(new X(*B.x)); A.m = B.m; A.dead = false; ++copies; } }
        else if (op == 7) { if (i == j) continue; A.x.reset(new X(std::move(*B.x))); A.m = B.m; A.dead = false; B.dead = true; B.m.clear(); ++copies; }
        else { *A.x = fresh(); A.m.clear(); A.dead = false; asgEmpty = true; }
        for (auto& q : a) if (!q.dead) agree(*q.x, q.m);
    }
    if (asgEmpty) s.label("assigned from empty"); s.nontrivial(copies >= 1 && muts >= 1);
}
typedef std::vector<std::vector<Spx>> MM;
template <class X, class Get> void agreeCells(const X& x, const MM& m, Get get) { for (size_t d = 0; d <= (size_t)x.maxdim(); ++d) { size_t e = d < m.size() ? m[d].size() : 0; CHECKM(x.ncells(d) == e, x.ncells(d) << " cells in dimension " << d << ", model " << e); for (size_t i = 0; i < e; ++i) { Spx g = get(x, d, i); CHECKM(g == m[d][i], "cell " << pbt::show(g) << ", model " << pbt::show(m[d][i])); CHECKM(x.find_idx(g) == i, "index of " << pbt::show(g)); } }
    for (size_t d = x.maxdim() + 1; d < m.size(); ++d) CHECKM(m[d].empty(), "dimension lost"); }
static bool inM(const MM& m, size_t d, const Spx& q) { return d < m.size() && std::find(m[d].begin(), m[d].end(), q) != m[d].end(); }
static void putM(MM& m, size_t d, const Spx& q) { if (m.size() <= d) m.resize(d + 1); m[d].push_back(q); }
PROP(copies, "histories over three slots of copy construction, move construction, copy and move assignment (also self and from/into empty) interleaved with additions, for simplicial, light, cubical and cell complexes; every live slot vs its own model after each step; non-trivial: a copy followed by an addition", 60000, 800000) {
    int kind = s.draw(3); s.note << "kind" << kind;
    if (kind == 0) slots<SC>(s, [] { return SC(); }, [&](SC& x, MM& m) { Spx q; size_t d = s.range(0, 3); auto p = s.perm(5); for (size_t i = 0; i <= d; ++i) q.push_back(p[i]); std::sort(q.begin(), q.end()); auto r = x.add_recursive(q); if (!inM(m, d, q)) for (auto& c : r) putM(m, c.dim, x.get_simplex(c.dim, c.ind)); CHECK(inM(m, d, q)); return true; },
        [&](const SC& x, const MM& m) { agreeCells(x, m, [](const SC& x, size_t d, size_t i) { return x.get_simplex(d, i); }); facesOk(x, "slot"); });
    else if (kind == 1) { typedef bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>> L; slots<L>(s, [] { return L(5, 3); }, [&](L& x, MM& m) { Spx q; size_t d = s.range(0, 3); auto p = s.perm(5); for (size_t i = 0; i <= d; ++i) q.push_back(p[i]); std::sort(q.begin(), q.end()); auto r = x.add_recursive(q); for (auto& c : r) putM(m, c.dim, x.get_simplex(c.dim, c.ind)); CHECK(inM(m, d, q)); return true; },
        [&](const L& x, const MM& m) { agreeCells(x, m, [](const L& x, size_t d, size_t i) { return x.get_simplex(d, i); }); }); }
    else if (kind == 2) { typedef bats::CubicalComplex C; slots<C>(s, [] { return C(2); }, [&](C& x, MM& m) { Spx q; size_t d = 0; for (int i = 0; i < 2; ++i) { size_t a = s.range(0, 2), l = s.coin(); q.push_back(a); q.push_back(a + l); d += l; } auto r = x.add_recursive(q); if (!inM(m, d, q)) for (auto& c : r) putM(m, c.dim, x.get_cube(c.dim, c.ind)); CHECK(inM(m, d, q)); return true; },
        [&](const C& x, const MM& m) { agreeCells(x, m, [](const C& x, size_t d, size_t i) { return x.get_cube(d, i); }); for (size_t d = 1; d <= 2; ++d) for (size_t i = 0; i < x.ncells(d); ++i) for (auto it = x.faces_begin(d, i); it != x.faces_end(d, i); ++it) CHECK(*it < x.ncells(d - 1)); }); }
    else { typedef bats::CellComplex C; slots<C>(s, [] { return C(); }, [&](C& x, MM& m) { // graph: Spx {} vertices, {a,b} edges
            size_t nv = m.empty() ? 0 : m[0].size(); if (nv < 2 || s.coin()) { if (s.coin()) { CHECKEQ(x.add_vertex(), nv); putM(m, 0, {nv}); } else { x.add_vertices(2); putM(m, 0, {nv}); putM(m, 0, {nv + 1}); } } else { size_t a = s.range(0, nv - 1), b = s.range(0, nv - 1); if (a == b) return true; std::vector<size_t> bd{std::min(a, b), std::max(a, b)}; std::vector<int> c{-1, 1}; x.add(bd, c, 1); putM(m, 1, bd); } return true; },
        [&](const C& x, const MM& m) { for (size_t d = 0; d < m.size(); ++d) CHECKEQ(x.ncells(d), m[d].size()); if (m.size() > 1) { auto B = x.boundary_csc(1); CHECK(B.nrow() == m[0].size() && B.ncol() == m[1].size()); for (size_t j = 0; j < m[1].size(); ++j) for (size_t i = 0; i < m[0].size(); ++i) { int e = i == m[1][j][0] ? -1 : i == m[1][j][1] ? 1 : 0; CHECKEQ(B.getval(i, j), e); } } }); }
}
PBT_MAIN("C11")
