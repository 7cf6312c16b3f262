// C09 simplicial complexes (trie-based and light) against a set model
#include "oracle.hpp"
using pbt::Src; using namespace orc;
struct Model {
    Cells c; std::map<Spx, size_t> id;
    bool has(const Spx& s) const { return id.count(s); }
    bool facesIn(const Spx& s) const { if (s.size() < 2) return true; for (size_t t = 0; t < s.size(); ++t) { Spx f = s; f.erase(f.begin() + t); if (!has(f)) return false; } return true; }
    size_t count(size_t d) const { return d < c.size() ? c[d].size() : 0; }
    void put(const Spx& s) { size_t d = s.size() - 1; if (c.size() <= d) c.resize(d + 1); id[s] = c[d].size(); c[d].push_back(s); }
};
template <class X> void agree(const X& x, const Model& m, size_t maxd, const std::vector<Spx>& probes, const char* w) {
    size_t tot = 0; std::vector<Spx> all;
    for (size_t d = 0; d <= maxd; ++d) {
        size_t n = d <= x.maxdim() ? x.ncells(d) : 0; CHECKM(n == m.count(d), w << ": " << n << " cells of dimension " << d << ", model " << m.count(d)); tot += n;
        for (size_t i = 0; i < n; ++i) {
            Spx g = x.get_simplex(d, i); CHECKM(g == m.c[d][i], w << ": simplex " << d << "/" << i << " is " << pbt::show(g) << ", model " << pbt::show(m.c[d][i]));
            Spx g2{99}; x.get_simplex(d, i, g2); CHECKM(g2 == g, w << ": get_simplex into a vector"); CHECKM(x.get_cell(d, i) == g, w << ": get_cell"); CHECKM(x.find_idx(g) == i, w << ": find_idx(" << pbt::show(g) << ") = " << x.find_idx(g)); all.push_back(g);
        }
        if (d <= x.maxdim()) { auto l = x.get_simplices(d); std::vector<Spx> e; if (d < m.c.size()) e = m.c[d]; CHECKM(l == e, w << ": get_simplices(" << d << ")"); }
    }
    CHECKM(x.ncells() == tot, w << ": total " << x.ncells()); CHECKM(x.get_simplices() == all, w << ": get_simplices()");
    for (auto& p : probes) { size_t i = x.find_idx(p); if (m.has(p)) CHECKM(i == m.id.at(p), w << ": find_idx"); else CHECKM(i == bats::NO_IND, w << ": find_idx of absent " << pbt::show(p) << " is " << i); }
}
static void checkFaces(const bats::SimplicialComplex& x, const Model& m) {
    const bats::SimplicialComplex& cx = x;
    for (size_t d = 0; d < m.c.size(); ++d) for (size_t i = 0; i < m.c[d].size(); ++i) {
        Spx g(cx.simplex_begin(d, i), cx.simplex_end(d, i)); CHECKM(g == m.c[d][i], "simplex_begin/end");
        if (d) { std::vector<size_t> e, f(cx.faces_begin(d, i), cx.faces_end(d, i)), f2(cx.faces_begin(cell_ind(d, i)), cx.faces_end(cell_ind(d, i))); for (size_t t = 0; t <= d; ++t) { Spx q = g; q.erase(q.begin() + t); e.push_back(m.id.at(q)); }
            std::sort(e.begin(), e.end()); CHECKM(f == e && f2 == e, "faces of " << pbt::show(g) << ": " << pbt::show(f) << " expected " << pbt::show(e));
            auto [bi, bv] = x.boundary(d, i); CHECKM(bi == e && bv.size() == e.size(), "boundary() faces"); }
    }
}
static std::vector<size_t> labels(Src& s, size_t n) {
    std::set<size_t> l; size_t mode = s.coin(1, 12) ? 3 : s.draw(2), step = mode == 3 ? s.pick(std::vector<size_t>{256, 65536, (size_t)1 << 32}) : 1; /* labels that agree in their low bits */ while (l.size() < n) l.insert(mode == 0 ? l.size() : mode == 1 ? (size_t)s.range(0, 40) : mode == 2 ? (size_t)s.range(0, 9000) : (size_t)s.range(0, 2) + step * (size_t)s.range(0, 9)); return std::vector<size_t>(l.begin(), l.end());
}
static Spx genSpx(Src& s, const std::vector<size_t>& lab, size_t maxd) { size_t d = maxd > 5 && s.coin() ? maxd : s.range(0, (long)std::min(maxd, lab.size() - 1)); auto p = s.perm(lab.size()); Spx r; for (size_t i = 0; i <= d; ++i) r.push_back(lab[p[i]]); std::sort(r.begin(), r.end()); return r; }
static Spx shuffled(Src& s, const Spx& v) { auto p = s.perm(v.size()); Spx r; for (auto i : p) r.push_back(v[i]); return r; }
// returned list of new cells: exactly the missing faces and the simplex itself, numbered consecutively, simplex last
template <class X> void applyRec(const X& x, const std::vector<cell_ind>& r, Model& m, const Spx& v, const char* w) {
    std::set<Spx> miss; for (auto& f : closure({v})) if (!m.has(f)) miss.insert(f);
    CHECKM(r.size() == miss.size(), w << ": " << r.size() << " new cells reported for " << pbt::show(v) << ", expected " << miss.size());
    CHECKM(r.back().dim == v.size() - 1 && r.back().ind == m.count(v.size() - 1), w << ": the last reported cell is not the simplex");
    std::map<size_t, std::map<size_t, Spx>> got; for (auto& c : r) { CHECKM(c.dim <= x.maxdim() && c.ind < x.ncells(c.dim), w << ": reported cell does not exist"); Spx g = x.get_simplex(c.dim, c.ind); CHECKM(miss.erase(g), w << ": reported cell " << pbt::show(g) << " is not new"); got[c.dim][c.ind] = g; }
    for (auto& [d, q] : got) for (auto& [i, g] : q) { CHECKM(i == m.count(d), w << ": index " << i << " given to a new cell of dimension " << d); m.put(g); }
}
PROP(checked_history, "histories of add (any vertex order, lvalue and rvalue, missing faces), add_recursive, add_directed and duplicates on SimplicialComplex with small or large vertex labels; after every step all cells, indices, faces, lookups and counts vs a set model; non-trivial: at least one refused add or recursive add with missing faces and a simplex of dimension >= 2", 120000, 1500000) {
    size_t n = bigN(s, 1, 7, 16); auto lab = labels(s, n); size_t maxd = std::min<size_t>(s.sized(1, 4), n - 1); bool high = s.coin(1, 3000); if (high) { n = s.range(8, 11); lab = labels(s, n); maxd = n - 1; }
    bats::SimplicialComplex x = s.coin() ? bats::SimplicialComplex() : s.coin() ? bats::SimplicialComplex(s.range(0, 3)) : s.coin() ? bats::SimplicialComplex(n, maxd) : bats::SimplicialComplex(std::vector<size_t>{n, 2, 1});
    Model m; long steps = high ? s.range(1, 3) : s.sized(1, 14); bool refused = false, rec = false, big = false; std::vector<Spx> probes;
    for (long t = 0; t < steps; ++t) {
        Spx v = genSpx(s, lab, maxd); if (!probes.empty() && s.coin(1, 5)) v = s.pick(probes); probes.push_back(v); Spx w = shuffled(s, v); int op = s.draw(5); size_t d = v.size() - 1; s.note << " op" << op << pbt::show(w);
        bool had = m.has(v), ok = m.facesIn(v); cell_ind e(d, had ? m.id[v] : ok ? m.count(d) : bats::NO_IND);
        if (op <= 2) { cell_ind r = op == 0 ? x.add(w) : op == 1 ? x.add(Spx(w)) : x.add_directed(v); CHECKM(r.dim == e.dim && r.ind == e.ind, "add returned (" << r.dim << "," << r.ind << "), expected (" << e.dim << "," << e.ind << ")"); if (!had && ok) m.put(v); if (!ok && !had) refused = true; }
        else { auto r = op == 3 ? x.add_recursive(w) : op == 4 ? x.add_recursive(Spx(w)) : x.add_directed_recursive(v);
            if (had) CHECKM(r.size() == 1 && r[0].dim == d && r[0].ind == m.id[v], "add_recursive of a present simplex"); else { if (!ok) rec = true; applyRec(x, r, m, v, "add_recursive"); } }
        if (m.count(2)) big = true; agree(x, m, maxd, probes, "checked"); checkFaces(x, m);
    }
    if (refused) s.label("refused"); if (rec) s.label("recursive"); s.nontrivial((refused || rec) && big);
}
template <class L> void light(Src& s) {
    size_t n = bigN(s, 1, 7, 16); auto lab = labels(s, n); size_t maxd = s.sized(0, std::min<long>(4, (long)n - 1)); bool high = s.coin(1, 3000); if (high) { n = s.range(8, 11); lab.clear(); for (size_t i = 0; i < n; ++i) lab.push_back(i + (i == n - 1 ? s.draw(2) : 0)); maxd = n - 1; } 
    size_t N = lab.back() + 1 + s.draw(2); size_t K = maxd; { double r = 1; for (size_t i = 0; i <= maxd; ++i) r *= (double)N; if (r > 1e18) throw pbt::Discard{}; if (r * N < 1e18) K += s.draw(1); }
    L x(N, K), y; bool copied = false; Model m; long steps = high ? s.range(1, 3) : s.sized(1, 14); bool rec = false, dup = false; std::vector<Spx> probes; s.note << "n=" << N << " k=" << K;
    for (long t = 0; t < steps; ++t) {
        Spx v = genSpx(s, lab, maxd); if (!probes.empty() && s.coin(1, 5)) v = s.pick(probes); probes.push_back(v); int op = s.draw(3); size_t d = v.size() - 1; s.note << " op" << op << pbt::show(v);
        bool had = m.has(v), ok = m.facesIn(v); if (op <= 1 && !ok) op = 2;
        if (op == 0 || (op == 1 && had)) { auto r = x.add(v); CHECKM(r.dim == d && r.ind == (had ? m.id[v] : m.count(d)), "add returned (" << r.dim << "," << r.ind << ")"); if (had) dup = true; else m.put(v); }
        else if (op == 1) { auto r = x.add_unsafe(v); CHECKM(r.dim == d && r.ind == m.count(d), "add_unsafe"); m.put(v); }
        else { auto r = x.add_recursive(v); if (had) { CHECKM(r.size() == 0, "add_recursive of a present simplex reports new cells"); dup = true; } else { if (!ok) rec = true; applyRec(x, r, m, v, "add_recursive"); } }
        CHECKEQ(x.maxdim(), K); agree(x, m, maxd, probes, "light");
        for (size_t q = 1; q < m.c.size(); ++q) for (size_t i = 0; i < m.c[q].size(); ++i) { Spx g = m.c[q][i]; std::vector<size_t> e; for (size_t r = 0; r <= q; ++r) { Spx f = g; f.erase(f.begin() + r); e.push_back(m.id.at(f)); } std::sort(e.begin(), e.end()); auto [bi, bv] = x.boundary(q, i); CHECKM(bi == e && bv.size() == e.size(), "boundary faces of " << pbt::show(g) << ": " << pbt::show(bi));
            // walking the boundary iterator visits the keys of all faces
            std::multiset<size_t> keys, ek; for (auto it = x.simplex_begin(q, i); it != x.simplex_end(q, i); ++it) keys.insert(*it); for (size_t r = 0; r <= q; ++r) { Spx f = g; f.erase(f.begin() + r); ek.insert(x.simplex_key(f)); } CHECKM(keys == ek, "iterated face keys"); }
        if (s.coin(1, 6)) { y = x; L z(y); x = std::move(z); copied = true; }
    }
    (void)copied; if (dup) s.label("duplicate"); s.nontrivial(rec && m.count(2) > 0);
}
PROP(light_history, "histories of add / add_unsafe (faces present), add_recursive and duplicates on LightSimplicialComplex, with copies and moves in between; all cells, keys, faces and lookups vs a set model; non-trivial: a recursive add with missing faces and a simplex of dimension >= 2", 120000, 1500000) {
    if (s.coin(2, 3)) light<bats::LightSimplicialComplex<size_t, std::unordered_map<size_t, size_t>>>(s); else light<bats::LightSimplicialComplex<size_t, std::map<size_t, size_t>>>(s);
}
PBT_MAIN("C09")
