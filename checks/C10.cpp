// C10 cubical complexes against a set model
#include "oracle.hpp"
using pbt::Src; using namespace orc;
typedef std::vector<size_t> Cube; // 2*D numbers
static size_t cdim(const Cube& c) { size_t d = 0; for (size_t i = 0; i < c.size(); i += 2) d += c[i + 1] != c[i]; return d; }
static std::vector<Cube> facets(const Cube& c) { std::vector<Cube> r; for (size_t i = 0; i < c.size(); i += 2) if (c[i] != c[i + 1]) { Cube f = c; f[i] = c[i + 1]; r.push_back(f); f = c; f[i + 1] = c[i]; r.push_back(f); } return r; }
static void close(const Cube& c, std::set<Cube>& out) { if (!out.insert(c).second) return; for (auto& f : facets(c)) close(f, out); }
struct Model {
    std::vector<std::vector<Cube>> c; std::map<Cube, size_t> id;
    bool has(const Cube& s) const { return id.count(s); }
    bool facesIn(const Cube& s) const { for (auto& f : facets(s)) if (!has(f)) return false; return true; }
    size_t count(size_t d) const { return d < c.size() ? c[d].size() : 0; }
    void put(const Cube& s) { size_t d = cdim(s); if (c.size() <= d) c.resize(d + 1); id[s] = c[d].size(); c[d].push_back(s); }
};
static void agree(const bats::CubicalComplex& x, const Model& m, size_t D, const std::vector<Cube>& probes, const char* w) {
    CHECKM(x.maxdim() == D, w << ": maxdim " << x.maxdim()); size_t tot = 0; std::vector<Cube> all;
    for (size_t d = 0; d <= D; ++d) {
        CHECKM(x.ncells(d) == m.count(d), w << ": " << x.ncells(d) << " cells of dimension " << d << ", model " << m.count(d)); tot += x.ncells(d); std::vector<Cube> e; if (d < m.c.size()) e = m.c[d];
        CHECKM(x.get_cubes(d) == e, w << ": get_cubes(" << d << ")");
        for (size_t i = 0; i < x.ncells(d); ++i) {
            Cube g = x.get_cube(d, i), g2{7}, g3(x.cell_begin(d, i), x.cell_end(d, i)); x.get_cube(d, i, g2); CHECKM(g == e[i] && g2 == g && g3 == g && x.get_cell(d, i) == g, w << ": cube " << d << "/" << i << " is " << pbt::show(g) << ", model " << pbt::show(e[i])); CHECKM(x.find_idx(g) == i, w << ": find_idx(" << pbt::show(g) << ") = " << x.find_idx(g)); all.push_back(g);
            if (d) { std::multiset<size_t> f(x.faces_begin(d, i), x.faces_end(d, i)), f2(x.faces_begin(cell_ind(d, i)), x.faces_end(cell_ind(d, i))), ef; for (auto& q : facets(g)) ef.insert(m.id.at(q)); CHECKM(f == ef && f2 == ef, w << ": faces of " << pbt::show(g)); }
        }
    }
    CHECKM(x.ncells() == tot, w << ": total"); CHECKM(x.get_cubes() == all, w << ": get_cubes()");
    for (auto& p : probes) if (p.size() == 2 * D) { size_t i = x.find_idx(p); CHECKM(i == (m.has(p) ? m.id.at(p) : bats::NO_IND), w << ": find_idx of " << pbt::show(p) << " is " << i); }
}
PROP(history, "histories of add, add_recursive, duplicates, malformed cubes, set_dimension and skeleta on cubical complexes of ambient dimension 1-4; after each step all cells, indices, faces and lookups vs a set model; non-trivial: a refused or malformed add, and a recursive add with missing faces of dimension >= 2", 100000, 1200000) {
    size_t D = s.range(1, 4); long side = s.range(1, 3), off = s.coin(1, 5) ? s.range(0, 5000) : 0; bats::CubicalComplex x = s.coin() ? bats::CubicalComplex(D) : bats::CubicalComplex(s.draw(3), D);
    if (s.coin(1, 4)) { x = bats::CubicalComplex(); x.set_dimension(D); }
    Model m; long steps = bigN(s, 1, 12, 60); bool refused = false, rec = false; std::vector<Cube> probes; s.note << "D=" << D;
    for (long t = 0; t < steps; ++t) {
        Cube v; unsigned deg = s.draw(4); for (size_t i = 0; i < D; ++i) { size_t a = off + s.range(0, side), l = s.coin(deg, 4); v.push_back(a); v.push_back(a + l); } if (!probes.empty() && s.coin(1, 5)) v = s.pick(probes);
        int op = s.draw(6); s.note << " op" << op << pbt::show(v);
        if (op == 6) { Cube b = v; int k = s.draw(4); size_t i = 2 * s.range(0, D - 1); if (k == 0) b[i + 1] = b[i] + 2 + s.draw(2); else if (k == 1) { b[i] = b[i + 1] + 1; } else if (k == 2) b.pop_back(); else if (k == 3) { b.push_back(0); b.push_back(1); } else { b.resize(b.size() - 2); }
            s.note << " malformed " << pbt::show(b); bool r1 = pbt::throws([&] { x.add(b); }), r2 = pbt::throws([&] { x.add_recursive(b); }); CHECKM(r1 && r2, "malformed cube accepted"); refused = true; }
        else { probes.push_back(v); size_t d = cdim(v); bool had = m.has(v), ok = m.facesIn(v);
            if (op <= 2) { Cube w = v; auto r = op ? x.add(w) : x.add(Cube(v)); size_t e = had ? m.id[v] : ok ? m.count(d) : bats::NO_IND; CHECKM(r.dim == d && r.ind == e, "add returned (" << r.dim << "," << r.ind << "), expected (" << d << "," << e << ")"); if (!had && ok) m.put(v); if (!had && !ok) refused = true; }
            else { auto r = op == 3 ? x.add_recursive(v) : x.add_recursive(Cube(v));
                if (had) CHECKM(r.size() == 1 && r[0].dim == d && r[0].ind == m.id[v], "add_recursive of a present cube");
                else { if (!ok && d >= 2) rec = true; std::set<Cube> cl, miss; close(v, cl); for (auto& f : cl) if (!m.has(f)) miss.insert(f); CHECKM(r.size() == miss.size(), r.size() << " new cells, expected " << miss.size()); CHECK(r.back().dim == d && r.back().ind == m.count(d));
                    std::map<size_t, std::map<size_t, Cube>> got; for (auto& c : r) { CHECKM(c.dim <= D && c.ind < x.ncells(c.dim), "reported cell does not exist"); Cube g = x.get_cube(c.dim, c.ind); CHECKM(miss.erase(g), "reported cell " << pbt::show(g) << " is not new"); got[c.dim][c.ind] = g; } for (auto& [q, mm] : got) for (auto& [i, g] : mm) { CHECKM(i == m.count(q), "index given to new cell"); m.put(g); } } } }
        agree(x, m, D, probes, "cubical"); if (m.id.size()) CHECKM(pbt::throws([&] { x.set_dimension(D + 1); }), "set_dimension of a non-empty complex accepted");
    }
    size_t k = s.range(0, D); auto sk = x.skeleton(k); Model ms; for (size_t d = 0; d <= k && d < m.c.size(); ++d) for (auto& c : m.c[d]) ms.put(c); agree(sk, ms, D, probes, "skeleton"); CHECKM(pbt::throws([&] { x.skeleton(D + 1); }), "skeleton above the dimension accepted");
    agree(x, m, D, probes, "after skeleton"); s.nontrivial(refused && rec);
}
PROP(generated, "generate_cube(n): exactly all elementary cubes on n^3 vertices; bulk loading of a generated list of cubes from a file in the right order; non-trivial: n >= 3 or at least four loaded cubes", 3000, 20000) {
    if (s.coin(1, 6)) { size_t n = bigN(s, 2, 5, 9, 120); auto x = bats::CubicalComplex::generate_cube(n); std::set<Cube> e; for (size_t i = 0; i + 1 < n; ++i) for (size_t j = 0; j + 1 < n; ++j) for (size_t k = 0; k + 1 < n; ++k) close({i, i + 1, j, j + 1, k, k + 1}, e); s.note << "n=" << n; auto g = x.get_cubes(); std::set<Cube> gs(g.begin(), g.end()); CHECK(g.size() == gs.size()); CHECKM(gs == e, "cells of generate_cube"); CHECKM(x.ncells() == (2 * n - 1) * (2 * n - 1) * (2 * n - 1), "count"); Model m; for (size_t d = 0; d <= 3; ++d) for (auto& c : x.get_cubes(d)) m.put(c); agree(x, m, 3, {}, "generated"); CHECK(pbt::throws([&] { bats::CubicalComplex::generate_cube(1); })); s.nontrivial(n >= 3); return; }
    size_t D = s.range(1, 3); std::set<Cube> cl; long k = bigN(s, 1, 4, 30); for (long t = 0; t < k; ++t) { Cube v; for (size_t i = 0; i < D; ++i) { size_t a = s.range(0, 12), l = s.coin(); v.push_back(a); v.push_back(a + l); } close(v, cl); }
    std::vector<Cube> l(cl.begin(), cl.end()); std::stable_sort(l.begin(), l.end(), [](const Cube& a, const Cube& b) { return cdim(a) < cdim(b); }); Model m; char fn[] = "/tmp/c10cubesXXXXXX"; int fd = mkstemp(fn); FILE* f = fdopen(fd, "w"); for (auto& c : l) { m.put(c); for (size_t i = 0; i < c.size(); ++i) fprintf(f, "%s%zu", i ? "," : "", c[i]); fprintf(f, "\n"); s.note << pbt::show(c); } fclose(f);
    bats::CubicalComplex x(D); std::string name(fn); x.load_cubes(name); unlink(fn); agree(x, m, D, {}, "loaded"); s.nontrivial(l.size() >= 4);
}
PBT_MAIN("C10")
