// C24 Filtrations, sublevel sets, lower-star extension
#include "oracle.hpp"
#include "persgen.hpp"
#include <filtration/extension.hpp>
using pbt::Src; using namespace orc;
typedef std::map<Spx, double> Model;   // cell -> value
static size_t dimOfCube(const Spx& c) { size_t d = 0; for (size_t i = 0; i + 1 < c.size(); i += 2) d += c[i] != c[i + 1]; return d; }
static std::vector<Spx> facesOfCube(const Spx& c) { std::vector<Spx> r; for (size_t i = 0; i + 1 < c.size(); i += 2) if (c[i] != c[i + 1]) { Spx a = c, b = c; a[i + 1] = a[i]; b[i] = b[i + 1]; r.push_back(a); r.push_back(b); } return r; }
static std::vector<Spx> facesOfSpx(const Spx& c) { std::vector<Spx> r; if (c.size() > 1) for (size_t i = 0; i < c.size(); ++i) { Spx a = c; a.erase(a.begin() + i); r.push_back(a); } return r; }
template <class X> constexpr bool isCube = std::is_same_v<X, bats::CubicalComplex>;
template <class X> std::vector<Spx> facesM(const Spx& c) { if constexpr (isCube<X>) return facesOfCube(c); else return facesOfSpx(c); }
template <class X> size_t dimM(const Spx& c) { if constexpr (isCube<X>) return dimOfCube(c); else return c.size() - 1; }
template <class X> std::vector<Spx> cellsAt(const X& x, size_t k) { std::vector<Spx> r; for (size_t i = 0; i < x.ncells(k); ++i) { auto q = x.get_cell(k, i); r.push_back(Spx(q.begin(), q.end())); } return r; }
template <class X> bool monotone(const Model& m) { for (auto& p : m) for (auto& f : facesM<X>(p.first)) if (m.at(f) > p.second) return false; return true; }
// the filtration holds exactly the cells of the model with their values, is ordered stably and has the right sublevel sets
template <class X> void same(const bats::Filtration<double, X>& F, const Model& m, const std::vector<double>& ts, const std::string& w) {
    const X& x = F.complex(); std::map<size_t, size_t> n; for (auto& p : m) ++n[dimM<X>(p.first)]; size_t tot = 0; bool mono = monotone<X>(m);
    for (size_t k = 0; k <= x.maxdim(); ++k) { CHECKM(x.ncells(k) == n[k], w << ": " << x.ncells(k) << " cells in dimension " << k << " expected " << n[k]); tot += n[k]; if (k >= F.vals().size()) { CHECKEQ(n[k], (size_t)0); continue; } CHECKM(F.ncells(k) == n[k] && F.vals(k).size() == n[k], w << ": filtration has " << F.ncells(k) << " values in dimension " << k); auto cs = cellsAt(x, k); for (size_t i = 0; i < cs.size(); ++i) { auto it = m.find(cs[i]); CHECKM(it != m.end(), w << ": unexpected cell " << pbt::show(cs[i])); CHECKM(F.vals(k)[i] == it->second && F.vals()[k][i] == it->second, w << ": value of " << pbt::show(cs[i]) << " is " << F.vals(k)[i] << " expected " << it->second); CHECK(x.find_idx(cs[i]) == i); }
        std::vector<size_t> o(cs.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; std::stable_sort(o.begin(), o.end(), [&](size_t a, size_t b) { return F.vals(k)[a] < F.vals(k)[b]; }); CHECKM(F.sortperm(k) == o, w << ": order in dimension " << k); CHECK(F.sortperm()[k] == o && F.maxdim() + 1 == F.vals().size()); }
    CHECKEQ(tot, m.size());
    if (mono && !m.empty()) for (double t : ts) { X y = F.sublevelset(t); std::set<Spx> want, got; for (auto& p : m) if (p.second <= t) want.insert(p.first); for (size_t k = 0; k <= y.maxdim(); ++k) for (auto& c : cellsAt(y, k)) CHECK(got.insert(c).second); CHECKM(got == want, w << ": sublevel set at " << t << " has " << got.size() << " cells, expected " << want.size()); for (auto& c : got) CHECKM(y.find_idx(c) != bats::NO_IND, w << ": cell " << pbt::show(c) << " not found in sublevel set"); }
}
template <class X> X mk(size_t n, size_t d) { if constexpr (isCube<X>) return X(d); else return X(n, d); }
template <class X> Spx anyCell(Src& s, size_t n, size_t d) { Spx r; if constexpr (isCube<X>) { for (size_t i = 0; i < d; ++i) { size_t a = s.range(0, 3); r.push_back(a); r.push_back(a + s.coin()); } } else { auto p = s.perm(n); p.resize(1 + s.draw(std::min(d, n - 1))); std::sort(p.begin(), p.end()); r = p; } return r; }
template <class X> void history(Src& s, bool addMissing) {
    size_t d = isCube<X> ? s.range(1, 3) : s.range(0, 3), n = s.sized(1, 7); int ctor = s.draw(2); bats::Filtration<double, X> F = ctor == 0 && !isCube<X> && !std::is_same_v<X, LightC> ? bats::Filtration<double, X>() : ctor == 1 ? bats::Filtration<double, X>(mk<X>(n, d)) : isCube<X> ? bats::Filtration<double, X>(mk<X>(n, d)) : bats::Filtration<double, X>(n, d);
    Model m; long ops = s.sized(1, 14); bool mono = s.coin(2, 3), miss = false, redo = false, rec = false, unsorted = false; std::vector<double> ts;
    double far = s.coin(1, 6) ? 1073741824.0 : 0; for (long i = 0; i < ops; ++i) { Spx c = anyCell<X>(s, n, d); double v = (double)s.range(-4, 6) / 2 + far; ts.push_back(v); int op = s.draw(3); bool have = m.count(c), full = true; if (have) op = 0; /* recursive adding of a present cell: left open by the documentation */ for (auto& f : facesM<X>(c)) full &= m.count(f) > 0;
        if (op <= 1) { if (!full && !addMissing) { std::function<void(const Spx&)> put = [&](const Spx& q) { for (auto& f : facesM<X>(q)) if (!m.count(f)) put(f); double u = v; if (mono) for (auto& f : facesM<X>(q)) u = std::max(u, m.at(f)); Spx t = q; s.note << " face" << pbt::show(t) << "@" << u; F.add(u, t); m[q] = u; }; for (auto& f : facesM<X>(c)) if (!m.count(f)) put(f); full = true; }
            double u = v; if (mono) { for (auto& f : facesM<X>(c)) if (m.count(f)) u = std::max(u, m.at(f)); if (have) { bool ok = true; for (auto& p : m) for (auto& f : facesM<X>(p.first)) if (f == c && p.second < u) ok = false; if (!ok) u = m[c]; } } Spx t = c; if (!isCube<X> && s.coin()) { auto q = s.perm(t.size()); Spx t2 = t; for (size_t j = 0; j < t.size(); ++j) t2[j] = t[q[j]]; if constexpr (!std::is_same_v<X, LightC>) t = t2; }
            s.note << " add" << pbt::show(t) << "@" << u; auto r = F.add(u, t); if (!full) { miss = true; CHECKM(r.ind == bats::NO_IND, "cell with missing faces reported as added"); } else { if (have) redo = true; for (auto& p : m) if (dimM<X>(p.first) == dimM<X>(c) && p.second > u) unsorted = true; m[c] = u; CHECKM(r.dim == dimM<X>(c) && r.ind == F.complex().find_idx(c), "returned index"); } }
        else { double u = v; std::vector<Spx> nw; std::function<void(const Spx&)> col = [&](const Spx& q) { if (m.count(q) || std::count(nw.begin(), nw.end(), q)) return; for (auto& f : facesM<X>(q)) col(f); nw.push_back(q); }; col(c); if (mono) { std::function<void(const Spx&)> up = [&](const Spx& q) { if (m.count(q)) u = std::max(u, m.at(q)); for (auto& f : facesM<X>(q)) up(f); }; if (!m.count(c)) up(c); } Spx t = c; s.note << " rec" << pbt::show(t) << "@" << u; auto r = F.add_recursive(u, t); if (!nw.empty() && nw.size() + 1 < (size_t)1 << (dimM<X>(c) + 1)) rec = true; for (auto& q : nw) m[q] = u; std::set<std::pair<size_t, size_t>> ret; for (auto& q : r) ret.insert({q.dim, q.ind}); for (auto& q : nw) CHECKM(ret.count({dimM<X>(q), F.complex().find_idx(q)}), "recursively added cell " << pbt::show(q) << " not reported"); }
        if (s.coin(1, 6)) same(F, m, ts, "after " + std::to_string(i + 1) + " adds"); }
    same(F, m, ts, "end"); auto C = F.complex(); auto nv = F.vals(); for (auto& q : nv) for (auto& y : q) y = 2 * y + 1; F.update_filtration(nv); for (auto& p : m) p.second = 2 * p.second + 1; for (auto& t : ts) t = 2 * t + 1; same(F, m, ts, "values replaced"); for (size_t k = 0; k <= C.maxdim(); ++k) CHECK(cellsAt(C, k) == cellsAt(F.complex(), k));
    s.nontrivial(unsorted && (miss || redo || rec)); if (miss) s.label("missing faces"); if (redo) s.label("value replaced by re-adding"); if (rec) s.label("recursive add over existing faces");
}
PROP(histories, "filtered adds to simplicial (trie and hash) and cubical complexes: plain, of cells with missing faces (trie and cubical: refused, nothing changes), repeated (value replaced), recursive (new faces take the value, existing cells keep theirs), values monotone or not: cells, values, stable order, sublevel sets at every used value, replaced values; non-trivial: values out of insertion order and a refused, repeated or partly existing recursive add", 30000, 500000) {
    bool mi = s.coin(); switch (s.draw(2)) { case 0: s.note << "SC"; history<bats::SimplicialComplex>(s, mi); break; case 1: s.note << "light"; history<LightC>(s, false); break; default: s.note << "cube"; history<bats::CubicalComplex>(s, mi); }
}
PROP(sublevel, "complexes of every type (vertex labels with gaps included) with monotone values: each sublevel set, also between and beyond the values, has exactly the cells at or below, is closed, keeps boundaries well formed (Betti numbers equal an independent count), and order by value then dimension lists faces before cofaces; non-trivial: a proper non-empty sublevel set that omits a cell of every dimension up to 1", 15000, 200000) {
    auto run = [&](auto X) { using XT = decltype(X); if constexpr (!std::is_same_v<XT, bats::CellComplex>) { auto f = facesOf(X); auto vals = genVals(s, f); s.note << showVals(vals); auto F = bats::Filtration(X, vals); Model m; std::vector<double> ts; for (size_t k = 0; k <= X.maxdim(); ++k) { auto c = cellsAt(X, k); for (size_t i = 0; i < c.size(); ++i) { m[c[i]] = vals[k][i]; ts.push_back(vals[k][i]); } } std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end()); if (ts.empty()) return; std::vector<double> q = ts; q.push_back(ts[0] - 1); q.push_back(ts.back() + 1); if (ts.size() > 1) q.push_back((ts[0] + ts[1]) / 2); same<XT>(F, m, q, "filtration"); bool nt = false;
        for (double t : q) { auto y = F.sublevelset(t); auto a = cxOf<3>(bats::ChainComplex<M<3>>(y)); std::vector<Spx> cl; for (auto& p : m) if (p.second <= t) cl.push_back(p.first); for (size_t k = 0; k <= X.maxdim(); ++k) { std::vector<size_t> id0, id1; if (k) for (size_t i = 0; i < vals[k - 1].size(); ++i) if (vals[k - 1][i] <= t) id0.push_back(i); (void)id1; } long chi = 0, chi2 = 0; for (auto& c : cl) chi += dimM<XT>(c) % 2 ? -1 : 1; for (size_t k = 0; k <= y.maxdim(); ++k) chi2 += (k % 2 ? -1 : 1) * a.betti(k); CHECKM(chi == chi2, "Euler characteristic of the sublevel set"); bool o0 = false, o1 = false; for (auto& p : m) if (p.second > t) { o0 |= dimM<XT>(p.first) == 0; o1 |= dimM<XT>(p.first) == 1; } nt |= !cl.empty() && o0 && o1; }
        std::vector<std::tuple<double, size_t, size_t>> o; for (size_t k = 0; k <= X.maxdim(); ++k) for (auto i : F.sortperm(k)) o.push_back({vals[k][i], k, i}); std::stable_sort(o.begin(), o.end(), [](auto& a, auto& b) { return std::make_pair(std::get<0>(a), std::get<1>(a)) < std::make_pair(std::get<0>(b), std::get<1>(b)); }); std::set<std::pair<size_t, size_t>> seen; for (auto& c : o) { if (std::get<1>(c)) for (auto i : f[std::get<1>(c)][std::get<2>(c)]) CHECKM(seen.count({std::get<1>(c) - 1, i}), "coface before its face"); seen.insert({std::get<1>(c), std::get<2>(c)}); } s.nontrivial(nt); } };
    int k = s.draw(3); if (k == 0) withComplex(s, run, 6, false); else { size_t n = s.coin(1, 30) ? s.range(9, 36) : s.sized(2, 8); auto lab = s.perm(n > 8 ? 40 : 12); lab.resize(n); std::vector<Spx> tops; for (long i = 0, t = n > 8 ? s.range(2, 60) : s.sized(1, 5); i < t; ++i) { auto p = s.perm(n); p.resize(1 + s.draw(n > 8 ? 1 : std::min<size_t>(3, n - 1))); Spx q; for (auto j : p) q.push_back(lab[j]); std::sort(q.begin(), q.end()); tops.push_back(q); } auto cl = closure(tops); std::vector<Spx> v(cl.begin(), cl.end()); byDim(v); v = linearExtension(s, v); s.note << showTops(v); if (k == 1) run(buildLC(v, n > 8 ? 40 : 12, mdOf(v))); else run(buildSC(v)); }
}
template <class T> void lowerStar(Src& s) {
    size_t n = bigN(s, 1, 8, 16); auto v = linearExtension(s, genComplex(s, n, 3, 6)); s.note << showTops(v); std::vector<T> f0(n); long sp = s.coin() ? 2 : 50; bool far = std::is_same_v<T, double> && s.coin(1, 6); for (auto& x : f0) x = (T)s.range(-sp, sp) / (std::is_floating_point_v<T> ? (T)4 : (T)1) + (T)(far ? 1073741824 : 0); std::ostringstream o; for (auto x : f0) o << x << " "; s.note << " f " << o.str(); bool ties = std::set<T>(f0.begin(), f0.end()).size() < n;
    auto run = [&](auto X) { auto [vals, inds] = lower_star_filtration(X, f0); CHECK(vals.size() == X.maxdim() + 1 && inds.size() == vals.size()); for (size_t k = 0; k <= X.maxdim(); ++k) { auto cs = cellsAt(X, k); CHECK(vals[k].size() == cs.size() && inds[k].size() == cs.size()); for (size_t i = 0; i < cs.size(); ++i) { T mx = f0[cs[i][0]]; for (auto q : cs[i]) mx = std::max(mx, f0[q]); CHECKM(vals[k][i] == (double)mx, "value of " << pbt::show(cs[i]) << " is " << vals[k][i] << " expected " << mx); CHECKM(std::count(cs[i].begin(), cs[i].end(), inds[k][i]) && f0[inds[k][i]] == mx, "vertex " << inds[k][i] << " does not attain the maximum on " << pbt::show(cs[i])); } } };
    if (s.coin()) run(buildSC(v)); else run(buildLC(v, n, mdOf(v))); s.nontrivial(mdOf(v) >= 2 && ties);
}
PROP(lower_star_simplicial, "vertex functions of type double, float and int (negative, tied) on simplicial complexes: every simplex gets its largest vertex value and a vertex of it attaining that value; non-trivial: a triangle and tied vertices", 12000, 200000) { switch (s.draw(2)) { case 0: lowerStar<double>(s); break; case 1: lowerStar<float>(s); break; default: lowerStar<int>(s); } }
PROP(extend_any_function, "an arbitrary function of simplices (sum of squares and first vertex): every cell gets the value and index the function gives; non-trivial: a triangle", 4000, 40000) {
    size_t n = bigN(s, 1, 8, 16); auto v = linearExtension(s, genComplex(s, n, 3, 6)); s.note << showTops(v); auto g = [](const std::vector<size_t>& q) { long r = 0; for (auto i : q) r += (long)(i * i) - 3; return r; }; std::function<std::tuple<long, size_t>(const std::vector<size_t>&)> f = [&](const std::vector<size_t>& q) { return std::make_tuple(g(q), q[0]); };
    auto run = [&](auto X) { auto [vals, inds] = extend_filtration(X, f); for (size_t k = 0; k <= X.maxdim(); ++k) { auto cs = cellsAt(X, k); CHECK(vals[k].size() == cs.size()); for (size_t i = 0; i < cs.size(); ++i) CHECKM(vals[k][i] == g(cs[i]) && inds[k][i] == cs[i][0], "cell " << pbt::show(cs[i])); } }; if (s.coin()) run(buildSC(v)); else run(buildLC(v, n, mdOf(v))); s.nontrivial(mdOf(v) >= 2);
}
PROP(lower_star_cubical, "functions on 2- and 3-dimensional grids (double and int, negative, tied) and cubical complexes on them (whole grid or any cells): every cube gets the largest value over its corners; non-trivial: a top-dimensional cube whose maximum is not at its lower corner", 10000, 100000) {
    auto go = [&](auto zero) { using T = decltype(zero); size_t D = s.coin() ? 2 : 3; size_t a = bigN(s, 1, 4, 12), b = bigN(s, 1, 4, 12), c = D == 3 ? bigN(s, 1, 3, 8) : 1; std::vector<T> g(a * b * c); long sp = s.coin() ? 2 : 40; bool far = std::is_same_v<T, double> && s.coin(1, 6); for (auto& x : g) x = (T)s.range(-sp, sp) + (T)(far ? 1073741824 : 0); auto at = [&](size_t i, size_t j, size_t k) { return g[(i * b + j) * c + k]; }; bats::CubicalComplex X(D); size_t dims[3] = {a, b, c}; bool whole = s.coin(); long t = s.sized(1, 6); auto cell = [&](std::vector<size_t> lo, std::vector<bool> len) { std::vector<size_t> q; for (size_t i = 0; i < D; ++i) { q.push_back(lo[i]); q.push_back(lo[i] + (len[i] && lo[i] + 1 < dims[i] ? 1 : 0)); } X.add_recursive(q); };
        if (whole) { for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) for (size_t k = 0; k < c; ++k) cell({i, j, k}, {true, true, true}); } else for (long i = 0; i < t; ++i) cell({(size_t)s.draw(a - 1), (size_t)s.draw(b - 1), (size_t)s.draw(c - 1)}, {s.coin(2, 3), s.coin(2, 3), s.coin(2, 3)}); std::ostringstream o; for (auto x : g) o << x << " "; s.note << a << "x" << b << "x" << c << " " << o.str();
        std::vector<std::vector<T>> vals; if (D == 2) { std::vector<std::vector<T>> f(a, std::vector<T>(b)); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) f[i][j] = at(i, j, 0); vals = lower_star_filtration(X, f); } else { std::vector<std::vector<std::vector<T>>> f(a, std::vector<std::vector<T>>(b, std::vector<T>(c))); for (size_t i = 0; i < a; ++i) for (size_t j = 0; j < b; ++j) for (size_t k = 0; k < c; ++k) f[i][j][k] = at(i, j, k); vals = lower_star_filtration(X, f); } bool nt = false; CHECK(vals.size() == X.maxdim() + 1);
        for (size_t k = 0; k <= X.maxdim(); ++k) { auto cs = cellsAt(X, k); CHECK(vals[k].size() == cs.size()); for (size_t i = 0; i < cs.size(); ++i) { auto q = cs[i]; if (D == 2) { q.push_back(0); q.push_back(0); } T mx = at(q[0], q[2], q[4]); for (size_t x = q[0]; x <= q[1]; ++x) for (size_t y = q[2]; y <= q[3]; ++y) for (size_t z = q[4]; z <= q[5]; ++z) mx = std::max(mx, at(x, y, z)); CHECKM(vals[k][i] == mx, "cube " << pbt::show(cs[i]) << " has value " << vals[k][i] << " expected " << mx); if (k == D && at(q[0], q[2], q[4]) < mx) nt = true; } } s.nontrivial(nt); }; if (s.coin()) go(0.0); else go(0);
}
PROP(lower_star_gradient, "the pulled back gradient of a weighted sum of births and deaths of a lower-star filtration with distinct vertex values equals its exact finite difference at every vertex; non-trivial: a finite bar above degree 0 or two finite bars", 6000, 60000) {
    size_t n = bigN(s, 2, 9, 20); auto v = linearExtension(s, genComplex(s, n, 3, 8)); s.note << showTops(v); auto p = s.perm(n); std::vector<double> f0(n); for (size_t i = 0; i < n; ++i) f0[i] = 10.0 * (double)p[i] - 20; auto X = buildSC(v); using MT = M<2>; auto bars = [&](const std::vector<double>& f) { auto [vals, inds] = lower_star_filtration(X, f); auto F = bats::Filtration(X, vals); bats::FilteredChainComplex<double, MT> C(F); bats::ReducedFilteredChainComplex<double, MT> R(C); std::vector<std::vector<bats::PersistencePair<double>>> b; for (size_t k = 0; k <= X.maxdim(); ++k) b.push_back(R.persistence_pairs(k)); return std::make_pair(b, inds); };
    auto [b, inds] = bars(f0); std::vector<std::vector<double>> g(b.size()); std::vector<std::vector<int>> bi(b.size()); std::map<std::pair<size_t, size_t>, std::pair<double, double>> wt; int fin = 0; bool hi = false; for (size_t k = 0; k < b.size(); ++k) for (auto& q : b[k]) { double x = (double)s.range(-3, 3), y = (double)s.range(-3, 3); g[k].push_back(x); g[k].push_back(y); bi[k].push_back((int)q.birth_ind); bi[k].push_back(q.death_ind == bats::NO_IND ? -1 : (int)q.death_ind); wt[{k, q.birth_ind}] = {x, q.death_ind == bats::NO_IND ? 0.0 : y}; if (q.death_ind != bats::NO_IND && q.death > q.birth) { ++fin; hi |= k > 0; } }
    auto df = lower_star_backwards(g, bi, inds); CHECKEQ(df.size(), n); auto val = [&](const auto& bb) { double r = 0; for (size_t k = 0; k < bb.size(); ++k) for (auto& q : bb[k]) { auto w = wt.at({k, q.birth_ind}); r += w.first * q.birth + (q.death_ind == bats::NO_IND ? 0.0 : w.second * q.death); } return r; }; double base = val(b);
    for (size_t i = 0; i < n; ++i) { auto f = f0; f[i] += 1; double d = val(bars(f).first) - base; CHECKM(d == df[i], "derivative at vertex " << i << " is " << df[i] << ", finite difference " << d); } s.nontrivial(hi || fin >= 2);
}
PROP(union_of_filtrations, "adding all cells of a second simplicial filtration: the cells are the union, common cells take the second filtration's values, the others keep theirs; non-trivial: common cells with different values and cells of each alone", 8000, 80000) {
    auto go = [&](auto proto) { using X = decltype(proto); size_t n = s.sized(1, 7); auto mkF = [&](Model& m) { auto v = linearExtension(s, genComplex(s, n, 3, 4, s.coin())); X x(n, 6); for (auto q : v) x.add(q); auto f = facesOf(x); Vals w = genVals(s, f); for (size_t k = 0; k <= x.maxdim(); ++k) { auto c = cellsAt(x, k); for (size_t i = 0; i < c.size(); ++i) m[c[i]] = w[k][i]; } s.note << showTops(v) << showVals(w); return bats::Filtration<double, X>(x, w); }; Model a, b; auto F = mkF(a), G = mkF(b); bool common = false, la = false, lb = false; for (auto& p : b) { if (a.count(p.first)) common |= a[p.first] != p.second; else lb = true; } for (auto& p : a) la |= !b.count(p.first); F.union_add(G); Model u = a; for (auto& p : b) u[p.first] = p.second; same(F, u, {}, "union"); same(G, b, {}, "argument"); s.nontrivial(common && la && lb); }; if (s.coin()) go(bats::SimplicialComplex()); else go(LightC(1, 0));
}
PBT_MAIN("C24")
