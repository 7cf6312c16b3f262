// C28 Zigzag filtration barcodes equal those of the diagram of level complexes
// split: field
#include "complexgen.hpp"
using pbt::Src; using namespace orc;
typedef std::vector<std::vector<std::vector<std::pair<double, double>>>> Ivs;
typedef std::tuple<size_t, double, double, bool, bool> ZBar;
struct Sim { Ivs iv; bool again = false, late = false; double sc = 1, off = 0; int T = 0; std::vector<std::tuple<double, double, size_t, size_t>> order; };
// simulate a run of entries and removals over integer times: entries at t keep faces present, removals at t keep cofaces absent; every cell appears at least once
static Sim simulate(Src& s, const Faces& f, int T = 0) {
    Sim r; r.iv.resize(f.size()); std::vector<std::vector<int>> in(f.size()), out(f.size()); for (size_t k = 0; k < f.size(); ++k) { r.iv[k].resize(f[k].size()); in[k].assign(f[k].size(), -1); out[k].assign(f[k].size(), -2); } r.T = T ? T : (int)s.range(1, 8); r.sc = s.coin() ? 1 : 0.25; r.off = s.coin(1, 3) ? -2 : s.coin(1, 8) ? 1073741824.0 : 0; long pin = s.range(1, 3), pout = s.range(1, 4), den = T && s.coin() ? 60 : 6;
    auto val = [&](int t) { return r.off + r.sc * t; }; for (int t = 0; t <= r.T; ++t) {
        bool last = t == r.T; std::vector<std::vector<char>> need(f.size()); for (size_t k = 0; k < f.size(); ++k) need[k].assign(f[k].size(), 0); if (last) for (size_t k = f.size(); k-- > 0;) for (size_t i = 0; i < f[k].size(); ++i) { need[k][i] |= r.iv[k][i].empty() && in[k][i] < 0; if (need[k][i] && k) for (auto q : f[k][i]) need[k - 1][q] = 1; }
        for (size_t k = 0; k < f.size(); ++k) for (size_t i = 0; i < f[k].size(); ++i) { if (in[k][i] >= 0 || out[k][i] == t) continue; bool ok = true; for (auto q : f[k][i]) ok &= in[k - 1][q] >= 0; if (!ok) continue; bool never = r.iv[k][i].empty(); if (need[k][i] || s.coin(pin, 4)) { in[k][i] = t; r.again |= !never; } }
        if (last) for (size_t k = 0; k < f.size(); ++k) for (size_t i = 0; i < f[k].size(); ++i) if (r.iv[k][i].empty() && in[k][i] < 0) PBT_FAIL("generator: cell never entered");
        for (size_t k = f.size(); k-- > 0;) for (size_t i = 0; i < f[k].size(); ++i) { if (in[k][i] < 0) continue; bool used = false; if (k + 1 < f.size()) for (size_t j = 0; j < f[k + 1].size(); ++j) if (in[k + 1][j] >= 0) for (auto q : f[k + 1][j]) used |= q == i; if (used) continue; if (last || s.coin(pout, den)) { r.iv[k][i].push_back({val(in[k][i]), val(t)}); r.order.push_back({val(in[k][i]), (double)k, k, i}); in[k][i] = -1; out[k][i] = t; } }
        }
    for (size_t k = 0; k < f.size(); ++k) for (size_t i = 0; i < f[k].size(); ++i) { s.note << " " << k << "." << i << ":"; for (auto& p : r.iv[k][i]) s.note << "[" << p.first << "," << p.second << "]"; if (k && r.iv[k][i].size()) for (auto q : f[k][i]) r.late |= r.iv[k - 1][q].size() > 1 && r.iv[k - 1][q][0].second < r.iv[k][i][0].first; } return r;
}
static Mask at(const Ivs& iv, double a, double b) { Mask m; for (auto& x : iv) { m.emplace_back(); for (auto& y : x) { char c = 0; for (auto& p : y) c |= p.first <= a && b <= p.second; m.back().push_back(c); } } return m; }
template <int P> std::multiset<ZBar> reference(const Cx<P>& X, const Sim& z, size_t k) {
    std::vector<Mask> ms; std::vector<bool> g; for (int t = 0; t <= z.T; ++t) { double a = z.off + z.sc * t; ms.push_back(at(z.iv, a, a)); if (t < z.T) { g.push_back(false); ms.push_back(at(z.iv, a, a + z.sc)); g.push_back(true); } } std::multiset<ZBar> r;
    for (auto& p : subcomplexBars(X, ms, g, k)) { size_t a = p.first.first, b = p.first.second; double birth = z.off + z.sc * (double)(a / 2), death = z.off + z.sc * (double)((b + 1) / 2); if (birth == death) continue; for (long i = 0; i < p.second; ++i) r.insert({k, birth, death, a % 2 == 0, b % 2 == 1}); } return r;
}
template <class R> std::multiset<ZBar> libZ(const R& ps, size_t k, const std::string& w) { std::multiset<ZBar> r; for (auto& p : ps[k]) { CHECKM(p.dim == k && p.birth <= p.death, w << ": bar of dimension " << p.dim << " (" << p.birth << "," << p.death << ") in list " << k); if (p.birth < p.death) r.insert({k, p.birth, p.death, p.birth_is_entry, p.death_is_entry}); } return r; }
static std::string showZ(const std::multiset<ZBar>& b) { std::ostringstream o; for (auto& x : b) o << " " << std::get<0>(x) << ":(" << std::get<1>(x) << (std::get<3>(x) ? "" : "-") << "," << std::get<2>(x) << (std::get<4>(x) ? "" : "-") << ")"; return o.str(); }
template <int P, class FT> void checkBars(Src& s, const FT& F, const Cx<P>& X, const Sim& z, size_t top, const std::string& w) {
    std::vector<std::multiset<ZBar>> want; for (size_t k = 0; k <= top; ++k) want.push_back(reference(X, z, k)); ssize_t md = (ssize_t)s.range(0, top); if (s.coin(1, 4) && top) md = -1; else if (s.coin()) md = top; size_t n = md < 0 ? F.complex().maxdim() : md + 1; for (size_t k = want.size(); k < n; ++k) want.emplace_back(); s.note << " maxdim" << md;
    auto cmp = [&](const auto& ps, const char* o) {
        std::set<std::tuple<size_t, size_t, double, bool>> used; // every event (a cell entering or leaving) is the birth or the death of at most one bar
        auto event = [&](size_t k, size_t i, double t, bool entry, const char* what) { CHECKM(k < z.iv.size() && i < z.iv[k].size(), w << o << ": " << what << " names cell " << i << " of dimension " << k); bool ok = false; for (auto& p : z.iv[k][i]) ok |= (entry ? p.first : p.second) == t; CHECKM(ok, w << o << ": " << what << " at " << t << " names cell " << k << "." << i << " which does not " << (entry ? "enter" : "leave") << " then"); CHECKM(used.insert({k, i, t, entry}).second, w << o << ": event of cell " << k << "." << i << " used twice"); };
        for (size_t k = 0; k < ps.size(); ++k) for (auto& p : ps[k]) { event(p.birth_is_entry ? k : k + 1, p.birth_ind, p.birth, p.birth_is_entry, "birth"); event(p.death_is_entry ? k + 1 : k, p.death_ind, p.death, p.death_is_entry, "death"); }
        CHECKM(ps.size() == n, w << o << ": " << ps.size() << " dimensions, expected " << n); for (size_t k = 0; k < n; ++k) { auto g = libZ(ps, k, w + o); CHECKM(g == want[k], w << o << " dimension " << k << " gives" << showZ(g) << " expected" << showZ(want[k])); } };
    cmp(bats::zigzag::barcode(F, md, orc::F<P>(), bats::no_optimization_flag(), bats::standard_reduction_flag()), " standard"); cmp(bats::zigzag::barcode(F, md, orc::F<P>(), bats::no_optimization_flag(), bats::extra_reduction_flag()), " extra"); cmp(bats::zigzag::barcode(F, md, orc::F<P>(), bats::clearing_flag(), bats::standard_reduction_flag()), " clearing"); cmp(bats::zigzag::barcode(F, md, orc::F<P>(), bats::clearing_flag(), bats::extra_reduction_flag()), " clearing+extra");
    bool cl = false, hi = false, rem = false; for (size_t k = 0; k < n; ++k) for (auto& b : want[k]) { hi |= k > 0; rem |= !std::get<3>(b); cl = true; } s.nontrivial(cl && rem && (hi || z.again)); if (z.again) s.label("cells enter again"); if (z.late) s.label("coface belongs to a later copy of its face");
}
PROP(barcodes, "complexes of every type (trie, hash, cubical, cell), cells entering and leaving repeatedly at coinciding times, negative values, each cell with up to four disjoint intervals, every finite field: bars of positive length, with entry/removal tags, equal the interval decomposition of the homology of the level complexes and their inclusions, for both reductions, optimisation flags and any dimension bound; non-trivial: a bar born at a removal, and a bar above degree 0 or a cell entering again", 10000, 150000) {
    withComplex(s, [&](auto X) { using XT = decltype(X); withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto f = facesOf(X); auto z = simulate(s, f); bats::zigzag::ZigzagFiltration<XT, double> F(X, z.iv); auto C = cxOf<P>(bats::ChainComplex<M<P>>(X)); checkBars<P>(s, F, C, z, X.maxdim(), "");
        bats::zigzag::ZigzagChainComplex<M<P>, double> ZC(F); size_t tot = 0, nz = 0; for (size_t k = 0; k <= X.maxdim(); ++k) { size_t c = 0; for (auto& v : z.iv[k]) c += v.size(); CHECK(ZC.dim(k) == c && ZC.vals(k).size() == c && ZC.cind[k].size() == c); tot += c; if (k) { auto B = matOf<P>(ZC.C[k], "duplicated boundary"); auto A = k > 1 ? matOf<P>(ZC.C[k - 1], "duplicated boundary") : DM<P>(0, 0); if (k > 1) CHECKM((A * B).zero(), "boundary of boundary of the duplicated complex"); for (size_t j = 0; j < c; ++j) for (size_t i = 0; i < B.m; ++i) if (!B(i, j).zero()) { ++nz; CHECKM(ZC.val[k - 1][i].first <= ZC.val[k][j].first && ZC.val[k][j].second <= ZC.val[k - 1][i].second, "copy of a cell is attached to a copy of its face that is not present throughout"); CHECKM(C.d[k](ZC.cind[k - 1][i], ZC.cind[k][j]) == B(i, j), "coefficient in the duplicated complex"); } } } CHECK(ZC.dim() == tot); }); }, 5);
}
PROP(long_histories, "histories over up to 50 times on complexes of up to 7 vertices, each cell entering and leaving many times: bars equal the reference, and reversing time reverses the bars and swaps the tags; non-trivial: more than 60 intervals and a bar above degree 0", 600, 9000) {
    auto go = [&](auto X) { using XT = decltype(X); withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto f = facesOf(X); auto z = simulate(s, f, (int)s.range(9, 50)); bats::zigzag::ZigzagFiltration<XT, double> F(X, z.iv); auto C = cxOf<P>(bats::ChainComplex<M<P>>(X)); checkBars<P>(s, F, C, z, X.maxdim(), "");
        auto back = z.iv; size_t tot = 0; for (auto& a : back) for (auto& b : a) { tot += b.size(); std::reverse(b.begin(), b.end()); for (auto& p : b) p = {-p.second, -p.first}; } bats::zigzag::ZigzagFiltration<XT, double> G(X, back); bats::extra_reduction_flag er; bats::standard_reduction_flag sr; bats::no_optimization_flag no; auto a = s.coin() ? bats::zigzag::barcode(F, X.maxdim(), orc::F<P>(), no, sr) : bats::zigzag::barcode(F, X.maxdim(), orc::F<P>(), no, er), b = s.coin() ? bats::zigzag::barcode(G, X.maxdim(), orc::F<P>(), no, sr) : bats::zigzag::barcode(G, X.maxdim(), orc::F<P>(), no, er); bool hi = false; for (size_t k = 0; k <= X.maxdim(); ++k) { auto u = libZ(a, k, "forward"), v = libZ(b, k, "reversed"); std::multiset<ZBar> w; for (auto& q : v) w.insert({k, -std::get<2>(q), -std::get<1>(q), !std::get<4>(q), !std::get<3>(q)}); CHECKM(u == w, "reversing time, dimension " << k << ":" << showZ(u) << " reversed" << showZ(w)); hi |= k && !u.empty(); } s.nontrivial(tot > 60 && hi); }); };
    if (s.coin(1, 4)) { size_t n = s.range(7, 18); std::vector<Spx> tops; if (s.coin()) { auto p = s.perm(n); for (size_t i = 0; i < n; ++i) { Spx q = {p[i], p[(i + 1) % n]}; std::sort(q.begin(), q.end()); tops.push_back(q); } } for (long i = 0, m = s.range(tops.size() ? 1 : 12, 34 - (long)tops.size()); i < m; ++i) { auto p = s.perm(n); p.resize(s.coin(1, 6) ? 3 : 2); std::sort(p.begin(), p.end()); tops.push_back(p); } auto cl = closure(tops); std::vector<Spx> v(cl.begin(), cl.end()); byDim(v); v = linearExtension(s, v); s.note << showTops(v); if (s.coin()) go(buildLC(v, n, mdOf(v))); else go(buildSC(v)); } else withComplex(s, go, 7);
}
PROP(built_by_adds, "the same histories built by adding cells in time order (repeated adds give further intervals), simplicial trie/hash and cubical: values recorded per cell, barcode as before; cells with missing faces are refused; recursive adds give every new face the same interval; non-trivial: some cell added more than once", 6000, 80000) {
    auto run = [&](auto X) { using XT = decltype(X); if constexpr (!std::is_same_v<XT, bats::CellComplex>) { withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; auto f = facesOf(X); auto z = simulate(s, f); std::stable_sort(z.order.begin(), z.order.end()); auto mk = [&] { if constexpr (std::is_same_v<XT, bats::CubicalComplex>) return bats::zigzag::ZigzagFiltration<XT, double>((size_t)X.get_cell(0, 0).size() / 2); else return bats::zigzag::ZigzagFiltration<XT, double>((size_t)10, (size_t)(X.maxdim() + 1)); }; auto F = mk(); std::map<std::vector<size_t>, std::vector<std::pair<double, double>>> want; std::map<std::pair<size_t, size_t>, size_t> seen;
            for (auto& o : z.order) { size_t k = std::get<2>(o), i = std::get<3>(o); auto& p = z.iv[k][i][seen[{k, i}]++]; auto q = X.get_cell(k, i); std::vector<size_t> c(q.begin(), q.end()); want[c].push_back(p); auto r = F.add(p.first, p.second, c); CHECK(r.dim == k && r.ind == F.complex().find_idx(c)); }
            for (size_t k = 0; k <= X.maxdim(); ++k) { if (k >= F.vals().size()) { CHECK(X.ncells(k) == 0); continue; } CHECK(F.ncells(k) == X.ncells(k) && F.complex().ncells(k) == X.ncells(k)); for (size_t i = 0; i < F.ncells(k); ++i) { auto q = F.complex().get_cell(k, i); CHECKM(F.vals(k)[i] == want.at(std::vector<size_t>(q.begin(), q.end())), "intervals of a cell"); } }
            Sim y = z; y.iv = F.vals(); checkBars<P>(s, F, cxOf<P>(bats::ChainComplex<M<P>>(F.complex())), y, X.maxdim(), "built: "); s.nontrivial(z.again); }); } };
    withComplex(s, run, 5, false);
}
PROP(recursive_and_refused, "recursive adds of simplices and cubes with one interval each (each new face takes the interval of the cell that brought it), and adds of cells whose faces are absent: cells, intervals, nothing recorded for refused ones; non-trivial: a refused cell and a recursive add that brings some but not all faces", 4000, 40000) {
    auto go = [&](auto F, bool cube, size_t D) { std::map<std::vector<size_t>, std::vector<std::pair<double, double>>> want; auto faces = [&](const Spx& c) { std::vector<Spx> r; if (cube) { for (size_t i = 0; i + 1 < c.size(); i += 2) if (c[i] != c[i + 1]) { Spx a = c, b = c; a[i + 1] = a[i]; b[i] = b[i + 1]; r.push_back(a); r.push_back(b); } } else if (c.size() > 1) for (size_t i = 0; i < c.size(); ++i) { Spx a = c; a.erase(a.begin() + i); r.push_back(a); } return r; }; bool ref = false, part = false; long n = s.range(1, 6);
        for (long i = 0; i < n; ++i) { Spx c; if (cube) for (size_t j = 0; j < D; ++j) { size_t a = s.range(0, 2); c.push_back(a); c.push_back(a + s.coin()); } else { auto p = s.perm(5); p.resize(s.range(1, 4)); std::sort(p.begin(), p.end()); c = p; } double a = s.range(-4, 4), b = a + s.range(0, 5); if (want.count(c)) continue; s.note << pbt::show(c) << "[" << a << "," << b << "]"; Spx t = c; if (s.coin(1, 3)) { bool ok = true; for (auto& q : faces(c)) ok &= want.count(q) > 0; s.note << "plain "; auto r = F.add(a, b, t); if (ok) want[c].push_back({a, b}); else { ref = true; CHECKM(r.ind == bats::NO_IND, "cell with missing faces reported as added"); } } else { s.note << "rec "; std::set<Spx> nw; size_t all = 0; std::function<void(const Spx&)> col = [&](const Spx& q) { for (auto& x : faces(q)) { ++all; if (!want.count(x)) col(x); } nw.insert(q); }; col(c); auto r = F.add_recursive(a, b, t); CHECKM(r.size() == nw.size(), "recursive add reports " << r.size() << " cells, " << nw.size() << " are new"); size_t d = 0; if (cube) { for (size_t j = 0; j + 1 < c.size(); j += 2) d += c[j] != c[j + 1]; } else d = c.size() - 1; part |= d >= 2 && nw.size() > 1 && (cube ? nw.size() < (size_t)std::pow(3.0, (double)d) : nw.size() + 1 < ((size_t)1 << c.size())); for (auto& q : nw) want[q].push_back({a, b}); } }
        size_t tot = 0; for (size_t k = 0; k <= F.complex().maxdim(); ++k) { if (k < F.vals().size()) CHECK(F.vals(k).size() == F.complex().ncells(k)); else CHECK(F.complex().ncells(k) == 0); for (size_t i = 0; i < F.complex().ncells(k); ++i) { auto q = F.complex().get_cell(k, i); std::vector<size_t> c(q.begin(), q.end()); CHECKM(want.count(c), "unexpected cell " << pbt::show(c)); CHECKM(F.vals(k)[i] == want[c], "intervals of " << pbt::show(c)); ++tot; } } CHECKEQ(tot, want.size()); s.nontrivial(ref && part); };
    if (s.coin()) go(bats::zigzag::ZigzagFiltration<bats::SimplicialComplex, double>(), false, 0); else { size_t D = s.range(1, 3); s.note << "cube "; go(bats::zigzag::ZigzagFiltration<bats::CubicalComplex, double>(D), true, D); }
}
PROP(levelsets, "level set over any range of a history on trie, hash and cubical complexes: exactly the cells with some interval meeting the range; non-trivial: a cell whose interval contains the range strictly and one whose intervals miss it", 6000, 80000) {
    auto run = [&](auto X) { using XT = decltype(X); if constexpr (!std::is_same_v<XT, bats::CellComplex>) { auto f = facesOf(X); auto z = simulate(s, f); bats::zigzag::ZigzagFiltration<XT, double> F(X, z.iv); double a = z.off + z.sc * (double)s.range(-1, 2 * z.T + 1) / 2, b = a + z.sc * (double)s.range(0, 2 * z.T) / 2; s.note << " levelset " << a << "," << b; auto Y = F.levelset(a, b); bool in = false, out = false; std::set<std::vector<size_t>> want, got; for (size_t k = 0; k <= X.maxdim(); ++k) for (size_t i = 0; i < X.ncells(k); ++i) { bool m = false; for (auto& p : z.iv[k][i]) { m |= p.first <= b && a <= p.second; in |= p.first < a && b < p.second; } out |= !m; auto q = X.get_cell(k, i); if (m) want.insert(std::vector<size_t>(q.begin(), q.end())); }
        for (size_t k = 0; k <= Y.maxdim(); ++k) for (size_t i = 0; i < Y.ncells(k); ++i) { auto q = Y.get_cell(k, i); std::vector<size_t> c(q.begin(), q.end()); CHECKM(want.count(c), "unexpected cell " << pbt::show(c)); CHECK(got.insert(c).second && Y.find_idx(c) == i); } for (auto& c : want) CHECKM(got.count(c), "missing cell " << pbt::show(c)); s.nontrivial(in && out); } };
    if (s.coin(1, 12)) { size_t n = s.range(8, 24), N = 40; auto lab = s.perm(N); lab.resize(n); std::vector<Spx> tops; for (long i = 0, t = s.range(2, 10); i < t; ++i) { auto p = s.perm(n); p.resize(1 + s.draw(3)); Spx q; for (auto j : p) q.push_back(lab[j]); std::sort(q.begin(), q.end()); tops.push_back(q); } auto cl = closure(tops); std::vector<Spx> v(cl.begin(), cl.end()); byDim(v); v = linearExtension(s, v); s.note << showTops(v); if (s.coin()) run(buildLC(v, N, mdOf(v))); else run(buildSC(v)); return; }
    withComplex(s, run, 5, false);
}
template <class T> void extendSpx(Src& s) {
    size_t n = bigN(s, 1, 7, 14); auto v = linearExtension(s, genComplex(s, n, 3, 5)); s.note << showTops(v); std::vector<T> f0(n); long sp = s.coin() ? 3 : 20; bool far = std::is_floating_point_v<T> && s.coin(1, 5); for (auto& x : f0) x = (T)s.range(-sp, sp) - (s.coin(1, 4) ? sp : 0) + (far ? 1073741825 : 0); T eps = (T)s.range(0, 30); for (auto x : f0) s.note << x << " "; s.note << "eps" << eps; bool bad = false, neg = true; for (auto& q : v) { T mx = f0[q[0]], mn = mx; for (auto i : q) { mx = std::max(mx, f0[i]); mn = std::min(mn, f0[i]); } bad |= mx - eps > mn + eps; } for (auto x : f0) neg &= x < 0;
    auto run = [&](auto X) { if (bad) { std::ostringstream sink; auto old = std::cout.rdbuf(sink.rdbuf()); bool t = pbt::throws([&] { bats::zigzag::extend_zigzag_filtration(f0, X, eps); }); std::cout.rdbuf(old); CHECKM(t, "no error for a cell that would enter after its removal"); return; } auto F = bats::zigzag::extend_zigzag_filtration(f0, X, eps); for (size_t k = 0; k <= X.maxdim(); ++k) { CHECK(F.ncells(k) == X.ncells(k)); for (size_t i = 0; i < X.ncells(k); ++i) { auto q = X.get_simplex(k, i); T mx = f0[q[0]], mn = mx; for (auto j : q) { mx = std::max(mx, f0[j]); mn = std::min(mn, f0[j]); } CHECKM(F.vals(k)[i].size() == 1 && F.vals(k)[i][0] == std::make_pair((T)(mx - eps), (T)(mn + eps)), "interval of " << pbt::show(Spx(q.begin(), q.end())) << " is [" << F.vals(k)[i][0].first << "," << F.vals(k)[i][0].second << "]"); } } };
    if (s.coin()) run(buildSC(v)); else run(buildLC(v, n, mdOf(v))); s.nontrivial(!bad && mdOf(v) >= 2 && neg); if (neg) s.label("all values negative");
}
PROP(extend_simplicial, "vertex functions (double, int; also all negative) and radii: every simplex is present exactly from its largest value minus the radius to its smallest plus the radius, and a cell that would leave before entering is an error; non-trivial: a triangle and all values negative", 6000, 60000) { if (s.coin()) extendSpx<double>(s); else extendSpx<int>(s); }
PROP(extend_cubical, "functions on the vertices of an n x n x n grid (n = 2, 3; also all negative) and the full cubical complex: present cells are exactly those whose interval (largest value minus radius, smallest plus radius) is not empty, with that interval; the value table version agrees or refuses; the barcode equals the reference for the full complex restricted to them; non-trivial: some cell is left out and a 2-cube is present", 2500, 25000) {
    size_t n = bigN(s, 2, 3, 4, 200); std::vector<double> f0(n * n * n); long sp = s.range(1, 6); double sh = s.coin(1, 3) ? -20 : s.coin(1, 4) ? 1073741825.0 : 0; for (auto& x : f0) x = (double)s.range(-sp, sp) + sh; double eps = (double)s.range(0, 2 * sp) / 2; for (auto x : f0) s.note << x << " "; s.note << "eps" << eps; auto X = bats::CubicalComplex::generate_cube(n); std::map<std::vector<size_t>, std::pair<double, double>> want; bool out = false, two = false; for (size_t k = 0; k <= X.maxdim(); ++k) for (size_t i = 0; i < X.ncells(k); ++i) { auto c = X.get_cell(k, i); double mx = -1e300, mn = 1e300; for (size_t x = c[0]; x <= c[1]; ++x) for (size_t y = c[2]; y <= c[3]; ++y) for (size_t w = c[4]; w <= c[5]; ++w) { double q = f0[w + (y + x * n) * n]; mx = std::max(mx, q); mn = std::min(mn, q); } if (mx - eps <= mn + eps) { want[std::vector<size_t>(c.begin(), c.end())] = {mx - eps, mn + eps}; two |= k == 2; } else out = true; }
    auto F = bats::zigzag::extend_zigzag_filtration(f0, X, eps, n); size_t tot = 0; for (size_t k = 0; k <= F.complex().maxdim(); ++k) for (size_t i = 0; i < F.complex().ncells(k); ++i) { auto c = F.complex().get_cell(k, i); auto it = want.find(std::vector<size_t>(c.begin(), c.end())); CHECKM(it != want.end(), "unexpected cube"); CHECKM(F.vals(k)[i].size() == 1 && F.vals(k)[i][0] == it->second, "interval of cube " << pbt::show(it->first) << " is [" << F.vals(k)[i][0].first << "," << F.vals(k)[i][0].second << "]"); ++tot; } CHECKEQ(tot, want.size());
    if (out) CHECK(pbt::throws([&] { bats::zigzag::extend_levelset(f0, X, eps, n); })); else { auto v = bats::zigzag::extend_levelset(f0, X, eps, n); for (size_t k = 0; k <= X.maxdim(); ++k) for (size_t i = 0; i < X.ncells(k); ++i) { auto c = X.get_cell(k, i); CHECK(v[k][i].size() == 1 && v[k][i][0] == want.at(std::vector<size_t>(c.begin(), c.end()))); } } s.nontrivial(out && two);
}
PBT_MAIN("C28")
