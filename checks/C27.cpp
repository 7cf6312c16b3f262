// C27 Quiver barcodes equal the rank invariant of the diagram
// split: field
#include "oracle.hpp"
#include <omp.h>
using pbt::Src; using namespace orc;
typedef std::map<std::pair<size_t, size_t>, long> BarCount;
template <int P> struct Quiver { std::vector<size_t> dim; std::vector<DM<P>> f; std::vector<bool> right; };
static std::string showBars(const BarCount& b) { std::ostringstream o; for (auto& p : b) o << "[" << p.first.first << "," << p.first.second << "]x" << p.second << " "; return o.str(); }
template <class L> BarCount count(const L& ps, size_t hdim, const std::vector<size_t>& dim, const std::string& w) {
    BarCount r; std::set<std::pair<size_t, size_t>> st, en; for (auto& p : ps) if (p.dim == hdim) { CHECKM(p.birth <= p.death && p.death < dim.size(), w << ": bar [" << p.birth << "," << p.death << "]"); CHECKM(p.birth_ind < dim[p.birth] && p.death_ind < dim[p.death], w << ": index of bar out of range"); CHECKM(st.insert({p.birth, p.birth_ind}).second && en.insert({p.death, p.death_ind}).second, w << ": two bars share a basis index"); ++r[{p.birth, p.death}]; } return r;
}
// random maps of controlled rank so that long bars occur
template <int P> DM<P> genMap(Src& s, size_t m, size_t n) { if (!m || !n) return DM<P>(m, n); if (P == 0) { DM<P> r(m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r(i, j) = Z<P>(s.coin(1, 2) ? 0 : s.coin() ? 1 : -1); return r; } int k = s.draw(5); if (k == 0) return genMat<P>(s, m, n); if (k == 1) { DM<P> r(m, n); auto a = s.perm(m), b = s.perm(n); for (size_t i = 0; i < std::min(m, n); ++i) if (!s.coin(1, 4)) r(a[i], b[i]) = Z<P>(1); return r; } size_t r = s.range(k == 5 ? 1 : 0, std::min(m, n)); if (k >= 3) r = std::min(m, n); if (!r) return DM<P>(m, n); if (k == 2) return genMat<P>(s, m, r) * genMat<P>(s, r, n); DM<P> q(m, n); auto L = genInv<P>(s, m), U = genInv<P>(s, n); for (size_t i = 0; i < r; ++i) q(i, i) = Z<P>(1); return L * q * U; }
template <int P> Quiver<P> genQuiver(Src& s, size_t len, size_t maxd) {
    Quiver<P> q; int mode = s.draw(3); for (size_t i = 0; i < len; ++i) q.dim.push_back(mode == 0 ? (size_t)s.range(0, maxd) : mode == 1 ? maxd : (size_t)s.range(1, maxd)); int dm = s.draw(3); for (size_t i = 0; i + 1 < len; ++i) { bool r = dm == 0 ? true : dm == 1 ? false : dm == 2 ? i % 2 == 0 : s.coin(); q.right.push_back(r); q.f.push_back(r ? genMap<P>(s, q.dim[i + 1], q.dim[i]) : genMap<P>(s, q.dim[i], q.dim[i + 1])); }
    s.note << "p" << P; for (size_t i = 0; i < len; ++i) { s.note << " " << q.dim[i]; if (i + 1 < len) s.note << (q.right[i] ? " ->" : " <-") << q.f[i]; } return q;
}
template <int P> bats::Diagram<void*, M<P>> diag(const Quiver<P>& q) { size_t n = q.dim.size(); bats::Diagram<void*, M<P>> A(n, n - 1); for (size_t i = 0; i + 1 < n; ++i) A.set_edge(i, q.right[i] ? i : i + 1, q.right[i] ? i + 1 : i, toMat<P>(q.f[i])); return A; }
template <class D> std::vector<bats::PersistencePair<size_t>> algo(const D& A, int a, size_t h) { switch (a) { case 0: return bats::barcode(A, h, bats::flags::rightward()); case 1: return bats::barcode(A, h, bats::flags::leftward()); case 2: return bats::barcode(A, h, bats::flags::divide_conquer()); default: return bats::barcode(A, h); } }
static const char* algoName[] = {"rightward", "leftward", "divide and conquer", "default"};
static const int threads[] = {1, 4, 8, 2, 5};
template <int P> void checkAll(Src& s, const Quiver<P>& q, const BarCount& want, const std::string& w) { auto A = diag(q); size_t h = s.draw(2); for (int a = 0; a < 4; ++a) { int t = threads[s.draw(4)]; if (a >= 2) { omp_set_num_threads(t); } auto r = count(algo(A, a, h), h, q.dim, w + algoName[a]); CHECKM(r == want, w << algoName[a] << (a >= 2 ? " with " + std::to_string(t) + " threads" : "") << " gives " << showBars(r) << " expected " << showBars(want)); } omp_set_num_threads(1); }
static bool rich(const BarCount& b, const std::vector<bool>& dir) { bool lng = false, l = false, r = false, inner = false; for (auto& p : b) { lng |= p.first.second - p.first.first >= 3; inner |= p.first.first > 0 && p.first.second + 1 < dir.size() + 1 && p.first.second > p.first.first; } for (bool x : dir) (x ? r : l) = true; return lng && inner && l && r; }
PROP(short_diagrams, "2-7 spaces of dimension 0-5 over every field (rationals: 0/±1 entries, at most 4 spaces of dimension 3) with maps of any rank and direction (one-directional, alternating, arbitrary): every algorithm at 1, 2, 4, 5 or 8 threads gives the interval counts of the generalised ranks, with valid distinct basis indices at both ends; non-trivial: both directions, a bar over at least 4 nodes and a longer-than-one bar with both ends inside", 8000, 120000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; bool wide = P && s.coin(1, 80); size_t len = s.range(2, wide ? 4 : P ? 7 : 4); auto q = genQuiver<P>(s, len, wide ? s.range(6, 14) : P ? s.range(1, 5) : s.range(1, 3)); auto want = quiverBars<P>(q.dim, q.f, q.right); checkAll<P>(s, q, want, ""); s.nontrivial(rich(want, q.right)); });
}
PROP(long_diagrams, "8-26 spaces of dimension 0-4 over finite fields (deep enough for the divide-and-conquer recursion on both sides): as above; non-trivial: as above", 3000, 60000) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t len = s.coin(1, 60) ? s.range(27, 60) : s.range(8, 26); auto q = genQuiver<P>(s, len, s.range(1, 4)); auto want = quiverBars<P>(q.dim, q.f, q.right); checkAll<P>(s, q, want, ""); s.nontrivial(rich(want, q.right)); if (len >= 14) s.label("two levels of recursion"); });
}
PROP(known_decomposition, "a direct sum of chosen intervals conjugated by random changes of basis at every node, lengths 2-30, multiplicities up to 4: the barcode is exactly the chosen multiset for every algorithm; non-trivial: both directions, at least three different intervals, one covering at least 4 nodes and one with both ends inside", 4000, 80000) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t len = s.coin() ? s.range(2, 10) : s.range(8, 30); Quiver<P> q; BarCount want; std::vector<std::pair<size_t, size_t>> bars; size_t nb = s.coin(1, 50) ? s.range(7, 24) : s.range(1, 6); for (size_t i = 0; i < nb; ++i) { size_t a = s.range(0, len - 1), b = s.coin() ? std::min<size_t>(len - 1, a + s.draw(6)) : s.range(a, len - 1); for (long m = s.coin(1, 4) ? s.range(1, 3) : 1; m; --m) { bars.push_back({a, b}); ++want[{a, b}]; } } std::vector<std::vector<size_t>> at(len); for (size_t i = 0; i < bars.size(); ++i) for (size_t k = bars[i].first; k <= bars[i].second; ++k) at[k].push_back(i); for (auto& x : at) { auto p = s.perm(x.size()); std::vector<size_t> y; for (auto i : p) y.push_back(x[i]); x = y; } std::vector<DM<P>> B; for (size_t k = 0; k < len; ++k) { q.dim.push_back(at[k].size()); B.push_back(genInv<P>(s, at[k].size())); } int dm = s.draw(2);
        s.note << "p" << P << " " << showBars(want); for (size_t k = 0; k + 1 < len; ++k) { bool r = dm == 0 ? k % 2 : dm == 1 ? k % 2 == 0 : s.coin(); q.right.push_back(r); s.note << (r ? ">" : "<"); size_t a = r ? k : k + 1, b = r ? k + 1 : k; DM<P> f(at[b].size(), at[a].size()); for (size_t i = 0; i < at[b].size(); ++i) for (size_t j = 0; j < at[a].size(); ++j) if (at[b][i] == at[a][j]) f(i, j) = Z<P>(1); q.f.push_back(at[a].empty() || at[b].empty() ? f : B[b] * f * B[a].inverse()); }
        checkAll<P>(s, q, want, ""); s.nontrivial(rich(want, q.right) && want.size() >= 3); });
}
PROP(all_dimensions, "diagrams whose edges carry one map per degree (1-3 degrees): barcode of all degrees at once is the union of the barcodes of each degree, tagged with it, for every algorithm; barcode_equality agrees with comparing multisets, also on altered lists; non-trivial: at least 2 degrees with different barcodes", 3000, 30000) {
    withFiniteField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t nd = s.range(1, 3), len = s.range(2, 9); std::vector<Quiver<P>> qs; for (size_t k = 0; k < nd; ++k) { auto q = genQuiver<P>(s, len, 3); if (k) { q.dim.clear(); q.f.clear(); q.right = qs[0].right; for (size_t i = 0; i < len; ++i) q.dim.push_back(s.range(0, 3)); for (size_t i = 0; i + 1 < len; ++i) q.f.push_back(q.right[i] ? genMap<P>(s, q.dim[i + 1], q.dim[i]) : genMap<P>(s, q.dim[i], q.dim[i + 1])); } qs.push_back(q); }
        bats::Diagram<void*, std::vector<M<P>>> A(len, len - 1); for (size_t i = 0; i + 1 < len; ++i) { std::vector<M<P>> v; for (auto& q : qs) v.push_back(toMat<P>(q.f[i])); A.set_edge(i, qs[0].right[i] ? i : i + 1, qs[0].right[i] ? i + 1 : i, v); }
        std::vector<bats::PersistencePair<size_t>> ps[4]; ps[0] = bats::barcode(A, bats::flags::rightward()); ps[1] = bats::barcode(A, bats::flags::leftward()); ps[2] = bats::barcode(A, bats::flags::divide_conquer()); ps[3] = bats::barcode(A); std::vector<BarCount> want; size_t tot = 0; for (auto& q : qs) { want.push_back(quiverBars<P>(q.dim, q.f, q.right)); for (auto& p : want.back()) tot += p.second; } for (int a = 0; a < 4; ++a) { CHECKM(ps[a].size() == tot, algoName[a] << ": number of bars"); for (size_t k = 0; k < nd; ++k) { auto r = count(ps[a], k, qs[k].dim, algoName[a]); CHECKM(r == want[k], algoName[a] << " degree " << k << ": " << showBars(r) << " expected " << showBars(want[k])); } CHECK(bats::barcode_equality(ps[0], ps[a])); auto B = bats::extract_dimension(A, nd - 1); CHECK(B.nnode() == len && B.nedge() == len - 1); for (size_t i = 0; i + 1 < len; ++i) CHECK(matOf<P>(B.edge_data(i), "extracted") == qs[nd - 1].f[i] && B.edge_source(i) == A.edge_source(i) && B.edge_target(i) == A.edge_target(i)); }
        auto key = [](const std::vector<bats::PersistencePair<size_t>>& v) { std::multiset<std::tuple<size_t, size_t, size_t>> r; for (auto& p : v) r.insert({p.dim, p.birth, p.death}); return r; }; auto x = ps[0]; auto o = s.perm(x.size()); std::vector<bats::PersistencePair<size_t>> y; for (auto i : o) y.push_back(x[i]); if (!y.empty() && s.coin()) { size_t i = s.draw(y.size() - 1), j = s.draw(y.size() - 1); switch (s.draw(3)) { case 0: y[i] = y[j]; break; case 1: y[i].death += 1; break; case 2: y[i].dim ^= 1; break; default: y.pop_back(); } } CHECKM(bats::barcode_equality(x, y) == (key(x) == key(y)) && bats::barcode_equality(y, x) == (key(x) == key(y)), "barcode_equality"); s.nontrivial(nd >= 2 && want[0] != want[1]); });
}
PBT_MAIN("C27")
