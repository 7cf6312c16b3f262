// C35 Discrete Morozov, oscillating Rips and union zigzags are built as specified
#include "geomgen.hpp"
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::Diagram<std::set<size_t>, std::vector<size_t>> SetD; typedef std::map<std::pair<size_t, size_t>, long> BarCount;
struct Threads { Threads(Src& s) { omp_set_num_threads(s.coin(1, 3) ? (int)s.range(2, 4) : 1); } ~Threads() { omp_set_num_threads(1); } };
static std::string showB(const BarCount& m) { std::ostringstream o; for (auto& q : m) o << "[" << q.first.first << "," << q.first.second << "]x" << q.second << " "; return o.str(); }
// nodes alternate; edges 2i: 2i -> 2i+1, 2i+1: 2i+2 -> 2i+1, all of them position maps of subsets
static void alternating(const SetD& S, size_t N) { CHECKM(S.nnode() == N && S.nedge() + 1 == N, "diagram has " << S.nnode() << " nodes and " << S.nedge() << " edges, expected " << N << " nodes"); for (size_t j = 0; j + 1 < N; ++j) { size_t a = j % 2 ? j + 1 : j, b = j % 2 ? j : j + 1; CHECKM(S.edge_source(j) == a && S.edge_target(j) == b, "edge " << j << " goes from " << S.edge_source(j) << " to " << S.edge_target(j)); auto &A = S.node[a], &B = S.node[b]; CHECKM(std::includes(B.begin(), B.end(), A.begin(), A.end()), "edge " << j << " is not an inclusion"); std::vector<size_t> w; for (auto x : A) w.push_back((size_t)std::distance(B.begin(), B.find(x))); CHECKM(S.edata[j] == w, "map of edge " << j << " is " << pbt::show(S.edata[j]) << " expected " << pbt::show(w)); } }
static bool near_(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::fabs(b)); }
PROP(morozov_indices, "decreasing radius sequences with ties and zeros, multipliers and dimensions: kept positions start at the first and are exactly those whose radius drops by the factor of the paper; non-trivial: a position is skipped and a later one kept", 10000, 100000) {
    size_t n = bigN(s, 1, 12, 60); std::vector<double> h(n); long v = s.range(0, 60); for (auto& x : h) { x = (double)v / 4; v = std::max(0l, v - s.range(0, 12)); } double rho = (double)s.range(1, 60) / 2, th = s.pick(std::vector<double>{0.5, 0.577, 0.612, 0.7}); s.note << pbt::show(h) << " rho " << rho << " theta " << th; double eta = (3 * rho + 20) / (10 * th * rho + 20); std::vector<size_t> w{0}; for (size_t i = 1; i < n; ++i) { double b = eta * h[w.back()]; if (b > 0 && near_(h[i], b, 1e-9)) throw pbt::Discard{}; if (h[i] <= b) w.push_back(i); } auto g = bats::get_dM_ZZ_inds(h, rho, th); CHECKM(g == w, "kept " << pbt::show(g) << " expected " << pbt::show(w)); bool nt = false; for (size_t i = 1; i < w.size(); ++i) nt |= w[i] > w[i - 1] + 1; s.nontrivial(nt);
}
template <class T> struct Cloud { Pts p; size_t n, d; int m; };
template <class T> Cloud<T> genCloud(Src& s, size_t maxn) { Cloud<T> c; c.n = s.sized(1, maxn); c.d = s.range(1, 3); c.m = (int)s.draw(3); if (c.m == 3) c.m = 5; s.note << metricName(c.m) << " "; c.p = genPts(s, c.n, c.d, c.m >= 3); for (auto& x : c.p) for (auto& y : x) y = (double)(T)y; return c; }
template <class T, class Met> bats::DataSet<T> dataOf(const Cloud<T>& c, const Met& dist, Pts& D) { bats::Matrix<T> B(c.n, c.d); for (size_t i = 0; i < c.n; ++i) for (size_t j = 0; j < c.d; ++j) B(i, j) = (T)c.p[i][j]; bats::DataSet<T> X(B); D.assign(c.n, std::vector<double>(c.n)); for (size_t i = 0; i < c.n; ++i) for (size_t j = 0; j < c.n; ++j) D[i][j] = (double)dist(X[i], X[j]); return X; }
static double cover(const Pts& D, const std::set<size_t>& S) { double r = 0; for (size_t i = 0; i < D.size(); ++i) if (!S.count(i)) { double v = 1e300; for (auto j : S) v = std::min(v, D[j][i]); r = std::max(r, v); } return r; }
// oscillating zigzag: P_0 at eta e_0 -> P_1 at rho e_0 <- P_1 at eta e_1 -> ...
template <class T> void checkOsc(const Pts& D, const SetD& S, const std::vector<T>& r, double rho, double eta) {
    size_t n = D.size(); double tol = std::is_same<T, float>::value ? 1e-4 : 1e-7; alternating(S, 2 * n - 1); CHECK(r.size() == 2 * n - 1); std::set<size_t> P; for (size_t i = 0; i < n; ++i) { auto& Q = S.node[2 * i]; CHECKM(Q.size() == i + 1 && *Q.rbegin() < n && std::includes(Q.begin(), Q.end(), P.begin(), P.end()), "set " << 2 * i << " is " << pbt::show(Q)); double e0 = i ? cover(D, P) : 0; if (i) { CHECKM(S.node[2 * i - 1] == Q, "sets " << 2 * i - 1 << " and " << 2 * i << " differ"); size_t x = 0; for (auto y : Q) if (!P.count(y)) x = y; double dx = 1e300; for (auto j : P) dx = std::min(dx, D[j][x]); CHECKM(dx >= e0 - tol, "point " << x << " is not farthest from the earlier points"); CHECKM(near_((double)r[2 * i - 1], rho * e0, tol), "parameter " << 2 * i - 1 << " is " << r[2 * i - 1] << " expected " << rho * e0); } P = Q; double e = cover(D, P); CHECKM(near_((double)r[2 * i], eta * e, tol), "parameter " << 2 * i << " is " << r[2 * i] << " expected " << eta * e); }
}
template <class T, class Met> void checkMor(const bats::DataSet<T>& X, const Met& dist, size_t d, const Pts& D, const SetD& S, const std::vector<T>& r, double rho) {
    CHECK(S.nnode() >= 1 && S.node[0].size() == 1); auto [ord, h] = bats::greedy_landmarks_hausdorff(X, dist, *S.node[0].begin()); double tol = std::is_same<T, float>::value ? 1e-4 : 1e-9; double th = std::sqrt((double)d / (2.0 * ((double)d + 1))), eta = (3 * rho + 20) / (10 * th * rho + 20); std::vector<size_t> w{0}; std::vector<double> e; { std::set<size_t> P; for (auto i : ord) { P.insert(i); e.push_back(cover(D, P)); } } for (size_t i = 1; i < e.size(); ++i) { double b = eta * e[w.back()]; if (b > 0 && near_(e[i], b, tol)) throw pbt::Discard{}; if (e[i] <= b) w.push_back(i); }
    CHECKM(S.nnode() == 2 * w.size() - 1, "zigzag has " << S.nnode() << " sets, expected " << 2 * w.size() - 1); alternating(S, 2 * w.size() - 1); CHECK(r.size() == S.nnode()); for (size_t j = 0; j < S.nnode(); ++j) { size_t c = w[(j + 1) / 2], q = w[j / 2]; std::set<size_t> P(ord.begin(), ord.begin() + c + 1); CHECKM(S.node[j] == P, "set " << j << " is " << pbt::show(S.node[j]) << " expected " << pbt::show(P)); CHECKM(near_((double)r[j], rho * e[q], std::max(tol, 1e-7)), "parameter " << j << " is " << r[j] << " expected " << rho * e[q]); } CHECK(S.node[S.nnode() - 1].size() == X.size()); (void)h;
}
template <class T> void setsCase(Src& s) { auto c = genCloud<T>(s, 9); double rho = (double)s.range(2, 40) / 2, eta = (double)s.range(0, (long)(2 * rho)) / 2; s.note << " rho " << rho << " eta " << eta; std::set<std::vector<double>> u(c.p.begin(), c.p.end()); withMetric(c.m, [&](auto dist) { Pts D; auto X = dataOf<T>(c, dist, D); { auto [S, r] = bats::OscillatingRipsZigzagSets(X, dist, (T)rho, (T)eta); checkOsc(D, S, r, rho, eta); } CHECK(pbt::throws([&] { bats::OscillatingRipsZigzagSets(X, dist, (T)rho, (T)(rho + 0.5)); })); auto [S, r] = bats::DiscreteMorozovZigzagSets(X, dist, (T)rho); checkMor(X, dist, c.d, D, S, r, rho); s.nontrivial(S.nnode() > 3 && S.nnode() < 2 * c.n - 1); if (u.size() < c.n) s.label("duplicate points"); }); }
PROP(set_zigzags, "1 to 9 points in 1 to 3 dimensions (ties and duplicate points), four metrics, double and float, multipliers: oscillating and discrete Morozov zigzags have the stated subsets, parameters, edge directions and inclusions, every point included at the end; eta above rho is an error; non-trivial: the Morozov zigzag has at least 3 set sizes but skips some", 8000, 100000) { if (s.coin(3, 4)) setsCase<double>(s); else setsCase<float>(s); }
template <int P> void homologyCase(Src& s) {
    auto c = genCloud<double>(s, 7); bool mor = s.coin(); double rho = (double)s.range(2, mor ? 24 : 6) / 2, eta = (double)s.range(1, (long)(2 * rho)) / 2; size_t hdim = s.range(0, 1), dmax = hdim + 1; s.note << (mor ? " Morozov" : " oscillating") << " rho " << rho << " eta " << eta << " H" << hdim;
    withMetric(c.m, [&](auto dist) { Pts D; auto X = dataOf<double>(c, dist, D); Threads th(s); auto [SD, r] = mor ? bats::DiscreteMorozovZigzagSets(X, dist, rho) : bats::OscillatingRipsZigzagSets(X, dist, rho, eta); if (mor) checkMor(X, dist, c.d, D, SD, r, rho); else checkOsc(D, SD, r, rho, eta); size_t N = SD.nnode(); double rm = *std::max_element(r.begin(), r.end()); auto all = cliques(D, rm, dmax); std::vector<Spx> v; for (auto& q : all) v.push_back(q.first); byDim(v); auto cells = cellsOf(v); Cx<P> C = cxOf<P>(v); cells.resize(dmax + 1); while (C.d.size() < dmax + 1) C.d.push_back(DM<P>(C.d.back().n, 0)); std::vector<Mask> ms; std::vector<bool> g;
        bats::Diagram<SC, bats::CellularMap> T; if (mor && s.coin()) { auto t = bats::DiscreteMorozovZigzag(X, dist, rho, dmax); T = std::get<0>(t); CHECKM(std::get<1>(t) == r, "parameters of the zigzag of complexes differ"); } else T = bats::Rips(SD, X, dist, r, dmax); CHECK(T.nnode() == N && T.nedge() + 1 == N);
        for (size_t i = 0; i < N; ++i) { std::map<Spx, double> want; std::map<size_t, size_t> loc; for (auto x : SD.node[i]) loc.insert({x, loc.size()}); Mask m; for (auto& cc : cells) { m.emplace_back(); for (auto& q : cc) { bool in = all[q] <= r[i] || q.size() == 1; for (auto x : q) in &= loc.count(x) > 0; m.back().push_back(in); if (in) { Spx t; for (auto x : q) t.push_back(loc[x]); want[t] = 0; } } } ms.push_back(m); sameCells(T.node[i], want, "Rips complex of node " + std::to_string(i)); }
        for (size_t j = 0; j + 1 < N; ++j) { size_t a = j % 2 ? j + 1 : j, b = j % 2 ? j : j + 1; g.push_back(b == j + 1); CHECK(T.edge_source(j) == a && T.edge_target(j) == b); auto &A = T.node[a], &B = T.node[b]; for (size_t k = 0; k <= A.maxdim() && k <= B.maxdim(); ++k) for (size_t i = 0; i < A.ncells(k); ++i) { auto q = A.get_simplex(k, i); std::vector<size_t> t; for (auto x : q) t.push_back(SD.edata[j][x]); size_t w = B.find_idx(t); CHECK(w != bats::NO_IND); auto& col = T.edata[j][k][i]; CHECKM(col.nnz() == 1 && col.nzbegin()->ind == w && col.nzbegin()->val == 1, "edge " << j << " does not include simplex " << pbt::show(q)); } }
        if (N < 2) return; BarCount want; for (auto& q : subcomplexBars(C, ms, g, hdim)) if (q.second) want[q.first] += q.second; auto CD = bats::Chain(T, orc::F<P>()); auto Hd = bats::Hom(CD, hdim); auto chk = [&](const auto& ps, const char* w) { BarCount b; for (auto& p : ps) ++b[{(size_t)p.birth, (size_t)p.death}]; CHECKM(b == want, w << ": bars are " << showB(b) << " expected " << showB(want)); }; chk(bats::barcode(Hd, hdim), "barcode"); chk(bats::barcode(Hd, hdim, bats::flags::divide_conquer()), "divide and conquer barcode"); auto RH = bats::RipsHom(SD, X, dist, r, hdim, orc::F<P>()); chk(bats::barcode(RH, hdim), "barcode of RipsHom"); bool part = false; for (auto& q : want) part |= q.first.second > q.first.first && q.first.second - q.first.first + 1 < N; s.nontrivial(part); if (hdim && part) s.label("degree-1 bar over part of the zigzag"); });
}
PROP(homology, "up to 7 points, both zigzags with Rips complexes of dimension 1 and 2, 1 to 4 threads, F2 and F3: the complexes at every node, inclusions at every edge, and barcodes (default, divide and conquer, RipsHom) equal to the dense decomposition of the sequence of subcomplexes; non-trivial: a bar over more than one but not all nodes", 4000, 50000) { if (s.coin()) homologyCase<2>(s); else homologyCase<3>(s); }
PBT_MAIN("C35")
