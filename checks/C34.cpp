// C34 Results do not depend on the number of threads or on repetition
// variants: fast,asan,tsan
// flags: -Wl,--wrap=GOMP_parallel,--wrap=GOMP_parallel_sections,--wrap=GOMP_task,--wrap=GOMP_taskwait,--wrap=GOMP_taskgroup_end,--wrap=GOMP_barrier,--wrap=GOMP_loop_end,--wrap=GOMP_sections_end,--wrap=GOMP_critical_start,--wrap=GOMP_critical_end,--wrap=GOMP_critical_name_start,--wrap=GOMP_critical_name_end,--wrap=GOMP_atomic_start,--wrap=GOMP_atomic_end,--wrap=GOMP_ordered_start,--wrap=GOMP_ordered_end,--wrap=GOMP_parallel_loop_dynamic,--wrap=GOMP_parallel_loop_guided,--wrap=GOMP_parallel_loop_nonmonotonic_dynamic,--wrap=GOMP_parallel_loop_nonmonotonic_guided,--wrap=GOMP_parallel_loop_runtime,--wrap=GOMP_parallel_loop_nonmonotonic_runtime,--wrap=GOMP_parallel_loop_maybe_nonmonotonic_runtime
#include "omprace.hpp"
#include "geomgen.hpp"
#include <dirent.h>
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::Diagram<std::set<size_t>, std::vector<size_t>> SetD;
// runs the routine at one thread and then at generated thread counts, repetitions and thread delays; all results (as text) must agree
template <class F> std::string across(Src& s, const char* what, F run, size_t most = 3) {
    omp_set_num_threads(1); omprace::setSchedule(0); std::string base = run(); { std::string again = run(); CHECKM(again == base, what << ": a repetition on one thread gives " << again << " expected " << base); }
    size_t n = s.range(1, most); for (size_t i = 0; i < n; ++i) { int t = (int)s.range(2, 8); uint64_t sch = s.coin() ? s.draw(1000000) : 0; size_t reps = s.range(1, 2); s.note << " [" << t << " threads, schedule " << sch << "]"; for (size_t r = 0; r < reps; ++r) { omp_set_num_threads(t); omprace::setSchedule(sch); std::string got; try { got = run(); } catch (...) { omp_set_num_threads(1); omprace::setSchedule(0); throw; } omp_set_num_threads(1); omprace::setSchedule(0); CHECKM(got == base, what << " with " << t << " threads gives " << got.substr(0, 1500) << " expected " << base.substr(0, 1500)); } }
    return base;
}
template <class MT> void dumpM(std::ostream& o, const MT& A) { o << A.nrow() << "x" << A.ncol() << ":"; for (size_t j = 0; j < A.ncol(); ++j) { o << "|"; for (auto it = A[j].nzbegin(); it != A[j].nzend(); ++it) o << it->ind << "=" << it->val << ","; } o << ";"; }
static void dumpSC(std::ostream& o, const SC& X) { o << X.maxdim(); for (size_t k = 0; k <= X.maxdim(); ++k) { o << "/"; for (size_t i = 0; i < X.ncells(k); ++i) o << pbt::show(X.get_simplex(k, i)); } }
static void dumpMap(std::ostream& o, const bats::CellularMap& F) { for (size_t k = 0; k <= F.maxdim(); ++k) dumpM(o, F[k]); }
template <class D, class FN, class FE> std::string dumpD(const D& d, FN fn, FE fe) { std::ostringstream o; o << d.nnode() << "," << d.nedge(); for (size_t i = 0; i < d.nnode(); ++i) { o << "\nnode " << i << " "; fn(o, d.node[i]); } for (size_t j = 0; j < d.nedge(); ++j) { o << "\nedge " << d.edge_source(j) << "->" << d.edge_target(j) << " "; fe(o, d.edata[j]); } return o.str(); }
static std::string dumpCpx(const bats::Diagram<SC, bats::CellularMap>& d) { return dumpD(d, dumpSC, dumpMap); }
static std::string bars(std::vector<bats::PersistencePair<size_t>> ps) { std::map<std::vector<size_t>, long> m; for (auto& p : ps) ++m[{p.dim, p.birth, p.death}]; std::ostringstream o; for (auto& q : m) o << pbt::show(q.first) << "x" << q.second << " "; return o.str(); }
// big sparse matrices from one choice: columns with few entries, so reduction leaves both zero and non-zero columns
template <int P> M<P> bigMat(Src& s, size_t m, size_t n, size_t nz) { uint64_t x = s.draw(1u << 20); auto nx = [&] { x += 0x9e3779b97f4a7c15ull; return pbt::mix(x); }; std::vector<V<P>> c; for (size_t j = 0; j < n; ++j) { std::map<size_t, long> e; size_t k = m ? nx() % (nz + 1) : 0; size_t lim = std::max<size_t>(1, m * (nx() % 4 + 1) / 4); for (size_t i = 0; i < k; ++i) e[nx() % lim] = 1 + nx() % (P > 2 ? P - 1 : 1); std::vector<size_t> ind; std::vector<F<P>> val; for (auto& q : e) { ind.push_back(q.first); val.push_back(F<P>((int)q.second)); } c.push_back(V<P>(ind, val)); } return M<P>(m, n, c); }
template <int P> std::string pivots(const p2c_type& p, const M<P>& R) { std::ostringstream o; o << pbt::show(std::vector<size_t>(p.begin(), p.end())); dumpM(o, R); return o.str(); }
template <int P> std::vector<size_t> lowPivots(const M<P>& A) { M<P> R = A; auto p = bats::reduce_matrix_standard(R); return std::vector<size_t>(p.begin(), p.end()); }
template <int P> void reduceCase(Src& s, bool big) {
    size_t n = big ? s.range(250, 900) : s.range(1, 40), m = big ? s.range(40, 300) : s.range(1, 25); auto A = bigMat<P>(s, m, n, s.range(1, 4)); s.note << "F" << P << " " << m << "x" << n; auto low = lowPivots<P>(A);
    if (big) { auto r = across(s, "divide and conquer reduction", [&] { M<P> R = A; auto p = bats::reduce_matrix(R, bats::divide_conquer_flag()); return pivots<P>(p, R); }); M<P> R = A; auto p = bats::reduce_matrix(R, bats::divide_conquer_flag()); CHECKM(std::vector<size_t>(p.begin(), p.end()) == low, "divide and conquer reduction finds other pivots than the standard one"); }
    else { size_t blk = s.range(2, 9), dep = s.range(0, 4); s.note << " blocks " << blk << " depth " << dep; auto run = [&] { M<P> R = A; std::unordered_map<size_t, size_t> p; std::vector<size_t> nz;
            #pragma omp parallel shared(p, nz, R)
            {
                #pragma omp single nowait
                { std::tie(p, nz) = bats::reduce_block_dq(R, 0, n, blk, 0, dep); }
            }
            std::vector<size_t> v(m, bats::NO_IND); for (auto& q : p) v[q.first] = q.second; std::sort(nz.begin(), nz.end()); std::vector<size_t> want; for (size_t j = 0; j < n; ++j) if (R[j].nnz()) want.push_back(j); CHECKM(nz == want, "columns reported non-zero are " << pbt::show(nz) << " expected " << pbt::show(want)); CHECKM(v == low, "blocks give pivots " << pbt::show(v) << " expected " << pbt::show(low)); return pivots<P>(p2c_type(v.begin(), v.end()), R); }; across(s, "reduction by blocks", run, 2); }
    size_t zero = 0; for (size_t r = 0; r < m; ++r) zero += low[r] == bats::NO_IND; s.nontrivial(m - zero >= n / 8 && m - zero < n);
}
PROP(reduction_blocks, "random sparse matrices of up to 25x40 over F2, F3, block sizes 2 to 9 and depths 0 to 4, 2 to 8 threads, generated thread delays: the task-parallel reduction gives the same reduced matrix on every run and the pivots of the standard reduction; non-trivial: pivots in at least an eighth of the columns but not in all", 2500, 40000) { if (s.coin()) reduceCase<2>(s, false); else reduceCase<3>(s, false); }
PROP(reduction_big, "random sparse matrices of 250 to 900 columns (beyond the block size of the parallel reduction) over F2, F3: as above through the public flag; non-trivial: as above", 120, 3000) { if (s.coin()) reduceCase<2>(s, true); else reduceCase<3>(s, true); }
template <int P> void basisCase(Src& s) {
    bool big = s.coin(1, 20); size_t n = big ? s.range(1000, 1400) : s.range(1, 40), m = big ? s.range(100, 300) : s.range(1, 25); auto A = bigMat<P>(s, m, n, s.range(1, 3)); s.note << "F" << P << " " << m << "x" << n; auto low = lowPivots<P>(A); size_t blk = s.range(2, 9);
    auto run = [&] { M<P> R = A, U = M<P>::identity(n); std::vector<size_t> v(m, bats::NO_IND); if (big) { auto p = bats::reduce_matrix(R, U, bats::divide_conquer_flag()); v.assign(p.begin(), p.end()); } else { auto t = bats::reduce_block_dq(R, U, 0, n, blk); for (auto& q : std::get<0>(t)) v[q.first] = q.second; } CHECKM(v == low, "pivots " << pbt::show(v) << " expected " << pbt::show(low)); auto AU = A * U; CHECK(AU == R); for (size_t j = 0; j < n; ++j) CHECKM(U[j].nnz() && U[j].lastnz().ind == j && U[j].lastnz().val == F<P>(1), "column " << j << " of the basis is not unit upper triangular"); std::ostringstream o; dumpM(o, R); dumpM(o, U); return o.str(); };
    across(s, "divide and conquer reduction with basis", run, 1); s.nontrivial(n > 8);
}
PROP(reduction_with_basis, "as above with change of basis, block sizes 2 to 9 and one case in twenty of over 1000 columns through the public flag: same pair (R,U) on every run, A*U = R with U unit upper triangular, pivots of the standard reduction; non-trivial: more than 8 columns", 2500, 40000) { if (s.coin()) basisCase<2>(s); else basisCase<3>(s); }
template <int P> void partialCase(Src& s) {
    size_t n = s.range(1, 60), m = s.range(1, 25), blk = s.range(1, 70); auto A = bigMat<P>(s, m, n, s.range(1, 4)); s.note << "F" << P << " " << m << "x" << n << " blocks of " << blk; auto low = lowPivots<P>(A); bool basis = s.coin();
    auto run = [&] { M<P> R = A, U = M<P>::identity(n); if (basis) bats::partial_reduce_parallel(R, U, blk); else bats::partial_reduce_parallel(R, blk); std::ostringstream o; dumpM(o, R); if (basis) { CHECK(A * U == R); for (size_t j = 0; j < n; ++j) CHECK(U[j].nnz() && U[j].lastnz().ind == j && U[j].lastnz().val == F<P>(1)); dumpM(o, U); } for (size_t b = 0; b + blk < n; b += blk) { std::set<size_t> piv; for (size_t j = b; j < b + blk; ++j) if (R[j].nnz()) CHECKM(piv.insert(R[j].lastnz().ind).second, "block at " << b << " has two columns with pivot " << R[j].lastnz().ind); } CHECKM(lowPivots<P>(R) == low, "the partly reduced matrix has other pivots"); return o.str(); };
    across(s, "partial reduction", run, 2); s.nontrivial(n > 2 * blk && blk > 1); if (blk >= n) s.label("block no smaller than the matrix");
}
PROP(partial_reduction, "random sparse matrices of up to 25x60, blocks of 1 to 70 columns (also as big as the matrix), with and without basis: same result on every run, every whole block reduced, A*U = R, pivots of a full reduction unchanged; non-trivial: at least two blocks of several columns", 2500, 40000) { if (s.coin()) partialCase<2>(s); else partialCase<3>(s); }
template <int P> void quiverCase(Src& s) {
    size_t len = s.range(2, 40); std::vector<size_t> dim; for (size_t i = 0; i < len; ++i) dim.push_back(s.range(s.coin(1, 8) ? 0 : 1, 5)); bats::Diagram<void*, M<P>> A(len, len - 1); int dm = s.draw(3); for (size_t i = 0; i + 1 < len; ++i) { bool r = dm == 0 || (dm == 1 ? i % 2 == 0 : s.coin()); size_t a = r ? i : i + 1, b = r ? i + 1 : i; A.set_edge(i, a, b, bigMat<P>(s, dim[b], dim[a], 3)); } s.note << "F" << P << " spaces " << pbt::show(dim);
    auto b = across(s, "barcode", [&] { return bars(bats::barcode(A, 1)); }, 4); CHECKM(bars(bats::barcode(A, 1, bats::flags::rightward())) == b && bars(bats::barcode(A, 1, bats::flags::leftward())) == b, "sequential barcodes differ from " << b); s.nontrivial(len > 8); if (len > 20) s.label("more than 20 spaces");
}
PROP(quiver_barcodes, "diagrams of 2 to 40 spaces of dimension up to 5 over F2, F3 with random maps of any direction: barcode at 1 to 8 threads with generated delays, equal to the sequential sweeps; non-trivial: more than 8 spaces", 2500, 40000) { if (s.coin()) quiverCase<2>(s); else quiverCase<3>(s); }
static std::vector<std::set<size_t>> sets(Src& s, size_t n, size_t k) { std::vector<std::set<size_t>> S(k); uint64_t x = s.draw(1u << 16); for (auto& q : S) for (size_t i = 0; i < n; ++i) if (pbt::mix(++x) % 2) q.insert(i); return S; }
template <int P> void functorCase(Src& s) {
    size_t n = s.range(2, 8), k = s.range(1, 7), md = s.range(1, 2); auto S = sets(s, n, k); bool uni = s.coin(); if (!uni) for (auto& q : S) q.insert(0); for (auto& q : S) if (q.empty()) q.insert(s.range(0, n - 1)); auto SD = uni ? bats::linear_subset_union_diagram(S) : bats::linear_cover_intersection_diagram(S); auto p = genPts(s, n, 2, false); bats::Matrix<double> B(n, 2); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < 2; ++j) B(i, j) = p[i][j]; bats::DataSet<double> X(B); double r = (double)s.range(0, 40) / 8; bool many = s.coin(); std::vector<double> rs; if (many) { for (size_t i = 0; i < SD.nnode(); ++i) rs.push_back(r + (uni == (i % 2 == 1) ? 1 : 0)); } s.note << " F" << P << " " << SD.nnode() << " sets, radius " << r << (many ? " alternating" : "");
    auto rips = [&] { return many ? bats::Rips(SD, X, bats::Euclidean(), rs, md) : bats::Rips(SD, X, bats::Euclidean(), r, md); }; across(s, "Rips", [&] { return dumpCpx(rips()); }, 2); auto T = rips(); auto chain = [&](const auto& C) { return dumpD(C, [](std::ostream& o, const auto& c) { for (size_t q = 0; q <= c.maxdim(); ++q) dumpM(o, c.boundary[q]); }, [](std::ostream& o, const auto& f) { for (size_t q = 0; q <= f.maxdim(); ++q) dumpM(o, f[q]); }); };
    auto reduced = [](std::ostream& o, const auto& c) { for (size_t q = 0; q < c.R.size(); ++q) { dumpM(o, c.R[q]); dumpM(o, c.U[q]); o << pbt::show(c.I[q]); } };
    across(s, "chain functor", [&] { return chain(bats::Chain(T, orc::F<P>())); }, 2); auto C = bats::Chain(T, orc::F<P>()); size_t hd = s.range(0, md - 1); across(s, "homology functor", [&] { return dumpD(bats::Hom(C, hd), reduced, [](std::ostream& o, const M<P>& f) { dumpM(o, f); }); }, 2);
    auto H = bats::Hom(C, hd); std::string want = SD.nedge() ? bars(bats::barcode(H, hd)) : ""; if (SD.nedge()) { across(s, "homology functor in all degrees and its barcode", [&] { auto A = bats::Hom(C, true); std::string d = dumpD(A, reduced, [](std::ostream& o, const std::vector<M<P>>& f) { for (auto& q : f) dumpM(o, q); }); return d + bars(bats::barcode(A)); }, 2); }
    if (!many) across(s, "RipsHom", [&] { auto R = bats::RipsHom(SD, X, bats::Euclidean(), std::vector<double>(SD.nnode(), r), hd, orc::F<P>()); return dumpD(R, [](std::ostream& o, const auto&) {}, [](std::ostream& o, const M<P>& f) { dumpM(o, f); }) + (SD.nedge() ? bars(bats::barcode(R, hd)) : ""); }, 2);
    int deg = s.coin() ? 1 : -1; across(s, "dg functor", [&] { auto E = bats::DGLinearFunctor<M<P>>(T, deg); std::string d = dumpD(E, [](std::ostream& o, const auto& c) { for (auto& q : c.differential) dumpM(o, q); }, [](std::ostream& o, const auto& f) { for (size_t q = 0; q < f.map.size(); ++q) dumpM(o, f.map[q]); }); auto A = bats::Hom(E, true); return d + dumpD(A, [](std::ostream& o, const auto& c) { for (size_t q = 0; q < c.R.size(); ++q) { dumpM(o, c.R[q]); dumpM(o, c.U[q]); } }, [](std::ostream& o, const std::vector<M<P>>& f) { for (auto& q : f) dumpM(o, q); }) + dumpD(bats::Hom(E, hd), [](std::ostream&, const auto&) {}, [](std::ostream& o, const M<P>& f) { dumpM(o, f); }); }, 2);
    s.nontrivial(SD.nnode() >= 5 && !want.empty());
}
PROP(functors, "zigzags of up to 13 point sets: Rips, chain, dg and homology functors (one degree and all), RipsHom and barcodes at 1 to 8 threads: every node and edge identical on every run; non-trivial: at least 5 nodes and some homology", 700, 10000) { if (s.coin()) functorCase<2>(s); else functorCase<3>(s); }
PROP(nerves, "zigzags of up to 9 covers refining each other: nerve functor at 1 to 8 threads identical on every run; non-trivial: at least 5 covers", 1500, 20000) {
    size_t N = s.range(1, 9), n = s.range(1, 8), md = s.range(0, 3); std::vector<bats::Cover> c; bats::Diagram<bats::Cover, std::vector<size_t>> D(N, N - 1); std::vector<size_t> cnt; for (size_t i = 0; i < N; ++i) cnt.push_back(s.range(1, 5)); std::vector<std::vector<size_t>> f(N ? N - 1 : 0); std::vector<bats::Cover> C(N); for (size_t i = 0; i < N; ++i) { auto S = sets(s, n, cnt[i]); C[i] = bats::Cover(S); }
    std::vector<bool> dir; for (size_t j = 0; j + 1 < N; ++j) { dir.push_back(s.coin()); size_t a = dir[j] ? j : j + 1, b = dir[j] ? j + 1 : j; for (size_t x = 0; x < cnt[a]; ++x) f[j].push_back(s.range(0, cnt[b] - 1)); } for (bool ch = true; ch;) { ch = false; for (size_t j = 0; j + 1 < N; ++j) { size_t a = dir[j] ? j : j + 1, b = dir[j] ? j + 1 : j; for (size_t x = 0; x < cnt[a]; ++x) for (auto q : C[a][x]) ch |= C[b][f[j][x]].insert(q).second; } }
    for (size_t i = 0; i < N; ++i) D.set_node(i, C[i]); for (size_t j = 0; j + 1 < N; ++j) D.set_edge(j, dir[j] ? j : j + 1, dir[j] ? j + 1 : j, f[j]); s.note << N << " covers of " << n << " points"; across(s, "Nerve", [&] { return dumpCpx(bats::Nerve(D, md)); }); s.nontrivial(N >= 5);
}
template <class FT, class FN> void levelCase(Src& s, const FT& F, double lo, double hi, FN node) { double eps = (double)s.range(1, 4) / 2; s.note << " eps " << eps; size_t nn = 0; across(s, "zigzag of level sets", [&] { auto D = bats::zigzag_levelsets(F, eps, lo, hi + eps); nn = D.nnode(); return dumpD(D, node, dumpMap); }); s.nontrivial(nn >= 5); }
PROP(levelset_zigzags, "thickened functions on random simplicial complexes and images of up to 3x3x2 voxels: zigzag of level sets at 1 to 8 threads identical on every run; non-trivial: at least 5 level sets", 1500, 10000) {
    if (s.coin()) { size_t n = someN(s, 6); auto v = linearExtension(s, genComplex(s, n, 2, 5)); std::vector<double> f0; for (size_t i = 0; i < n; ++i) f0.push_back((double)s.range(-6, 6) / 2); s.note << showTops(v) << " f" << pbt::show(f0); auto F = bats::zigzag::extend_zigzag_filtration(f0, buildSC(v), 6.5); levelCase(s, F, -9, 9, dumpSC); }
    else { size_t a = s.range(1, 3), b = s.range(1, 3), c = s.range(1, 2); std::vector<std::vector<std::vector<double>>> g(a, std::vector<std::vector<double>>(b, std::vector<double>(c))); for (auto& x : g) for (auto& y : x) for (auto& z : y) z = (double)s.range(-4, 4); s.note << a << "x" << b << "x" << c; levelCase(s, bats::zigzag_toplex(g), -4, 4, [](std::ostream& o, const bats::CubicalComplex& X) { for (size_t k = 0; k <= X.maxdim(); ++k) for (size_t i = 0; i < X.ncells(k); ++i) { auto q = X.get_cube(k, i); for (auto x : q) o << x << ","; } }); }
}
PROP(neighbourhoods, "up to 40 and 12 points in 1 to 3 dimensions, four metrics: neighbour lists within a radius and of the k nearest at 1 to 8 threads identical on every run, one list per point; non-trivial: at least 8 points", 2500, 40000) {
    size_t n = s.range(1, 40), l = s.range(1, 12), d = s.range(1, 3); int m = (int)s.draw(3); if (m == 3) m = 5; s.note << n << " and " << l << " points " << metricName(m); auto mk = [&](size_t k) { auto p = genPts(s, k, d, m >= 3); bats::Matrix<double> B(k, d); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < d; ++j) B(i, j) = p[i][j]; return bats::DataSet<double>(B); }; auto X = mk(n), Y = mk(l); double r = (double)s.range(0, 40) / 10; size_t k = s.range(1, l);
    withMetric(m, [&](auto dist) { across(s, "neighborhoods within a radius", [&] { auto q = bats::neighborhoods(X, Y, dist, r); CHECKM(q.size() == n, q.size() << " lists for " << n << " points"); return pbt::show(q); }); across(s, "neighborhoods of the k nearest", [&] { auto q = bats::neighborhoods(X, Y, dist, k); CHECKM(q.size() == n, q.size() << " lists for " << n << " points"); return pbt::show(q); }); across(s, "distance matrices", [&] { bats::Matrix<double> Q = dist(X, Y), W = dist(X); std::ostringstream o; o.precision(17); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < l; ++j) o << Q(i, j) << ","; for (size_t j = 0; j < n; ++j) o << W(i, j) << ","; } return o.str(); }, 1); }); s.nontrivial(n >= 8);
}
static std::string scratch() { static std::string d; if (d.empty()) { d = pbt::g_tmp + "/c34." + std::to_string(getpid()); mkdir(d.c_str(), 0700); } return d; }
static std::string dirText(const std::string& d) { std::map<std::string, std::string> m; if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) if (e->d_name[0] != '.') { std::ifstream in(d + "/" + e->d_name); std::stringstream b; b << in.rdbuf(); m[e->d_name] = b.str(); } closedir(h); } for (auto& q : m) unlink((d + "/" + q.first).c_str()); rmdir(d.c_str()); return pbt::show(m); }
PROP(saved_diagrams, "Rips zigzags of up to 13 sets saved to a scratch directory at 1 to 8 threads: one file per node and edge plus the metadata, the same contents on every run; non-trivial: at least 5 nodes", 300, 4000) {
    size_t n = s.range(2, 6), k = s.range(1, 7); auto S = sets(s, n, k); for (auto& q : S) if (q.empty()) q.insert(0); auto SD = bats::linear_subset_union_diagram(S); auto p = genPts(s, n, 2, false); bats::Matrix<double> B(n, 2); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < 2; ++j) B(i, j) = p[i][j]; bats::DataSet<double> X(B); auto T = bats::Rips(SD, X, bats::Euclidean(), 1.0, 2); s.note << T.nnode() << " complexes"; std::string base = scratch(); across(s, "saved diagram", [&] { std::string d = base + "/d"; T.save(d); std::string t = dirText(d); size_t f = 0; for (size_t i = 0; i < T.nnode(); ++i) f += t.find("node" + std::to_string(i) + ":") != std::string::npos; for (size_t i = 0; i < T.nedge(); ++i) f += t.find("edge" + std::to_string(i) + ":") != std::string::npos; CHECKM(f == T.nnode() + T.nedge() && t.find("metadata:") != std::string::npos, "files missing: " << t); return t; }, 2); rmdir(base.c_str()); mkdir(base.c_str(), 0700); s.nontrivial(T.nnode() >= 5);
}
PBT_MAIN("C34")
