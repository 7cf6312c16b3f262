// C33 Writing and reading back restores the same object
#include "complexgen.hpp"
#include <filesystem>
#include <omp.h>
#include <util/io.hpp>
using pbt::Src; using namespace orc;
typedef bats::SimplicialComplex SC; typedef bats::CubicalComplex CC; typedef SparseVector<int, size_t> VI; typedef ColumnMatrix<VI> MI;
struct Dir { std::string path; Dir() { const char* t = getenv("TMPDIR"); std::string b = std::string(t && *t ? t : "/tmp") + "/bats-io-XXXXXX"; std::vector<char> v(b.begin(), b.end()); v.push_back(0); if (!mkdtemp(v.data())) throw std::runtime_error("cannot create a scratch directory"); path = v.data(); } ~Dir() { std::error_code e; std::filesystem::remove_all(path, e); } std::string operator()(const char* f) const { return path + "/" + f; } };
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template <class T> T genEntry(Src& s) { if constexpr (std::is_same<T, long>::value) return s.coin(1, 4) ? (long)s.range(-1, 1) * 5000000000l + s.range(1, 9) : s.coin() ? s.range(1, 9) : -s.range(1, 9); else if constexpr (std::is_same<T, int>::value) return (int)(s.coin(1, 6) ? (s.coin() ? 2147483647l : -2147483647l) : s.coin() ? s.range(1, 99) : -s.range(1, 99)); else return T(s.coin() ? (double)s.range(1, 99) / 4 : -(double)s.range(1, 99) / 8); }
template <class T> SparseVector<T, size_t> genVecT(Src& s, size_t m, bool big) { std::vector<size_t> ind; std::vector<T> val; for (size_t i = 0; i < m; ++i) if (s.coin()) { ind.push_back(i); val.push_back(genEntry<T>(s)); } if (big && s.coin(1, 3)) { ind.push_back(m + 6000000000ul); val.push_back(genEntry<T>(s)); } s.note << pbt::show(ind) << pbt::show(val); return SparseVector<T, size_t>(ind, val); }
template <class V> void sameVec(const V& a, const V& b, const std::string& w) { CHECKM(a.nnz() == b.nnz(), w << ": " << b.nnz() << " entries read, " << a.nnz() << " written"); auto x = a.nzbegin(), y = b.nzbegin(); for (; x != a.nzend(); ++x, ++y) CHECKM(x->ind == y->ind && x->val == y->val, w << ": entry " << x->ind << " reads back as " << y->ind << " with another value"); CHECK(a == b); }
template <class Mx> void sameMat(const Mx& a, const Mx& b, const std::string& w) { CHECKM(a.nrow() == b.nrow() && a.ncol() == b.ncol(), w << ": " << b.nrow() << "x" << b.ncol() << " read, " << a.nrow() << "x" << a.ncol() << " written"); for (size_t j = 0; j < a.ncol(); ++j) sameVec(a[j], b[j], w); CHECK(a == b); }
template <class V> void vecIO(V v) { std::string t = v.str(); V r(t); sameVec(v, r, "vector from string"); CHECK(r.str() == t); std::ostringstream o; v.write(o); std::string u = o.str(); CHECK(u == t); if (!u.empty()) u.pop_back(); V q(u); sameVec(v, q, "vector from line without newline"); }
template <class Mx> void matIO(Src& s, const Mx& A, const Mx& B) {
    Mx a = A; std::string t = a.str(); { std::istringstream i(t); Mx r(i); sameMat(A, r, "matrix from string"); CHECK(r.str() == t); } { std::ostringstream o; A.write(o); B.write(o); A.write(o); std::istringstream i(o.str()); Mx x(i), y(i), z(i); sameMat(A, x, "first matrix of a stream"); sameMat(B, y, "second matrix of a stream"); sameMat(A, z, "third matrix of a stream"); Mx again = B; std::istringstream j(t); again.read(j); sameMat(A, again, "matrix read over another"); }
    if (s.coin(1, 3)) { Dir d; std::string f = d("m"); A.save(f); Mx r(f); sameMat(A, r, "matrix from file"); B.save(f); Mx q(f); sameMat(B, q, "matrix from overwritten file"); }
}
PROP(fields, "sparse vectors and matrices of shapes 0-6 (empty columns and rows) over F2, F3, F5 and the rationals: string, stream (several in a row) and file round trips; non-trivial: a non-zero matrix that is not square", 15000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; size_t m = bigN(s, 0, 6, 30), n = bigN(s, 0, 6, 30); auto a = genMat<P>(s, m, n), b = genMat<P>(s, n, m); if constexpr (P == 0) { for (auto* d : {&a, &b}) for (size_t i = 0; i < d->m; ++i) for (size_t j = 0; j < d->n; ++j) if (s.coin(1, 3)) (*d)(i, j) = Z<0>(s.range(-7, 7)) / Z<0>(s.range(1, 6)); } auto A = toMat<P>(a), B = toMat<P>(b); for (size_t j = 0; j < n; ++j) vecIO(A[j]); matIO(s, A, B); s.nontrivial(m != n && a.rank() > 0); });
}
PROP(numbers, "integer, long and floating vectors and matrices (negative and extreme values, indices beyond 32 bits): round trips as above; non-trivial: a vector with at least 2 entries", 15000, 200000) {
    auto run = [&](auto z) { using T = decltype(z); size_t m = bigN(s, 0, 6, 30), n = bigN(s, 0, 5, 30); auto v = genVecT<T>(s, m, true); vecIO(v); std::vector<SparseVector<T, size_t>> c, d; for (size_t j = 0; j < n; ++j) c.push_back(genVecT<T>(s, m, false)); d = c; std::reverse(d.begin(), d.end()); if (n) d.pop_back(); matIO(s, ColumnMatrix<SparseVector<T, size_t>>(m, n, c), ColumnMatrix<SparseVector<T, size_t>>(m, d.size(), d)); s.nontrivial(v.nnz() > 1); }; switch (s.draw(2)) { case 0: run((int)0); break; case 1: run((long)0); break; default: run((double)0); }
}
static void sameCx(const SC& a, const SC& b, const std::string& w) { size_t md = std::max(a.maxdim(), b.maxdim()); CHECKM(a.ncells() == b.ncells(), w << ": " << b.ncells() << " cells read, " << a.ncells() << " written"); CHECK(b.maxdim() <= a.maxdim()); for (size_t k = 0; k <= md; ++k) { size_t na = k <= a.maxdim() ? a.ncells(k) : 0, nb = k <= b.maxdim() ? b.ncells(k) : 0; CHECKM(na == nb, w << ": " << nb << " cells of dimension " << k << " read, " << na << " written"); for (size_t i = 0; i < na; ++i) { CHECKM(a.get_simplex(k, i) == b.get_simplex(k, i), w << ": simplex " << i << " of dimension " << k << " is " << pbt::show(b.get_simplex(k, i)) << " expected " << pbt::show(a.get_simplex(k, i))); CHECK(b.find_idx(a.get_simplex(k, i)) == i); } if (k && na) { auto x = a.boundary_csc(k), y = b.boundary_csc(k); CHECKM(MI(x) == MI(y), w << ": boundary in dimension " << k); } } }
static SC genSC(Src& s) { size_t n = bigN(s, 0, 6, 12); if (!n) { s.note << " empty"; return s.coin() ? SC() : SC(3, 2); } std::vector<size_t> lab(n); size_t x = 0; bool gap = s.coin(1, 3); for (auto& l : lab) { l = x; x += gap ? s.range(1, 50) : 1; } auto v = linearExtension(s, genComplex(s, n, 3, 5, s.coin())); for (auto& q : v) for (auto& i : q) i = lab[i]; s.note << showTops(v); SC c(x + 1, s.coin() ? 3 : std::max<size_t>(1, [&] { size_t d = 0; for (auto& q : v) d = std::max(d, q.size() - 1); return d; }())); for (auto q : v) c.add(q); return c; }
PROP(complexes, "simplicial complexes (empty ones, gaps in the vertex labels, any insertion order) saved to a file and loaded: the same simplices at the same indices with the same boundaries; saving the loaded one writes the same file; non-trivial: a triangle", 5000, 50000) { Dir d; auto c = genSC(s); std::string f = d("x"); c.save(f); SC r(d("x")); sameCx(c, r, "complex"); auto t = slurp(f); r.save(f); CHECKM(slurp(f) == t, "saving the loaded complex writes another file"); s.nontrivial(c.maxdim() > 1 && c.ncells(2)); }
static MI genMI(Src& s, size_t m, size_t n) { std::vector<VI> c; for (size_t j = 0; j < n; ++j) { std::vector<size_t> i; std::vector<int> v; for (size_t k = 0; k < m; ++k) if (s.coin(1, 3)) { i.push_back(k); v.push_back(s.coin() ? (int)s.range(1, 9) : -(int)s.range(1, 9)); } c.push_back(VI(i, v)); } return MI(m, n, c); }
static void sameMap_(const bats::CellularMap& a, const bats::CellularMap& b, size_t dims, const std::string& w) { CHECKM(b.maxdim() + 1 == dims && a.maxdim() + 1 == dims, w << ": " << b.maxdim() + 1 << " dimensions read, " << dims << " written"); for (size_t k = 0; k < dims; ++k) sameMat(a[k], b[k], w + " in dimension " + std::to_string(k)); }
PROP(cell_maps, "cellular maps with 0 to 4 dimensions of any shape (no rows, no columns), inclusions and simplicial maps: the loaded map has the same matrices in the same dimensions; non-trivial: at least 2 dimensions with non-zero matrices", 5000, 50000) {
    Dir d; bats::CellularMap F; size_t dims = 0, nz = 0; if (s.coin(2, 3)) { dims = s.range(0, 4); if (dims) F = bats::CellularMap(dims - 1); for (size_t k = 0; k < dims; ++k) { size_t m = bigN(s, 0, 4, 20), n = bigN(s, 0, 4, 20); F[k] = genMI(s, m, n); s.note << " " << m << "x" << n; } } else { auto X = genSC(s); F = bats::CellularMap::identity(X); if (s.coin()) F = bats::CellularMap(X, X); dims = X.maxdim() + 1; } for (size_t k = 0; k < dims; ++k) for (size_t j = 0; j < F[k].ncol(); ++j) if (F[k][j].nnz()) { ++nz; break; } std::string f = d("f"); F.save(f); bats::CellularMap r(f); sameMap_(F, r, dims, "map"); auto t = slurp(f); r.save(f); CHECK(slurp(f) == t); s.nontrivial(nz > 1);
}
PROP(point_clouds, "comma-separated point files of 0 to 6 lines and 1 to 5 columns (header or not, last newline or not, double and float): as many points as lines with the coordinates of each line, usable as a data set; non-trivial: different numbers of points and coordinates, both at least 2", 5000, 50000) {
    Dir d; std::string f = d("p"); size_t n = bigN(s, 0, 6, 40), m = bigN(s, 1, 5, 20); bool head = s.coin(), last = s.coin(); s.note << n << "x" << m << (head ? " header" : "") << (last ? "" : " no newline"); std::vector<std::vector<double>> p(n, std::vector<double>(m)); { std::ofstream o(f); o.precision(17); if (head) { for (size_t j = 0; j < m; ++j) o << (j ? "," : "") << "x" << j; o << "\n"; } for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < m; ++j) { double x = s.coin(1, 4) ? (double)s.range(-1000, 1000) / 7 * 1e5 : (double)s.range(-99, 99) / 8; p[i][j] = x; o << (j ? "," : "") << x; } if (last || i + 1 < n) o << "\n"; } }
    auto chk = [&](auto z) { using T = decltype(z); auto A = bats::read_point_cloud<T>(f, head); CHECKM(A.nrow() == n && (n == 0 || A.ncol() == m), "file of " << n << " points with " << m << " coordinates reads as " << A.nrow() << "x" << A.ncol()); bats::DataSet<T> X(A); CHECK(X.size() == n && (n == 0 || X.dim() == m)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) CHECKM(X(i, j) == (T)p[i][j] && X[i](j) == (T)p[i][j], "coordinate " << j << " of point " << i << " is " << X(i, j) << " expected " << p[i][j]); }; if (s.coin(3, 4)) chk(0.0); else chk(0.0f); s.nontrivial(n != m && n > 1 && m > 1);
}
PROP(cubes, "files listing the cubes of a cubical complex (faces first, any order within a dimension) loaded into an empty complex: the same cubes at the same indices; non-trivial: a square", 4000, 40000) {
    Dir d; std::string f = d("c"); size_t D = s.range(1, 3); auto X = genCubical(s, D, 4, 3); std::vector<std::vector<std::vector<size_t>>> by(D + 1); { std::ofstream o(f); for (size_t k = 0; k <= D; ++k) { auto c = X.get_cubes(k); for (auto i : s.perm(c.size())) { by[k].push_back(c[i]); for (size_t j = 0; j < c[i].size(); ++j) o << (j ? "," : "") << c[i][j]; o << "\n"; } } } CC Y(D); Y.load_cubes(f); for (size_t k = 0; k <= D; ++k) { CHECKM(Y.ncells(k) == by[k].size(), Y.ncells(k) << " cubes of dimension " << k << " loaded, expected " << by[k].size()); for (size_t i = 0; i < by[k].size(); ++i) CHECK(Y.get_cube(k, i) == by[k][i]); } s.nontrivial(D > 1 && X.ncells(2) > 0);
}
PROP(diagrams, "diagrams of complexes and cellular maps of any shape saved with 1 to 3 threads: the metadata lists every node and edge, and every node and edge file reads back as the original; non-trivial: at least 2 edges and a loop or reversed edge", 1500, 15000) {
    omp_set_num_threads((int)s.range(1, 3)); struct R { ~R() { omp_set_num_threads(1); } } r_; Dir d; bats::Diagram<SC, bats::CellularMap> D; size_t n = bigN(s, 1, 4, 14), m = bigN(s, 0, 4, 14); bool back = false; for (size_t i = 0; i < n; ++i) D.add_node(genSC(s)); std::vector<std::pair<size_t, size_t>> e; for (size_t j = 0; j < m; ++j) { size_t a = s.range(0, n - 1), b = s.range(0, n - 1); back |= a >= b; bats::CellularMap F(std::max(D.node[a].maxdim(), D.node[b].maxdim())); for (size_t k = 0; k <= F.maxdim(); ++k) F[k] = genMI(s, k <= D.node[b].maxdim() ? D.node[b].ncells(k) : 0, k <= D.node[a].maxdim() ? D.node[a].ncells(k) : 0); D.add_edge(a, b, F); e.push_back({a, b}); s.note << " " << a << "->" << b; }
    std::string dir = d("dgm"); D.save(dir); std::ostringstream want; want << n << "\n" << m << "\n"; for (auto& q : e) want << q.first << "," << q.second << "\n"; CHECKM(slurp(dir + "/metadata") == want.str(), "metadata is " << slurp(dir + "/metadata")); size_t files = 0; for (auto& x : std::filesystem::directory_iterator(dir)) { (void)x; ++files; } CHECK(files == n + m + 1); for (size_t i = 0; i < n; ++i) { SC r(dir + "/node" + std::to_string(i)); sameCx(D.node[i], r, "node " + std::to_string(i)); } for (size_t j = 0; j < m; ++j) { std::string f = dir + "/edge" + std::to_string(j); bats::CellularMap F(f); sameMap_(D.edata[j], F, D.edata[j].maxdim() + 1, "edge " + std::to_string(j)); } s.nontrivial(m > 1 && back);
}
PROP(arguments, "command lines of 0 to 5 name=value words (repeated names, names that extend or shorten the one asked for, words without a value): number and text parameters come back as written, the first one counts, absent ones give the default; non-trivial: at least two words and the parameter is present", 20000, 200000) {
    std::vector<std::string> names{"eps", "ep", "epsilon", "n", "-n", "file", ""}; std::vector<std::string> w{"prog"}; std::vector<std::pair<std::string, std::string>> kv; size_t n = bigN(s, 0, 5, 20); bool nums = s.coin();
    for (size_t i = 0; i < n; ++i) { auto k = s.pick(names); std::string v; if (nums) { std::ostringstream o; long a = s.range(-9999, 9999); if (s.coin()) o << a; else o << a / 8.0; v = o.str(); } else { for (size_t j = 0, l = s.draw(4); j < l; ++j) v += s.pick(std::vector<std::string>{"a", "b c", "=", "/", ".", "1"}); } kv.push_back({k, v}); w.push_back(k + "=" + v); }
    std::vector<char*> av; for (auto& x : w) { av.push_back(x.data()); s.note << "[" << x << "]"; } auto ask = s.pick(names); s.note << " ask " << ask; const std::pair<std::string, std::string>* hit = nullptr; for (auto& q : kv) if (q.first == ask) { hit = &q; break; }
    if (nums) { double d = bats::util::io::parse_argv<double>((int)av.size(), av.data(), std::string(ask), -1.25); long l = bats::util::io::parse_argv<long>((int)av.size(), av.data(), std::string(ask), 77L); double e = hit ? std::stod(hit->second) : -1.25; CHECKM(d == e, "parameter " << ask << " read as " << d); CHECKEQ(l, hit ? (long)e : 77L); }
    else { std::string d = bats::util::io::parse_argv<std::string>((int)av.size(), av.data(), std::string(ask), std::string("def")); CHECKM(d == (hit ? hit->second : "def"), "parameter " << ask << " read as " << d); }
    s.nontrivial(n >= 2 && hit);
}
PBT_MAIN("C33")
