// C04 structural edit histories of sparse matrices against a dense matrix edited in lock step
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;

static std::vector<size_t> positions(Src& s, size_t n, size_t k) { auto p = s.perm(n + k); p.resize(k); std::sort(p.begin(), p.end()); if (s.coin(1, 4)) { size_t at = s.range(0, n); for (size_t i = 0; i < k; ++i) p[i] = at + i; } return p; }
template <int P> void history(Src& s) {
    typedef Z<P> z; typedef F<P> f;
    size_t m = sizeN<P>(s, 1, 9, 40, 150), n = sizeN<P>(s, 1, 9, 40, 150);
    DM<P> a = genMat<P>(s, m, n); s.note << a; M<P> A = toMat<P>(a);
    auto agree = [&](const std::string& op) {
        CHECKM(A.nrow() == a.m && A.ncol() == a.n, op << ": size " << A.nrow() << "x" << A.ncol() << " expected " << a.m << "x" << a.n);
        CHECKM(A.cols().size() == a.n, op << ": stored columns");
        DM<P> g = matOf<P>(A, op.c_str()); CHECKM(g == a, op << ": got " << g << " expected " << a);
    };
    auto insRow = [&](size_t i, const DV<P>& r) { a.a.insert(a.a.begin() + i, r); ++a.m; };
    auto insCol = [&](size_t j, const DV<P>& c) { for (size_t i = 0; i < a.m; ++i) a.a[i].insert(a.a[i].begin() + j, c[i]); ++a.n; };
    long steps = s.sized(1, 10), did = 0;
    for (long t = 0; t < steps; ++t) {
        int op = s.draw(33); size_t m = a.m, n = a.n; s.note << "; op" << op;
        bool small = m < 16 && n < 16; std::ostringstream nm; nm << "op" << op;
        switch (op) {
            case 0: case 1: { auto p = s.perm(m); s.note << " permute_rows" << pbt::show(p); if (op == 0) A.permute_rows(p);
                else { A.ipermute_rows(p); } DM<P> e = a; for (size_t i = 0; i < m; ++i) e.a[p[i]] = a.a[i]; a = e; break; }
            case 2: { auto p = s.perm(n); s.note << " permute_cols" << pbt::show(p); A.permute_cols(p); DM<P> e = a; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) e(i, p[j]) = a(i, j); a = e; break; }
            case 3: { auto p = s.perm(n); s.note << " ipermute_cols" << pbt::show(p); A.ipermute_cols(p); a = a.cols(p); break; }
            case 4: { auto p = s.perm(n); A.permute_cols(p); A.ipermute_cols(p); break; }
            case 5: { auto p = s.perm(m), q = s.perm(n); A.permute(p, q); DM<P> e = a; for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) e(p[i], q[j]) = a(i, j); a = e; break; }
            case 6: if (m) { size_t i = s.range(0, m - 1), j = s.range(0, m - 1); s.note << " swap rows " << i << j; A.swap_rows(i, j); std::swap(a.a[i], a.a[j]); } break;
            case 7: if (n) { size_t i = s.range(0, n - 1), j = s.range(0, n - 1); s.note << " swap cols " << i << j; A.swap_cols(i, j); for (auto& r : a.a) std::swap(r[i], r[j]); } break;
            case 8: if (small) { DV<P> c = genVec<P>(s, m); V<P> cv = toVec<P>(c); if (s.coin()) A.append_column(cv); else A.append_column(toVec<P>(c)); insCol(n, c); } break;
            case 9: if (small) { A.append_column(); insCol(n, DV<P>(m)); } break;
            case 10: if (small) { size_t j = s.range(0, n); DV<P> c = genVec<P>(s, m); s.note << " insert col " << j << pbt::show(c); A.insert_column(j, toVec<P>(c)); insCol(j, c); } break;
            case 11: if (small) { size_t j = s.range(0, n); s.note << " insert zero col " << j; A.insert_column(j); insCol(j, DV<P>(m)); } break;
            case 12: if (small) { size_t k = s.coin(1, 20) ? s.range(4, 12) : s.range(0, 3); auto p = positions(s, n, k); s.note << " insert cols " << pbt::show(p); std::vector<V<P>> cs; for (size_t i = 0; i < k; ++i) { DV<P> c = genVec<P>(s, m); cs.push_back(toVec<P>(c)); insCol(p[i], c); } A.insert_columns(p, cs); } break;
            case 13: if (small) { A.append_row(); insRow(m, DV<P>(n)); } break;
            case 14: if (small) { DV<P> r = genVec<P>(s, n); std::vector<f> rr; for (auto& x : r) rr.push_back(lib<P>(x)); A.append_row(rr); insRow(m, r); } break;
            case 15: if (small) { DV<P> r = genVec<P>(s, n); A.append_sparse_row(toVec<P>(r)); insRow(m, r); } break;
            case 16: if (small) { size_t i = s.range(0, m); DV<P> r = genVec<P>(s, n); s.note << " insert row " << i << pbt::show(r); std::vector<f> rr; for (auto& x : r) rr.push_back(lib<P>(x)); A.insert_row(i, rr); insRow(i, r); } break;
            case 17: if (small) { size_t i = s.range(0, m); s.note << " insert zero row " << i; A.insert_row(i); insRow(i, DV<P>(n)); } break;
            case 18: if (small) { size_t k = s.coin(1, 20) ? s.range(5, 14) : s.range(0, 4); auto p = positions(s, m, k); s.note << " insert zero rows " << pbt::show(p); A.insert_rows(p); for (auto i : p) insRow(i, DV<P>(n)); } break;
            case 19: if (small) { size_t k = s.coin(1, 20) ? s.range(5, 14) : s.range(0, 4); auto p = positions(s, m, k); s.note << " insert sparse rows " << pbt::show(p); std::vector<V<P>> rs; for (auto i : p) { DV<P> r = genVec<P>(s, n); rs.push_back(toVec<P>(r)); insRow(i, r); } if (s.coin()) A.insert_sparse_rows(p, rs); else A.insert_rows(p, rs); } break;
            case 20: if (n) { size_t j = s.range(0, n - 1); s.note << " erase col " << j; A.erase_column(j); for (auto& r : a.a) r.erase(r.begin() + j); --a.n; } break;
            case 21: if (n) { A.erase_column(); for (auto& r : a.a) r.pop_back(); --a.n; } break;
            case 22: { size_t k = s.range(0, n); if (s.coin()) { A.erase_final_columns(k); for (auto& r : a.a) r.resize(n - k); } else { A.erase_initial_cols(k); for (auto& r : a.a) r.erase(r.begin(), r.begin() + k); } a.n -= k; break; }
            case 23: if (m) { size_t i = s.range(0, m - 1); s.note << " erase row " << i; A.erase_row(i); a.a.erase(a.a.begin() + i); --a.m; } break;
            case 24: if (m) { A.erase_row(); a.a.pop_back(); --a.m; } break;
            case 25: { size_t k = s.range(0, m); s.note << " erase last rows " << k; A.erase_rows(k); a.a.resize(m - k); a.m -= k; break; }
            case 26: { size_t k = s.range(0, m); s.note << " erase first rows " << k; A.erase_initial_rows(k); a.a.erase(a.a.begin(), a.a.begin() + k); a.m -= k; break; }
            case 27: { std::vector<bool> c(m); for (size_t i = 0; i < m; ++i) { c[i] = s.coin(); if (c[i]) for (auto& x : a.a[i]) x = z(); } A.clear_rows(c); break; }
            case 28: { std::vector<bool> c(n); for (size_t j = 0; j < n; ++j) { c[j] = s.coin(); if (c[j]) for (auto& r : a.a) r[j] = z(); } A.clear_cols(c); break; }
            case 29: { auto r = s.subset(m), c = s.subset(n); if (s.coin()) { auto p = s.perm(r.size()), q = s.perm(c.size()); auto r2 = r, c2 = c; for (size_t i = 0; i < r.size(); ++i) r2[i] = r[p[i]]; for (size_t i = 0; i < c.size(); ++i) c2[i] = c[q[i]]; r = r2; c = c2; }
                s.note << " submatrix " << pbt::show(r) << pbt::show(c); M<P> S = A.submatrix(r, c); DM<P> e = a.sub(r, c); e.m = r.size(); e.n = c.size(); CHECKM(S.nrow() == r.size() && S.ncol() == c.size() && matOf<P>(S, "submatrix") == e, "submatrix"); break; }
            case 30: { size_t i0 = s.range(0, m), i1 = s.range(i0, m), j0 = s.range(0, n), j1 = s.range(j0, n); s.note << " block " << i0 << i1 << j0 << j1; std::vector<size_t> r, c; for (size_t i = i0; i < i1; ++i) r.push_back(i); for (size_t j = j0; j < j1; ++j) c.push_back(j);
                M<P> S = A.block(i0, i1, j0, j1); CHECKM(matOf<P>(S, "block") == a.sub(r, c), "block"); break; }
            case 31: case 32: { size_t i0 = s.range(0, m), i1 = s.range(i0, m), j0 = s.range(0, n), j1 = s.range(j0, n); DM<P> b = genMat<P>(s, i1 - i0, j1 - j0); s.note << " set_block " << i0 << i1 << j0 << j1 << b;
                A.set_block(i0, i1, j0, j1, toMat<P>(b)); for (size_t i = i0; i < i1; ++i) for (size_t j = j0; j < j1; ++j) a(i, j) = b(i - i0, j - j0); break; }
            default: { M<P> B = A; A.cols(); M<P> C; C = B; if (n) { B.erase_column(0); B.append_row(); } A = C; }   // copies are independent
        }
        ++did; agree(nm.str());
    }
    s.nontrivial(did >= 3);
}
PROP(histories, "matrix 1-9 x 1-9 over F2/F3/F5/Q, 1-10 structural edits of 34 kinds, dense matrix edited in lock step and compared after each; non-trivial: at least 3 edits", 600000, 10000000) {
    withField(s, [&](auto pc) { history<decltype(pc)::value>(s); });
}
PBT_MAIN("C04")
