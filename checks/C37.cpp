// C37 dense matrices
// split: field
#include "oracle.hpp"
#include <cmath>
using pbt::Src; using namespace orc;
template <int P> DM<P> jc(const DM<P>& d) { DM<P> r(d.m, d.n); for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) r(d.m - 1 - i, d.n - 1 - j) = d(i, j); return r; }
template <int P> DM<P> conj(const DM<P>& d, int how) { return how == 0 ? d : how == 1 ? d.T() : how == 2 ? jc<P>(d) : jc<P>(d).T(); } // all involutions
template <int P> bool lower(const DM<P>& d) { for (size_t i = 0; i < d.m; ++i) for (size_t j = i + 1; j < d.n; ++j) if (!d(i, j).zero()) return false; return true; }
template <int P> bool fulldiag(const DM<P>& d) { if (d.m != d.n) return false; for (size_t i = 0; i < d.m; ++i) if (d(i, i).zero()) return false; return true; }
template <int P> bool isperm(const DM<P>& d) { if (d.m != d.n) return false; for (size_t i = 0; i < d.m; ++i) { size_t c = 0, r = 0; for (size_t j = 0; j < d.n; ++j) { if (!d(i, j).zero()) { ++r; if (d(i, j) != Z<P>(1)) return false; } if (!d(j, i).zero()) ++c; } if (r != 1 || c != 1) return false; } return true; }
template <int P> bool isEL(const DM<P>& d) { long last = -1; bool ended = false;
    for (size_t j = 0; j < d.n; ++j) { size_t c = 0, at = 0; for (size_t i = 0; i < d.m; ++i) if (!d(i, j).zero()) { ++c; at = i; } if (!c) { ended = true; continue; } if (ended || c > 1 || (long)at <= last) return false; last = at; } return true; }
// the entries of a library matrix (any accessor)
template <int P, class MT> DM<P> rd(const MT& a) { DM<P> r(a.nrow(), a.ncol()); for (size_t i = 0; i < r.m; ++i) for (size_t j = 0; j < r.n; ++j) r(i, j) = unlib<P>(a((int)i, (int)j)); return r; }
template <class MT, int P> MT mk(const DM<P>& d) { MT a(d.m, d.n); for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.n; ++j) a((int)i, (int)j) = lib<P>(d(i, j)); return a; }
template <class T> struct Tag { using type = T; };
template <class G> void withAcc(Src& s, G g) { switch (s.draw(3)) { case 0: g(Tag<RowMaj>()); break; case 1: g(Tag<ColMaj>()); break; case 2: g(Tag<RevRowMaj>()); break; default: g(Tag<RevColMaj>()); } }
template <int P, class MT> void sameViews(const MT& a, MT& b, const DM<P>& d) {
    CHECKM(a.nrow() == d.m && a.ncol() == d.n && a.size() == d.m * d.n, "shape " << a.nrow() << "x" << a.ncol());
    DM<P> r = rd<P>(a); CHECKM(r == d, "entries " << r << " expected " << d); DM<P> r2 = rd<P>(b); CHECKM(r2 == d, "entries (non-const)");
    for (size_t j = 0; j < d.n; ++j) { const auto v = a[j]; auto w = b[j]; CHECKM(v.size() == d.m && w.size() == d.m, "column view has size " << v.size());
        size_t i = 0; for (auto it = w.begin(); it != w.end(); ++it, ++i) { CHECKM(i < d.m && unlib<P>(*it) == d(i, j), "column view " << j << " iteration"); } CHECKEQ(i, d.m);
        for (i = 0; i < d.m; ++i) CHECKM(unlib<P>(v[i]) == d(i, j) && unlib<P>(w(i)) == d(i, j) && unlib<P>(*(w.begin() + i)) == d(i, j) && (w.begin() + i) - w.begin() == i, "column view " << j << " at " << i); }
    for (size_t i = 0; i < d.m; ++i) { const auto v = a.r(i); auto w = b.r(i); CHECKM(v.size() == d.n && w.size() == d.n, "row view has size " << v.size());
        size_t j = 0; for (auto it = w.begin(); it != w.end(); it++, ++j) { CHECKM(j < d.n && unlib<P>(*it) == d(i, j), "row view " << i << " iteration"); } CHECKEQ(j, d.n);
        for (j = 0; j < d.n; ++j) CHECKM(unlib<P>(v(j)) == d(i, j) && unlib<P>(w[j]) == d(i, j), "row view " << i << " at " << j); }
}
template <int P, class MT> void edit(Src& s, MT a, DM<P>& d) { // one edit through a (shares memory); the model is edited the same way
    size_t i = s.draw(d.m - 1), i2 = s.draw(d.m - 1), j = s.draw(d.n - 1), j2 = s.draw(d.n - 1); Z<P> c = genZ<P>(s); F<P> f = lib<P>(c); int op = s.draw(10); s.note << " op" << op << "(" << i << "," << i2 << "," << j << "," << j2 << "," << c << ")";
    switch (op) {
        case 0: a((int)i, (int)j) = f; d(i, j) = c; break;
        case 1: a[j][i] = f; d(i, j) = c; break;
        case 2: a.r(i)(j) = f; d(i, j) = c; break;
        case 3: a.swap_rows(i, i2); std::swap(d.a[i], d.a[i2]); break;
        case 4: a.swap_cols(j, j2); for (auto& r : d.a) std::swap(r[j], r[j2]); break;
        case 5: a.add_col_to(j, j2, f); if (j != j2) for (auto& r : d.a) r[j] = r[j] + c * r[j2]; else for (auto& r : d.a) r[j] = r[j] + c * r[j]; break;
        case 6: a.add_row_to(i, i2, f); for (size_t k = 0; k < d.n; ++k) d(i, k) = d(i, k) + c * d(i2, k); break;
        case 7: a[j].axpy(f, a[j2]); for (auto& r : d.a) r[j] = r[j] + c * r[j2]; break;
        case 8: a.r(i).axpy(f, a.r(i2)); for (size_t k = 0; k < d.n; ++k) d(i, k) = d(i, k) + c * d(i2, k); break;
        case 9: if (s.coin()) { a.r(i) = a.r(i2); d.a[i] = d.a[i2]; } else { a[j] = a[j2]; for (auto& r : d.a) r[j] = r[j2]; } break;
        default: if (!c.zero()) { if (s.coin()) { a.r(i) /= f; for (auto& x : d.a[i]) x = x * c.inv(); } else { a[j] /= f; for (auto& r : d.a) r[j] = r[j] * c.inv(); } }
    }
}
PROP(views, "dense matrices up to 5x5 in all four storage orders over F2, F3, F5, Q edited by up to 12 element, row, column and view operations directly or through transposed and reversed views, copies taken before: entries, row and column views and iterators equal a model, copies are unaffected; non-trivial: not square and edited through two kinds of view", 60000, 2000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withAcc(s, [&](auto t) { using Acc = typename decltype(t)::type; using MT = A<Dense<F<P>, Acc>>;
        size_t m = dimN<P>(s, 1, 5), n = dimN<P>(s, 1, 5); DM<P> d = genMat<P>(s, m, n), d0 = d; MT a = mk<MT>(d), c = a.copy(), alias(a); s.note << d; std::set<int> kinds; size_t k = s.range(1, P ? 12 : 4);
        for (size_t q = 0; q < k; ++q) { int how = s.draw(3); kinds.insert(how); s.note << " via" << how; DM<P> v = conj<P>(d, how);
            if (how == 0) edit<P>(s, a, v); else if (how == 1) edit<P>(s, a.Trp(), v); else if (how == 2) edit<P>(s, a.JConj(), v); else edit<P>(s, a.TJConj(), v);
            d = conj<P>(v, how); sameViews<P>(a, alias, d); }
        auto t1 = a.Trp(); sameViews<P>(t1, t1, conj<P>(d, 1)); auto t2 = a.JConj(); sameViews<P>(t2, t2, conj<P>(d, 2)); auto t3 = a.TJConj(); sameViews<P>(t3, t3, conj<P>(d, 3)); auto t4 = t1.JConj(); sameViews<P>(t4, t4, conj<P>(d, 3));
        sameViews<P>(c, c, d0); CHECKM((a == c) == (d == d0) && a == alias, "equality"); MT e = MT::identity(n); CHECKM(rd<P>(e) == DM<P>::eye(n), "identity"); CHECKM((a == e) == (m == n && d == DM<P>::eye(n)) && (e == a) == (a == e), "equality with the identity"); { size_t m2 = dimN<P>(s, 1, 5), n2 = dimN<P>(s, 1, 5); DM<P> z(m2, n2); for (size_t i = 0; i < m2; ++i) for (size_t j = 0; j < n2; ++j) if (i < m && j < n) z(i, j) = d(i, j); MT b = mk<MT>(z); CHECKM((a == b) == (d == z) && (b == a) == (d == z), "equality of different shapes"); fill_zeros(b); CHECKM(rd<P>(b) == DM<P>(m2, n2), "fill_zeros"); b.free(); }
        std::ostringstream o; for (size_t i = 0; i < m; ++i) { for (size_t j = 0; j < n; ++j) o << lib<P>(d(i, j)) << " "; o << "\n"; } CHECKM(a.str() == o.str(), "text form " << a.str());
        a.free(); c.free(); e.free(); s.nontrivial(m != n && kinds.size() >= 2); }); });
}
PROP(products, "products of dense matrices of shapes 0-5 in all pairs of storage orders, in-place products of square matrices with row and column views and with whole matrices: equal the model; non-trivial: both factors have rank at least 2", 60000, 2000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withAcc(s, [&](auto t) { using A1 = typename decltype(t)::type; withAcc(s, [&](auto t2) { using A2 = typename decltype(t2)::type;
        using M1 = A<Dense<F<P>, A1>>; using M2 = A<Dense<F<P>, A2>>; size_t m = dimN<P>(s, 1, 5), k = dimN<P>(s, 0, 5), n = dimN<P>(s, 1, 5); int op = s.draw(4); if (op == 1 || op == 3) k = m; else if (op == 2 || op == 4) { if (!k) k = 1; n = k; }
        DM<P> x = genMat<P>(s, m, k), y = genMat<P>(s, k, n); s.note << "op" << op << " " << x << " * " << y; M1 a = mk<M1>(x); M2 b = mk<M2>(y); DM<P> e = x * y;
        if (op == 0) { auto c = matmul(a, b); CHECKM(rd<P>(c) == e, "product " << rd<P>(c) << " expected " << e); CHECKM(rd<P>(a) == x && rd<P>(b) == y, "factors changed"); c.free(); }
        else if (op == 1) { auto c = apply_matmul_on_left(a, b); CHECKM(rd<P>(c) == e, "left product " << rd<P>(c) << " expected " << e); CHECKM(rd<P>(b) == e, "in place"); }
        else if (op == 2) { auto c = apply_matmul_on_right(a, b); (void)c; CHECKM(rd<P>(a) == e, "right product in place " << rd<P>(a) << " expected " << e); CHECKM(rd<P>(b) == y, "factor changed"); }
        else if (op == 3) { size_t j = s.draw(n - 1); matmul(a, b[j]); DM<P> r = y; for (size_t i = 0; i < m; ++i) r(i, j) = e(i, j); CHECKM(rd<P>(b) == r, "matrix times column view " << rd<P>(b)); }
        else { size_t i = s.draw(m - 1); matmul(a.r(i), b); DM<P> r = x; r.a[i] = e.a[i]; CHECKM(rd<P>(a) == r, "row view times matrix " << rd<P>(a)); }
        s.nontrivial(x.rank() >= 2 && y.rank() >= 2); a.free(); b.free(); }); }); });
}
PROP(factor, "dense matrices of every shape 1-6, any rank, all storage orders over F2, F3, F5, Q: the four factorizations multiply back to the matrix, L and U are invertible triangular, P a permutation, the middle factor echelon of its type with rank-many pivots, input unchanged; non-trivial: rank at least 1 and below the larger side", 80000, 3000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withAcc(s, [&](auto t) { using Acc = typename decltype(t)::type; using MT = A<Dense<F<P>, Acc>>;
        size_t m = dimN<P>(s, 1, 6), n = dimN<P>(s, 1, 6); DM<P> d = genMatR<P>(s, m, n); MT a = mk<MT>(d); int which = s.draw(3); s.note << "fact" << which << " " << d; DM<P> l, e, u, p;
        auto get = [&](auto& L, auto& E, auto& U, auto& Q) { l = rd<P>(L); e = rd<P>(E); u = rd<P>(U); p = rd<P>(Q); delete[] L.mat; delete[] E.mat; delete[] U.mat; delete[] Q.mat; };
        if (which == 0) { auto [L_, E_, U_, P_] = LEUP_fact(a); get(L_, E_, U_, P_); } else if (which == 1) { auto [P_, L_, E_, U_] = PLEU_fact(a); get(L_, E_, U_, P_); }
        else if (which == 2) { auto [U_, E_, L_, P_] = UELP_fact(a); get(L_, E_, U_, P_); } else { auto [P_, U_, E_, L_] = PUEL_fact(a); get(L_, E_, U_, P_); }
        DM<P> prod = which == 0 ? l * e * u * p : which == 1 ? p * l * e * u : which == 2 ? u * e * l * p : p * u * e * l;
        CHECKM(prod == d, "product " << prod << " L=" << l << " E=" << e << " U=" << u << " P=" << p); CHECKM(lower<P>(l) && fulldiag<P>(l), "L=" << l); CHECKM(lower<P>(u.T()) && fulldiag<P>(u), "U=" << u); CHECKM(isperm<P>(p), "P=" << p);
        size_t r = d.rank(), nz = 0; for (auto& x : e.a) for (auto& y : x) nz += !y.zero(); DM<P> el = which == 0 ? e : which == 1 ? e.T() : which == 2 ? jc<P>(e) : jc<P>(e).T(); CHECKM(isEL<P>(el) && nz == r, "E=" << e << " rank " << r);
        CHECKM(rd<P>(a) == d, "input changed"); a.free(); s.nontrivial(r >= 1 && r < std::max(m, n)); }); });
}
PROP(solves, "invertible triangular dense matrices up to 6x6 in all storage orders and right-hand sides of any shape: left and right solves with L and U multiply back, in place; non-trivial: an off-diagonal entry and a right-hand side of rank at least 2", 80000, 3000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withAcc(s, [&](auto t) { using A1 = typename decltype(t)::type; withAcc(s, [&](auto t2) { using A2 = typename decltype(t2)::type; using MA = A<Dense<F<P>, A2>>;
        size_t m = dimN<P>(s, 1, 6), n = dimN<P>(s, 1, 6); int which = s.draw(3); bool left = which < 2, up = which % 2; size_t q = left ? m : n; DM<P> tri = genTri<P>(s, q, up), b = genMat<P>(s, m, n); s.note << "solve" << which << " " << tri << " rhs " << b; MA x = mk<MA>(b); DM<P> r;
        if (up) { U<Dense<F<P>, A1>> T_ = mk<U<Dense<F<P>, A1>>>(tri); r = left ? rd<P>(apply_inverse_on_left(T_, x)) : rd<P>(apply_inverse_on_right(x, T_)); CHECKM(rd<P>(T_) == tri, "matrix changed"); delete[] T_.mat; }
        else { L<Dense<F<P>, A1>> T_ = mk<L<Dense<F<P>, A1>>>(tri); r = left ? rd<P>(apply_inverse_on_left(T_, x)) : rd<P>(apply_inverse_on_right(x, T_)); CHECKM(rd<P>(T_) == tri, "matrix changed"); delete[] T_.mat; }
        CHECKM((left ? tri * r : r * tri) == b, "solution " << r); bool off = false; for (size_t i = 0; i < q; ++i) for (size_t j = 0; j < q; ++j) off |= i != j && !tri(i, j).zero(); s.nontrivial(off && b.rank() >= 2); x.free(); }); }); });
}
PROP(commute_dense, "echelon dense matrices of the four types (1-6 x 1-6, any pivots) with invertible triangular ones: the exchanged triangular factor satisfies its identity and is triangular; non-trivial: at least one pivot and an off-diagonal entry", 80000, 3000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withAcc(s, [&](auto t) { using A1 = typename decltype(t)::type; withAcc(s, [&](auto t2) { using A2 = typename decltype(t2)::type;
        size_t m = dimN<P>(s, 1, 6), n = dimN<P>(s, 1, 6); auto rows = s.subset(m); if (rows.size() > n) rows.resize(n); DM<P> el(m, n); for (size_t k = 0; k < rows.size(); ++k) el(rows[k], k) = Z<P>(1);
        DM<P> l = genTri<P>(s, n, false); for (size_t i = 0; i < n; ++i) { Z<P> v = l(i, i).inv(); for (size_t j = 0; j < n; ++j) l(i, j) = l(i, j) * v; } // unit diagonal
        if (s.coin()) for (size_t i = 0; i < n; ++i) { Z<P> v = genZ<P>(s, true); for (size_t j = 0; j < n; ++j) l(i, j) = l(i, j) * v; }
        int which = s.draw(3); s.note << "commute" << which << " EL=" << el << " L=" << l; DM<P> r, e, tr; bool up = false; size_t off = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) off += !l(i, j).zero();
        auto run = [&](auto& E_, auto& T_) { delete[] E_.mat; delete[] T_.mat; };
        if (which == 0) { e = el; tr = l; EL<Dense<F<P>, A1>> E_ = mk<EL<Dense<F<P>, A1>>>(e); L<Dense<F<P>, A2>> T_ = mk<L<Dense<F<P>, A2>>>(tr); auto R_ = commute(E_, T_); r = rd<P>(R_); delete[] R_.mat; run(E_, T_); CHECKM(r * e == e * tr, "Lret*EL = EL*L: Lret=" << r); }
        else if (which == 1) { e = jc<P>(el).T(); tr = jc<P>(l).T(); ELH<Dense<F<P>, A1>> E_ = mk<ELH<Dense<F<P>, A1>>>(e); L<Dense<F<P>, A2>> T_ = mk<L<Dense<F<P>, A2>>>(tr); auto R_ = commute(T_, E_); r = rd<P>(R_); delete[] R_.mat; run(E_, T_); CHECKM(e * r == tr * e, "ELH*Lret = L*ELH: Lret=" << r); }
        else if (which == 2) { e = jc<P>(el); tr = jc<P>(l); up = true; EUH<Dense<F<P>, A1>> E_ = mk<EUH<Dense<F<P>, A1>>>(e); U<Dense<F<P>, A2>> T_ = mk<U<Dense<F<P>, A2>>>(tr); auto R_ = commute(E_, T_); r = rd<P>(R_); delete[] R_.mat; run(E_, T_); CHECKM(r * e == e * tr, "Uret*EUH = EUH*U: Uret=" << r); }
        else { e = el.T(); tr = l.T(); up = true; EU<Dense<F<P>, A1>> E_ = mk<EU<Dense<F<P>, A1>>>(e); U<Dense<F<P>, A2>> T_ = mk<U<Dense<F<P>, A2>>>(tr); auto R_ = commute(T_, E_); r = rd<P>(R_); delete[] R_.mat; run(E_, T_); CHECKM(e * r == tr * e, "EU*Uret = U*EU: Uret=" << r); }
        CHECKM(up ? lower<P>(r.T()) : lower<P>(r), "triangular: " << r); CHECKM(fulldiag<P>(r), "invertible: " << r); s.nontrivial(rows.size() >= 1 && off); }); }); });
}
PROP(norms, "rows and columns of double matrices in all storage orders: Euclidean norm and division; non-trivial: at least 2 entries", 30000, 1000000) {
    withAcc(s, [&](auto t) { using Acc = typename decltype(t)::type; using MT = A<Dense<double, Acc>>; size_t m = bigN(s, 1, 5, 20), n = bigN(s, 1, 5, 20); MT a(m, n); std::vector<std::vector<double>> d(m, std::vector<double>(n));
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) { int v = s.anyint(50); a((int)i, (int)j) = d[i][j] = v / 4.0; } size_t i = s.draw(m - 1), j = s.draw(n - 1); double c = 0, r = 0; for (size_t k = 0; k < m; ++k) c += d[k][j] * d[k][j]; for (size_t k = 0; k < n; ++k) r += d[i][k] * d[i][k];
        CHECKM(std::abs(a[j].norm() - std::sqrt(c)) <= 1e-12 * (1 + std::sqrt(c)) && norm(a[j]) == a[j].norm(), "norm of a column"); CHECKM(std::abs(norm(a.r(i)) - std::sqrt(r)) <= 1e-12 * (1 + std::sqrt(r)), "norm of a row");
        a.r(i) /= 4.0; for (size_t x = 0; x < m; ++x) for (size_t y = 0; y < n; ++y) CHECKM(a((int)x, (int)y) == (x == i ? d[x][y] / 4 : d[x][y]), "row divided"); a.free(); s.nontrivial(m >= 2 && n >= 2); });
}
PROP(plain_numbers, "integer and double matrices in all pairs of storage orders: products, in-place products with square matrices, transposes; non-trivial: at least 2 columns", 30000, 1000000) {
    withAcc(s, [&](auto t) { using A1 = typename decltype(t)::type; withAcc(s, [&](auto t2) { using A2 = typename decltype(t2)::type; auto go = [&](auto num) { using T = decltype(num); using M1 = A<Dense<T, A1>>; using M2 = A<Dense<T, A2>>;
        size_t m = bigN(s, 1, 4, 16), k = bigN(s, 1, 4, 16), n = bigN(s, 1, 4, 16); int op = s.draw(2); if (op == 1) k = m; if (op == 2) n = k; M1 a(m, k); M2 b(k, n); std::vector<std::vector<T>> e(m, std::vector<T>(n));
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) a((int)i, (int)j) = T(s.anyint(20)); for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) b((int)i, (int)j) = T(s.anyint(20));
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) for (size_t q = 0; q < k; ++q) e[i][j] += a((int)i, (int)q) * b((int)q, (int)j);
        if (op == 0) { auto c = matmul(a, b); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECKEQ(c((int)i, (int)j), e[i][j]); auto ct = matmul(b.Trp(), a.Trp()); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECKEQ(ct((int)j, (int)i), e[i][j]); c.free(); ct.free(); }
        else if (op == 1) { apply_matmul_on_left(a, b); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECKEQ(b((int)i, (int)j), e[i][j]); }
        else { apply_matmul_on_right(a, b); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) CHECKEQ(a((int)i, (int)j), e[i][j]); }
        a.free(); b.free(); s.nontrivial(m >= 2 && n >= 2); }; if (s.coin()) go(0); else go(0.0); }); });
}
PBT_MAIN("C37")
