// C02 sparse vectors against a dense model
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;

template <int P> void history(Src& s) {
    typedef Z<P> z; typedef F<P> f;
    size_t m = sizeN<P>(s, 1, 14, 100, 100);
    DV<P> dx = genVec<P>(s, m), dy = genVec<P>(s, m);
    s.note << "m=" << m << " x=" << pbt::show(dx) << " y=" << pbt::show(dy);
    V<P> x = toVec<P>(dx), y = toVec<P>(dy);
    typename V<P>::tmp_type tmp;
    auto agree = [&](const char* op) {
        auto ax = vecOf<P>(x, dx.size(), op), ay = vecOf<P>(y, dy.size(), op);
        CHECKM(ax == dx, op << ": x is " << pbt::show(ax) << ", dense model " << pbt::show(dx));
        CHECKM(ay == dy, op << ": y is " << pbt::show(ay) << ", dense model " << pbt::show(dy));
    };
    agree("construct");
    auto reset = [&](size_t n) { dx.resize(n); dy.resize(n); x = toVec<P>(dx); y = toVec<P>(dy); };
    long steps = s.sized(1, 10); bool cancel = false;
    for (long t = 0; t < steps; ++t) {
        int op = s.draw(30); size_t n = dx.size();
        s.note << "; op" << op;
        if (n == 0) { reset(3); n = 3; }
        std::string nm = "op" + std::to_string(op);
        switch (op) {
            case 0: case 1: case 2: {  // axpy in three forms
                z a = genZ<P>(s); s.note << " axpy a=" << a;
                if (s.coin(1, 10)) { s.note << " itself"; size_t i0 = 0, i1 = n; if (op == 0) x.axpy(lib<P>(a), x); else if (op == 1) x.axpy(lib<P>(a), x, tmp); else { i0 = s.range(0, n); i1 = s.range(i0, n); x.axpy(lib<P>(a), x, i0, i1, tmp); } for (size_t i = i0; i < i1; ++i) dx[i] = dx[i] + a * dx[i]; break; }
                DV<P> r = dx; for (size_t i = 0; i < n; ++i) r[i] = r[i] + a * dy[i];
                if (op == 0) x.axpy(lib<P>(a), y); else if (op == 1) x.axpy(lib<P>(a), y, tmp);
                else { size_t i0 = s.range(0, n), i1 = s.range(i0, n); s.note << " [" << i0 << "," << i1 << ")";
                    r = dx; for (size_t i = i0; i < i1; ++i) r[i] = r[i] + a * dy[i]; x.axpy(lib<P>(a), y, i0, i1, tmp); }
                for (size_t i = 0; i < n; ++i) if (r[i].zero() && !dx[i].zero()) cancel = true;
                dx = r; break; }
            case 3: { // cancel exactly: x <- x - c*x on part: y := copy with sign
                z c = genZ<P>(s, true); size_t k = s.range(0, n); DV<P> w(n); for (size_t i = 0; i < n; ++i) w[i] = i < k ? -dx[i] / c : genZ<P>(s);
                V<P> W = toVec<P>(w); x.axpy(lib<P>(c), W); for (size_t i = 0; i < n; ++i) dx[i] = dx[i] + c * w[i]; cancel = true; break; }
            case 4: { if (s.coin(1, 10)) { s.note << " doubled"; x = x + x; for (auto& v : dx) v = v + v; break; } V<P> r = x + y; x = r; for (size_t i = 0; i < n; ++i) dx[i] = dx[i] + dy[i]; break; }
            case 5: { z a = genZ<P>(s); s.note << " a=" << a; x = x * lib<P>(a); for (auto& v : dx) v = v * a; break; }
            case 6: { z a = genZ<P>(s); s.note << " a=" << a; if (s.coin()) x.scale_inplace(lib<P>(a)); else x = x.scale(lib<P>(a)); for (auto& v : dx) v = v * a; break; }
            case 7: { std::vector<f> c; for (size_t i = 0; i < n; ++i) { z a = genZ<P>(s, true); c.push_back(lib<P>(a)); dx[i] = dx[i] * a; } x.scale_inplace(c); break; }
            case 8: { f d = x * y; z e; for (size_t i = 0; i < n; ++i) e = e + dx[i] * dy[i]; CHECKM(unlib<P>(d) == e, "dot product " << d << " expected " << e); break; }
            case 9: { size_t k = s.range(0, 4); DV<P> w = genVec<P>(s, k); V<P> W = toVec<P>(w); V<P> K = s.coin() ? x.kron(W, k) : x.tensor(W, k);
                DV<P> e; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) e.push_back(dx[i] * w[j]);
                CHECKM(vecOf<P>(K, e.size(), "kron") == e, "Kronecker product of " << pbt::show(dx) << " and " << pbt::show(w)); break; }
            case 10: { auto p = s.perm(n); s.note << pbt::show(p); x.permute(p); DV<P> r(n); for (size_t i = 0; i < n; ++i) r[p[i]] = dx[i]; dx = r; break; }
            case 11: { std::vector<size_t> pind(n, bats::NO_IND); auto sub = s.subset(n); auto p = s.perm(sub.size()); bool ord = s.coin(); DV<P> e(sub.size());
                for (size_t i = 0; i < sub.size(); ++i) { size_t k = ord ? i : p[i]; pind[sub[i]] = k; e[k] = dx[sub[i]]; }
                CHECKM(vecOf<P>(x.subvector(pind), sub.size(), "subvector") == e, "subvector " << pbt::show(sub));
                DV<P> e2; for (auto i : sub) e2.push_back(dx[i]);
                CHECKM(vecOf<P>(x[sub], sub.size(), "operator[]") == e2, "operator[] " << pbt::show(sub)); break; }
            case 12: { size_t i0 = s.range(0, n), i1 = s.range(i0, n); DV<P> e(dx.begin() + i0, dx.begin() + i1);
                CHECKM(vecOf<P>(x.block(i0, i1), i1 - i0, "block") == e, "block " << i0 << "," << i1); break; }
            case 13: { size_t i0 = s.range(0, n), i1 = s.range(i0, n); DV<P> b = genVec<P>(s, i1 - i0); s.note << " set_block " << i0 << "," << i1 << " " << pbt::show(b);
                x.set_block(i0, i1, toVec<P>(b)); for (size_t i = i0; i < i1; ++i) dx[i] = b[i - i0]; break; }
            case 14: x.J(n); std::reverse(dx.begin(), dx.end()); break;
            case 15: x.reverse_inds(n - 1); std::reverse(dx.begin(), dx.end()); break;
            case 16: { size_t i = s.range(0, n - 1), j = s.range(0, n - 1); s.note << " swap " << i << "," << j; x.swap_rows(i, j); std::swap(dx[i], dx[j]); break; }
            case 17: { size_t i = s.range(0, n - 1); z c = genZ<P>(s); s.note << " scale " << i << " by " << c; x.scale_inplace(i, lib<P>(c)); dx[i] = dx[i] * c; break; }
            case 18: case 19: { if (n < 2) break; size_t i = s.range(0, n - 1), j = s.range(0, n - 2); if (j >= i) ++j;
                z a = genZ<P>(s), b = genZ<P>(s), c = genZ<P>(s), d = genZ<P>(s); s.note << " mix " << i << "," << j << " [" << a << " " << b << ";" << c << " " << d << "]";
                if (op == 19 && !dx[j].zero()) b = -(a * dx[i]) / dx[j];
                x.mix_rows(i, j, lib<P>(a), lib<P>(b), lib<P>(c), lib<P>(d));
                z u = a * dx[i] + b * dx[j], v = c * dx[i] + d * dx[j]; dx[i] = u; dx[j] = v; break; }
            case 20: { size_t k = s.range(0, n); s.note << " erase_initial " << k; x.erase_initial_rows(k); y.erase_initial_rows(k); dx.erase(dx.begin(), dx.begin() + k); dy.erase(dy.begin(), dy.begin() + k); break; }
            case 21: { size_t k = s.range(0, n); s.note << " erase_last " << k; x.erase_last_rows_of_matrix(n - 1, k); y.erase_last_rows_of_matrix(n - 1, k); dx.resize(n - k); dy.resize(n - k); break; }
            case 22: { if (s.coin()) { x.erase_last_row_of_matrix(n - 1); y.erase_last_row_of_matrix(n - 1); dx.resize(n - 1); dy.resize(n - 1); }
                else { size_t k = s.range(0, n - 1); s.note << " erase after " << k; x.erase_rows_after(k); for (size_t i = k + 1; i < n; ++i) dx[i] = z(); } break; }
            case 23: { size_t i = s.range(0, n - 1); s.note << " erase row " << i; x.erase_for_matrix(i); y.erase_for_matrix(i); dx.erase(dx.begin() + i); dy.erase(dy.begin() + i); break; }
            case 24: case 25: { if (n > 24 && m <= 14) break; size_t k = s.coin(1, 10) ? s.range(5, 14) : s.range(0, 4); size_t N = n + k; auto pos = s.perm(N); pos.resize(k); std::sort(pos.begin(), pos.end()); if (s.coin(1, 3)) { size_t at = s.range(0, n); for (size_t i = 0; i < k; ++i) pos[i] = at + i; }
                s.note << " insert rows " << pbt::show(pos); std::vector<f> vals; DV<P> e(N), g(N); size_t a = 0, c = 0;
                for (size_t i = 0; i < N; ++i) { if (c < k && pos[c] == i) { ++c; if (op == 24) { z v = genZ<P>(s, true); e[i] = v; vals.push_back(lib<P>(v)); } } else { e[i] = dx[a]; g[i] = dy[a]; ++a; } }
                if (op == 24) x.insert_rows(pos, vals); else x.insert_rows(pos);
                y.insert_rows(pos); dx = e; dy = g; break; }
            case 26: { size_t ct = 0; std::map<f, size_t> cc; std::vector<std::pair<z, size_t>> e;
                for (size_t i = 0; i < n; ++i) if (!dx[i].zero() && !dy[i].zero()) { ++ct; z q = dx[i] / dy[i]; bool fd = false; for (auto& pr : e) if (pr.first == q) { pr.second++; fd = true; } if (!fd) e.push_back({q, 1}); }
                CHECKEQ(x.nnz_intersection(y), ct); x.coeff_intersection(y, cc);
                CHECKM(cc.size() == e.size(), "coeff_intersection finds " << cc.size() << " ratios, expected " << e.size());
                for (auto& pr : e) { auto it = cc.find(lib<P>(pr.first)); CHECKM(it != cc.end() && it->second == pr.second, "coeff_intersection count of ratio " << pr.first); } break; }
            case 27: { std::vector<bool> c(n); for (size_t i = 0; i < n; ++i) { c[i] = s.coin(); if (c[i]) dx[i] = z(); } if (s.coin()) x.clear_inds(c); else x.clear_inds(c, tmp); break; }
            case 28: { auto inds = x.nzinds(); auto vals = x.nzvals(); std::vector<size_t> e; DV<P> ev; for (size_t i = 0; i < n; ++i) if (!dx[i].zero()) { e.push_back(i); ev.push_back(dx[i]); }
                CHECKEQ(inds, e); CHECKEQ(x.nnz(), e.size()); { auto [i2, v2] = x.nzs(); CHECK(i2 == inds && v2 == vals); SparseVector<F<P>> y0(x); y0.erase_all(); CHECK(y0.nnz() == 0 && y0.nzbegin() == y0.nzend()); y0 = x; CHECK(y0.nnz() == e.size()); } CHECKEQ(vals.size(), e.size()); for (size_t i = 0; i < e.size(); ++i) CHECK(unlib<P>(vals[i]) == ev[i]);
                if (!e.empty()) { CHECKEQ(x.lastnz().ind, e.back()); CHECKEQ(x.firstnz().ind, e[0]); }
                for (size_t i = 0; i < n; ++i) { CHECKM(unlib<P>(x[i]) == dx[i] && unlib<P>(x.getval(i)) == dx[i], "entry access at " << i); }
                CHECKEQ(x == y, dx == dy); CHECKEQ(x != y, dx != dy); V<P> c2 = x; CHECK(c2 == x);
                V<P> w(inds, vals); CHECK(w == x);
                // shift
                size_t k = s.range(0, 3); DV<P> es(n + k); for (size_t i = 0; i < n; ++i) es[i + k] = dx[i]; CHECKM(vecOf<P>(x.shift_inds(k), n + k, "shift") == es, "shift_inds by " << k); break; }
            case 29: { // y += coeff .* x[inds], all nonzeros of x inside inds
                std::vector<size_t> inds; for (size_t i = 0; i < n; ++i) if (!dy[i].zero() || s.coin(1, 3)) inds.push_back(i);
                std::vector<f> co; DV<P> r = dx; for (size_t i = 0; i < inds.size(); ++i) { z c = genZ<P>(s, true); co.push_back(lib<P>(c)); r[i] = r[i] + c * dy[inds[i]]; }
                x.axpy(y, co, inds, tmp); dx = r; break; }
            default: { std::swap(dx, dy); std::swap(x, y); }
        }
        agree(nm.c_str());
    }
    if (cancel) s.label("cancellation");
    s.nontrivial(steps >= 2 && m >= 3);
}
PROP(histories, "two sparse vectors of length 1-14 (over finite fields up to 100) over F2/F3/F5/Q, 1-10 operations out of 30 kinds, dense model compared after each; non-trivial: length >= 3 and >= 2 operations", 1500000, 25000000) {
    withField(s, [&](auto pc) { history<decltype(pc)::value>(s); });
}
PROP(constructors, "vectors built from unsorted tuples, iterators, indicator, dense fill and value casts; non-trivial: at least 2 entries", 200000, 3000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; typedef Z<P> z;
        size_t m = sizeN<P>(s, 1, 12, 60); std::vector<size_t> ind = s.subset(m); std::vector<int> val; DV<P> e(m);
        for (auto i : ind) { int v = (int)s.range(1, P ? P - 1 : 5); if (s.coin()) v = -v; val.push_back(v); e[i] = z(v); }
        s.note << pbt::show(ind) << pbt::show(val);
        V<P> a(ind.cbegin(), val.cbegin(), ind.size()); CHECK(vecOf<P>(a, m) == e);
        std::vector<std::tuple<size_t, int>> tup; auto p = s.perm(ind.size()); for (auto k : p) tup.emplace_back(ind[k], val[k]);
        V<P> b(tup); CHECKM(vecOf<P>(b, m) == e, "from unsorted tuples"); CHECK(a == b);
        SparseVector<int, size_t> iv(ind, val); V<P> c(iv); CHECKM(vecOf<P>(c, m) == e, "from integer vector");
        V<P> c2 = iv.cast_values(F<P>()); CHECKM(vecOf<P>(c2, m) == e, "cast_values");
        // casting to a smaller field drops entries that become zero
        SparseVector<ModP<int, 3>, size_t> c3 = iv.cast_values(ModP<int, 3>()); for (size_t i = 0; i < m; ++i) { int w = 0; for (size_t k = 0; k < ind.size(); ++k) if (ind[k] == i) w = val[k]; CHECK(c3[i].to_int() == ((w % 3) + 3) % 3); }
        for (auto it = c3.nzbegin(); it != c3.nzend(); ++it) CHECK(!it->val.iszero());
        size_t i0 = s.range(0, m - 1); V<P> d(i0); DV<P> ed(m); ed[i0] = z(1); CHECK(vecOf<P>(d, m) == ed);
        V<P> g = V<P>::dense(F<P>(1), m); CHECK(vecOf<P>(g, m) == DV<P>(m, z(1)));
        s.nontrivial(ind.size() >= 2); });
}
PBT_MAIN("C02")
