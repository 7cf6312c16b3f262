// C40 set-backed sparse vectors against a dense model
// split: field
#include "oracle.hpp"
using pbt::Src; using namespace orc;
template <int P> using SV = SetVector<F<P>, size_t>;
// the stored entries as a dense vector: indices increase, none is zero
template <int P, class X> DV<P> dense(const X& x, size_t n, const std::string& what) {
    DV<P> d(n, Z<P>(0)); size_t c = 0; bool first = true; size_t last = 0;
    for (auto it = x.nzbegin(); it != x.nzend(); ++it) { size_t i = (*it).ind; CHECKM(i < n, what << ": stored index " << i << " of " << n); CHECKM(first || i > last, what << ": indices not increasing at " << i); CHECKM(!((*it).val == F<P>(0)), what << ": stores a zero at " << i); d[i] = unlib<P>((*it).val); last = i; first = false; ++c; }
    CHECKM(c == x.nnz(), what << ": nnz() is " << x.nnz() << " for " << c << " entries"); return d;
}
template <int P> SV<P> mk(Src& s, const DV<P>& d) {
    std::vector<size_t> ind; std::vector<F<P>> val; for (size_t i = 0; i < d.size(); ++i) if (!(d[i] == Z<P>(0))) { ind.push_back(i); val.push_back(lib<P>(d[i])); }
    switch (s.draw(3)) {
        case 0: return SV<P>(ind.begin(), val.begin(), ind.size());
        case 1: { std::set<nzpair<size_t, F<P>>> q; for (size_t k = ind.size(); k-- > 0;) q.emplace(ind[k], val[k]); return SV<P>(q); }
        case 2: { SV<P> x; auto p = s.perm(ind.size()); for (auto k : p) { if (s.coin(1, 4)) x.set(ind[k], F<P>(1)); x.set(ind[k], val[k]); } return x; }
    }
    std::vector<size_t> i2; std::vector<F<P>> v2; auto p = s.perm(ind.size()); for (auto k : p) { i2.push_back(ind[k]); v2.push_back(val[k]); } return SV<P>(i2, v2);
}
template <int P> void history(Src& s) {
    typedef Z<P> z; size_t m = bigN(s, 1, 12, 60); DV<P> dx = genVec<P>(s, m), dy = genVec<P>(s, m); s.note << "x=" << pbt::show(dx) << " y=" << pbt::show(dy);
    SV<P> x = mk<P>(s, dx), y = mk<P>(s, dy); V<P> vy = toVec<P>(dy); bool cancel = false, grow = false, ranged = false; long steps = s.sized(1, P == 0 ? 3 : 8);
    auto add = [&](const z& a, size_t lo, size_t hi) { for (size_t i = lo; i < hi; ++i) { z o = dx[i]; dx[i] = dx[i] + a * dy[i]; cancel |= !(o == z(0)) && dx[i] == z(0); grow |= o == z(0) && !(dx[i] == z(0)); } };
    for (long t = 0; t < steps; ++t) {
        int op = s.draw(9); std::string nm = "op" + std::to_string(op); s.note << "; op" << op;
        switch (op) {
            case 0: case 1: { z a = genZ<P>(s); s.note << " axpy a=" << a; if (s.coin(1, 10)) { s.note << " itself"; x.axpy(lib<P>(a), x); for (auto& v : dx) v = v + a * v; break; } if (op) x.axpy(lib<P>(a), y); else x.axpy(lib<P>(a), vy); add(a, 0, m); break; }
            case 2: case 3: { z a = genZ<P>(s); size_t lo = s.range(0, m), hi = s.range(0, m + 1); s.note << " axpy a=" << a << " [" << lo << "," << hi << ")"; if (s.coin(1, 10)) { s.note << " itself"; x.axpy(lib<P>(a), x, lo, hi); for (size_t i = lo; i < std::min(hi, m); ++i) dx[i] = dx[i] + a * dx[i]; break; } if (op == 2) x.axpy(lib<P>(a), y, lo, hi); else x.axpy(lib<P>(a), vy, lo, hi); if (lo < hi) { ranged |= lo > 0 || hi < m; add(a, lo, std::min(hi, m)); } break; }
            case 4: { size_t i = s.draw(m - 1); z v = genZ<P>(s); if (v == z(0)) break; s.note << " set " << i << " " << v; auto it = x.set(i, lib<P>(v)); CHECK((*it).ind == i && unlib<P>((*it).val) == v); dx[i] = v; break; }
            case 5: { size_t k = s.draw(m - 1); z v = genZ<P>(s); if (v == z(0)) break; auto it = x.lower_bound(k); if (it == x.nzend()) break; size_t i = (*it).ind; s.note << " replace " << i << " by " << v;
                if (s.coin(1, 3)) { size_t lo = 0, hi = m; for (size_t j = 0; j < m; ++j) if (!(dx[j] == z(0))) { if (j < i) lo = j + 1; if (j > i) { hi = j; break; } } size_t n = s.range(lo, hi - 1); s.note << " at " << n; x.replace(it, n, lib<P>(v)); dx[i] = z(0); dx[n] = v; CHECK((*it).ind == n); } else { x.replace(it, lib<P>(v)); dx[i] = v; CHECK((*it).ind == i && unlib<P>((*it).val) == v); } break; }
            case 6: { auto p = s.perm(m); s.note << pbt::show(p); x.permute(p); DV<P> r(m, z(0)); for (size_t i = 0; i < m; ++i) r[p[i]] = dx[i]; dx = r; break; }
            case 7: { std::swap(x, y); std::swap(dx, dy); vy = toVec<P>(dy); break; }
            case 8: { size_t i = s.draw(m - 1); s.note << " unit " << i; x = SV<P>(i); dx.assign(m, z(0)); dx[i] = z(1); break; }
            case 9: { y = x; dy = dx; vy = toVec<P>(dy); x.set(m - 1, F<P>(1)); dx[m - 1] = z(1); break; }
        }
        auto ax = dense<P>(x, m, nm), ay = dense<P>(y, m, nm); CHECKM(ax == dx, nm << ": x is " << pbt::show(ax) << ", dense model " << pbt::show(dx)); CHECKM(ay == dy, nm << ": y is " << pbt::show(ay) << ", dense model " << pbt::show(dy));
        const auto& cx = x; size_t last = m; for (size_t i = 0; i <= m; ++i) { size_t lb = m, ub = m; for (size_t j = m; j-- > 0;) if (!(dx[j] == z(0))) { if (j >= i) lb = j; if (j > i) ub = j; } auto a = cx.lower_bound(i), b = cx.upper_bound(i); CHECK((a == cx.nzend()) == (lb == m)); CHECK((b == cx.nzend()) == (ub == m)); if (lb < m) CHECK((*a).ind == lb && (*x.lower_bound(i)).ind == lb); if (ub < m) CHECK((*b).ind == ub && (*x.upper_bound(i)).ind == ub); if (i < m) { CHECK(unlib<P>(x.get(i)) == dx[i]); if (!(dx[i] == z(0))) last = i; } }
        if (last < m) CHECK(x.lastnz().ind == last && unlib<P>(x.lastnz().val) == dx[last]);
        V<P> vx = toVec<P>(dx); CHECK((x == y) == (dx == dy)); CHECK(x == vx && (vx == x)); CHECK((x == vy) == (dx == dy));
    }
    s.nontrivial(cancel && grow && ranged);
}
PROP(history, "pairs of set-backed vectors of length 1-12 over F2, F3, F5, Q built in every way and changed by up to 8 whole and ranged additions (of set-backed and plain vectors), assignments, replacements through iterators, permutations and copies: entries, sorted indices, no stored zeros, bounds, last non-zero and comparison with plain sparse vectors equal a dense model; non-trivial: an addition cancelled an entry, one created an entry and one was restricted to part of the range", 60000, 2000000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; history<P>(s); });
}
PBT_MAIN("C40")
