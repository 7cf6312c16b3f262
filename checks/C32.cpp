// C32 Permutation, sorting and set utilities are correct for every input
#include "complexgen.hpp"
using pbt::Src; using namespace orc; namespace bu = bats::util;
typedef std::vector<size_t> Perm;
static bool isPerm(const Perm& p, size_t n) { if (p.size() != n) return false; std::vector<char> u(n, 0); for (auto i : p) { if (i >= n || u[i]) return false; u[i] = 1; } return true; }
static size_t inversions(const std::vector<long>& v) { size_t c = 0; for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) c += v[i] > v[j]; return c; }
static std::vector<long> genVals_(Src& s, size_t n, long sp) { std::vector<long> v(n); for (auto& x : v) x = s.range(-sp, sp); s.note << pbt::show(v); return v; }
static bool ties(std::vector<long> v) { std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) != v.end(); }
template <class T> void sortCase(Src& s, const std::vector<long>& w) {
    std::vector<T> v(w.begin(), w.end()); size_t n = v.size(); auto chk = [&](const Perm& p, bool stable, const char* name, auto less) { CHECKM(isPerm(p, n), name << " is not a permutation: " << pbt::show(p)); for (size_t i = 0; i + 1 < n; ++i) { CHECKM(!less(v[p[i + 1]], v[p[i]]), name << ": position " << i << " is out of order"); if (stable && !less(v[p[i]], v[p[i + 1]])) CHECKM(p[i] < p[i + 1], name << " is not stable"); } }; auto lt = [](T a, T b) { return a < b; }; auto gt = [](T a, T b) { return b < a; };
    chk(bu::sortperm(v), false, "sortperm", lt); chk(bu::sortperm(v.cbegin(), v.cend()), false, "sortperm of range", lt); chk(bu::sortperm(v.begin(), v.end(), gt), false, "sortperm with comparison", gt); chk(bu::stable_sortperm(v), true, "stable_sortperm", lt); chk(bats::sort_indexes(v), true, "sort_indexes", lt); Perm p{7, 7, 7}; bu::fill_sortperm(v, p); chk(p, false, "fill_sortperm", lt); bu::fill_sortperm(v.cbegin(), v.cend(), p); chk(p, false, "fill_sortperm of range", lt);
    if (n) { size_t a = s.range(0, n - 1), b = s.range(a, n); auto q = bu::sortperm(a, b, [&](size_t x, size_t y) { return v[x] < v[y]; }); CHECK(isPerm(q, b - a)); for (size_t i = 0; i + 1 < b - a; ++i) CHECKM(!(v[a + q[i + 1]] < v[a + q[i]]), "sortperm of index range"); std::vector<T> y{T(9)}; bu::sort_into(v, y); auto z = v; std::sort(z.begin(), z.end()); CHECKM(y == z, "sort_into"); }
    auto r = bats::find_perm_from_vector(v); CHECK(isPerm(r, n)); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (v[i] < v[j] || (v[i] == v[j] && i < j)) CHECKM(r[i] < r[j], "find_perm_from_vector ranks");
    size_t k = s.range(0, n); s.note << " k" << k; auto kth = [&](const Perm& g, size_t k, bool sorted, const char* name) { CHECKM(g.size() == k, name << " has " << g.size() << " entries"); std::set<size_t> u(g.begin(), g.end()); CHECKM(u.size() == k, name << " repeats an index"); for (auto i : g) { CHECK(i < n); for (size_t j = 0; j < n; ++j) if (!u.count(j)) CHECKM(!(v[j] < v[i]), name << ": a smaller element is left out"); } if (sorted) for (size_t i = 0; i + 1 < k; ++i) CHECKM(!(v[g[i + 1]] < v[g[i]]), name << " out of order"); };
    kth(bu::firstk(v.cbegin(), v.cend(), k), k, true, "firstk"); kth(bu::top_k(v, k), k, false, "top_k"); if (n) { double f = (double)k / (double)n; kth(bu::top_p(v, f), k, false, "top_p"); }
}
PROP(sorting, "vectors of 0 to 40 values with ties (int, double, size_t): every sort permutation is a permutation that sorts (stably where promised), ranks, smallest-k selections for every k; non-trivial: ties and at least 4 values", 20000, 300000) { size_t n = s.sized(0, 40); auto v = genVals_(s, n, s.range(0, 12)); int t = (int)s.draw(2); if (t == 0) sortCase<int>(s, v); else if (t == 1) sortCase<double>(s, v); else { for (auto& x : v) x += 12; sortCase<size_t>(s, v); } s.nontrivial(n > 3 && ties(v)); }
PROP(permuting, "permutations of 0 to 30 entries of numbers and strings: gathering, scattering and swapping forms move every entry to its place, a permutation followed by its inverse restores the data, inverse, identity, partial permutation; non-trivial: the permutation is not its own inverse", 20000, 300000) {
    size_t n = s.sized(0, 30); auto p = s.perm(n); s.note << pbt::show(p); std::vector<std::string> v; std::vector<long> w; for (size_t i = 0; i < n; ++i) { w.push_back(s.range(-9, 9)); v.push_back(std::string(1 + i % 3, (char)('a' + s.range(0, 25)))); } Perm inv(n); for (size_t i = 0; i < n; ++i) inv[p[i]] = i; CHECKM(bu::inv_perm(p) == inv, "inv_perm"); Perm id(n); for (size_t i = 0; i < n; ++i) id[i] = i; CHECK(bats::identity_perm(n) == id);
    auto run = [&](auto x, const char* ty) { auto g = x, sc = x; for (size_t i = 0; i < n; ++i) { g[i] = x[p[i]]; sc[p[i]] = x[i]; } auto a = x; bu::apply_perm(a, p); CHECKM(a == g, "apply_perm " << ty); bu::apply_perm(a, inv); CHECKM(a == x, "apply_perm then inverse " << ty); a = x; bu::apply_perm(a.data(), p); CHECKM(a == g, "apply_perm of pointer"); typename std::decay<decltype(x)>::type tmp(s.range(0, 3)); a = x; bu::apply_perm(a.data(), tmp, p); CHECKM(a == g, "apply_perm with buffer"); a = x; bu::apply_perm_swap(a, p); CHECKM(a == sc, "apply_perm_swap " << ty); bu::apply_iperm_swap(a, p); CHECKM(a == x, "swap then inverse swap " << ty); a = x; bu::apply_iperm_swap(a, p); CHECKM(a == g, "apply_iperm_swap " << ty); }; run(v, "strings"); run(w, "numbers");
    size_t extra = s.range(0, 4); auto q = bats::extension_perm(p, n + extra); CHECK(q.size() == n + extra); for (size_t i = 0; i < q.size(); ++i) CHECKM(q[i] == (i < n ? p[i] : i), "extension_perm at " << i); auto ri = bu::rand_perm(n); CHECKM(isPerm(ri, n), "rand_perm");
    auto sub = s.subset(n, 1, 2); Perm ind(sub.begin(), sub.end()); auto sh = s.perm(ind.size()); Perm un; for (auto i : sh) un.push_back(ind[i]); auto pp = bu::partial_perm(un, n); CHECK(pp.size() == n); for (size_t i = 0; i < n; ++i) { auto it = std::find(un.begin(), un.end(), i); CHECKM(pp[i] == (it == un.end() ? bats::NO_IND : (size_t)(it - un.begin())), "partial_perm at " << i); }
    auto e = bats::perm_to_the_end(ind, n); Perm we; for (size_t i = 0; i < n; ++i) if (!std::binary_search(ind.begin(), ind.end(), i)) we.push_back(i); we.insert(we.end(), ind.begin(), ind.end()); CHECKM(e == we, "perm_to_the_end of " << pbt::show(ind) << " is " << pbt::show(e)); if (n) { size_t i = s.range(0, n - 1); auto e1 = bats::perm_to_the_end(i, n); CHECKM(e1 == bats::perm_to_the_end(Perm{i}, n) && e1.back() == i && isPerm(e1, n) && std::is_sorted(e1.begin(), e1.end() - 1), "perm_to_the_end of one index"); }
    auto u1 = un; bu::sort_ind_by_perm(u1, p); auto key = [&](size_t a, size_t b) { return p[a] < p[b]; }; CHECKM(std::is_sorted(u1.begin(), u1.end(), key) && std::multiset<size_t>(u1.begin(), u1.end()) == std::multiset<size_t>(un.begin(), un.end()), "sort_ind_by_perm"); Perm ip{3}; bu::fill_partial_sortperm(un, p, ip); CHECK(isPerm(ip, un.size())); for (size_t i = 0; i < ip.size(); ++i) CHECKM(un[ip[i]] == u1[i], "fill_partial_sortperm"); Perm u2 = un, u3; for (auto x : un) u3.push_back(x * 7 + 1); bu::sort_ind_pair_by_perm(u2, u3, p); CHECKM(u2 == u1, "sort_ind_pair_by_perm: first"); for (size_t i = 0; i < u2.size(); ++i) CHECKM(u3[i] == u2[i] * 7 + 1, "sort_ind_pair_by_perm: second list does not follow"); s.nontrivial(p != inv);
}
PROP(inversions_, "permutations and vectors of 0 to 60 entries: inversion count, sign and Kendall-tau distance (one, two and many permutations) equal brute-force counts, distances symmetric and zero on equal permutations, sign multiplicative; non-trivial: two different permutations of at least 4 entries", 15000, 200000) {
    size_t n = s.coin(1, 400) ? s.range(100, 300) : s.sized(0, s.coin(1, 6) ? 60 : 12); auto p = s.perm(n), q = s.perm(n); s.note << pbt::show(p) << pbt::show(q); auto L = [](const Perm& p) { return std::vector<long>(p.begin(), p.end()); }; size_t ip = inversions(L(p)), iq = inversions(L(q)); CHECKM(bu::perm_inversions(p) == ip, "perm_inversions " << bu::perm_inversions(p) << " expected " << ip); CHECK(bu::perm_sign(p) == (ip % 2 ? -1 : 1)); CHECKM(bats::Kendall_tau(p) == ip, "Kendall_tau " << bats::Kendall_tau(p) << " expected " << ip);
    Perm pq(n); for (size_t i = 0; i < n; ++i) pq[i] = p[q[i]]; CHECK(bu::perm_sign(pq) == bu::perm_sign(p) * bu::perm_sign(q)); size_t d = 0; Perm a(n), b(n); for (size_t i = 0; i < n; ++i) { a[p[i]] = i; b[q[i]] = i; } for (size_t x = 0; x < n; ++x) for (size_t y = x + 1; y < n; ++y) d += (a[x] < a[y]) != (b[x] < b[y]); auto p0 = p, q0 = q; CHECKM(bats::Kendall_tau(p, q) == d, "distance of two permutations " << bats::Kendall_tau(p, q) << " expected " << d); CHECK(bats::Kendall_tau(q, p) == d && bats::Kendall_tau(p, p) == 0 && p == p0 && q == q0);
    std::vector<Perm> many{p, q, pq}; auto t = bats::Kendall_tau(many); CHECKM(t == (std::vector<size_t>{ip, iq, inversions(L(pq))}), "distances of a list"); std::vector<int> v; long vm = s.pick(std::vector<long>{5, 5, 5, 300, 40000, 2000000000}); for (size_t i = 0; i < n; ++i) v.push_back((int)s.range(-vm, vm)); CHECKM(bats::Kendall_tau(v) == inversions(std::vector<long>(v.begin(), v.end())), "inversions of a list with ties"); CHECK(bu::perm_inversions(v) == inversions(std::vector<long>(v.begin(), v.end()))); std::vector<int> arr = v; if (n) { bats::Kendall_tau_inplace(arr.data(), 0, (int)n - 1); std::sort(v.begin(), v.end()); CHECKM(arr == v, "in-place count does not sort"); } s.nontrivial(n > 3 && p != q);
}
PROP(sorted_sets, "sorted lists and sets of 0 to 15 small numbers: intersection (bounded and tested forms, list and set targets), union, complement, last element below a value; non-trivial: the intersection has an element below and one at or above the bound", 25000, 400000) {
    long sp = s.range(1, 20); auto gen = [&] { std::set<size_t> q; long c = s.range(0, 15); for (long i = 0; i < c; ++i) q.insert((size_t)s.range(0, sp)); s.note << pbt::show(q); return q; }; auto A = gen(), B = gen(); size_t mx = (size_t)s.range(0, sp + 1); s.note << " bound " << mx; std::vector<size_t> a(A.begin(), A.end()), b(B.begin(), B.end()), I, Il, U, g{5, 5}; std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(I)); for (auto x : I) if (x < mx) Il.push_back(x); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(U));
    bu::intersect_sorted(a, b, g); CHECKM(g == I, "intersect_sorted of lists"); bu::intersect_sorted(A, b, g); CHECKM(g == I, "intersect_sorted of set and list"); std::set<size_t> gs{99}; bu::intersect_sorted(A, B, gs); CHECKM(gs == std::set<size_t>(I.begin(), I.end()), "intersect_sorted into a set"); CHECKM(bu::has_intersect_sorted(a, B) == !I.empty(), "has_intersect_sorted"); g = {4}; bu::intersect_sorted_lt(a, b, mx, g); CHECKM(g == Il, "intersection below " << mx << " is " << pbt::show(g) << " expected " << pbt::show(Il)); bu::intersect_sorted_lt(B, a, mx, g); CHECKM(g == Il, "bounded intersection is not symmetric"); CHECKM(bu::has_intersect_sorted_lt(a, b, mx) == !Il.empty(), "has_intersect_sorted_lt"); CHECK(bu::has_intersect_sorted_lt(B, A, mx) == !Il.empty());
    CHECKM(bu::set_intersection(a, B) == std::set<size_t>(I.begin(), I.end()), "set_intersection"); CHECKM(bu::set_union(A, b) == std::set<size_t>(U.begin(), U.end()), "set_union"); CHECK(bu::to_set(b) == B); { size_t i = bu::find_sorted_lt(a.cbegin(), a.cend(), mx), w = bats::NO_IND; for (size_t k = 0; k < a.size(); ++k) if (a[k] < mx) w = k; CHECKM(i == w, "find_sorted_lt " << i << " expected " << w); }
    size_t n = (size_t)s.range(a.empty() ? 0 : (long)a.back() + 1, sp + 2); auto c = bu::sorted_complement(a, n); std::vector<size_t> wc; for (size_t i = 0; i < n; ++i) if (!A.count(i)) wc.push_back(i); CHECKM(c == wc, "sorted_complement in " << n); size_t k = n ? (size_t)s.range(0, (long)n) : 0; if (n) { auto r = bu::random_subset(n, k); CHECKM(r.size() == k && (r.empty() || *r.rbegin() < n), "random_subset"); } s.nontrivial(!Il.empty() && Il.size() < I.size());
}
PROP(sum_reduce, "index and value lists with repeated indices, cancellations and an untouched prefix: afterwards the tail has increasing indices with the non-zero sums; non-trivial: an index cancels and another one is merged", 20000, 300000) {
    size_t off = s.range(0, 3), n = bigN(s, 0, 14, 80); std::vector<size_t> ind; std::vector<long> val; std::map<size_t, long> m; std::map<size_t, int> cnt; for (size_t i = 0; i < off + n; ++i) { ind.push_back(s.range(0, n > 14 ? 40 : 5)); val.push_back(s.range(-2, 2)); if (i >= off) { m[ind[i]] += val[i]; ++cnt[ind[i]]; } } s.note << "offset " << off << " " << pbt::show(ind) << pbt::show(val); auto i0 = ind; auto v0 = val; bool canc = false, merg = false; for (auto it = m.begin(); it != m.end();) { if (!it->second) { canc = true; it = m.erase(it); } else { merg |= cnt[it->first] > 1; ++it; } }
    Perm perm, ti; std::vector<long> tv; if (s.coin()) { perm.assign(20, 3); ti.assign(2, 1); tv.assign(30, 1); } bu::sort_sum_reduce(ind, val, off, perm, ti, tv); CHECK(ind.size() == val.size()); CHECKM(ind.size() == off + m.size(), "result has " << ind.size() << " entries, expected " << off + m.size()); for (size_t i = 0; i < off; ++i) CHECKM(ind[i] == i0[i] && val[i] == v0[i], "prefix changed"); size_t k = off; for (auto& p : m) { CHECKM(ind[k] == p.first && val[k] == p.second, "entry " << k << " is " << ind[k] << ":" << val[k] << " expected " << p.first << ":" << p.second); ++k; } s.nontrivial(canc && merg);
}
PROP(simplex_signs, "vertex lists of 0 to 7 entries with repetitions: sorted afterwards, sign of the sorting permutation, zero exactly for repeated vertices; written simplices read back; non-trivial: an odd permutation of at least 3 vertices", 20000, 200000) {
    size_t n = bigN(s, 0, 7, 20); std::vector<size_t> v; for (size_t i = 0; i < n; ++i) v.push_back((size_t)s.range(0, n > 7 ? 300 : 9)); s.note << pbt::show(v); std::vector<long> w(v.begin(), v.end()); auto x = v; int sg = bu::simplex_sign(x); auto so = v; std::sort(so.begin(), so.end()); CHECKM(x == so, "not sorted"); bool deg = ties(w); int e = deg ? 0 : inversions(w) % 2 ? -1 : 1; CHECKM(sg == e, "sign " << sg << " expected " << e); CHECK(bu::is_degenerate(so) == deg);
    std::vector<size_t> y{3}; for (int f = 0; f < 2; ++f) { std::ostringstream o; if (f) bu::write_simplex(o, v.begin(), v.end()); else bu::write_simplex(o, v); std::string line = o.str(); CHECK(!line.empty() && line.back() == '\n'); line.pop_back(); bu::read_simplex(line, y); CHECKM(y == v, "read " << pbt::show(y)); } s.nontrivial(e == -1 && n > 2);
}
PROP(trie, "histories of insertions and overwrites of keys (prefix-closed or of equal length), lookups of present and absent keys with and without default, copies, moves and assignments: agrees with a map, copies are independent; non-trivial: an overwritten key and a copy changed afterwards", 10000, 100000) {
    typedef bats::SparseTrie<size_t, size_t> Tr; bool fixed = s.coin(); size_t len = bigN(s, 1, 3, 9); Perm lab = s.pick(std::vector<Perm>{{0, 1, 2}, {0, 1, 2}, {7, 300, 256}, {1, 65537, 65536}, {(size_t)1 << 32, 0, 3}, {(size_t)-1, (size_t)-2, (size_t)1 << 63}}); s.note << pbt::show(lab); std::vector<Tr> t(1); std::vector<std::map<Perm, size_t>> m(1); if (!fixed) { t[0].emplace({}, (size_t)5); m[0][{}] = 5; } size_t ops = s.sized(1, 20); bool over = false, indep = false;
    auto key = [&] { Perm k; size_t l = fixed ? len : s.range(0, 3); for (size_t i = 0; i < l; ++i) k.push_back(lab[s.range(0, 2)]); return k; }; auto check = [&](size_t j) { std::vector<Perm> ks{{}}; for (size_t a = 0; a < 3; ++a) for (int d = 0; d < 3; ++d) { size_t e = ks.size(); for (size_t i = 0; i < e; ++i) if (ks[i].size() == (size_t)d) { auto q = ks[i]; q.push_back(lab[a]); if (std::find(ks.begin(), ks.end(), q) == ks.end()) ks.push_back(q); } } for (auto& k : ks) { if (fixed && k.size() < len) continue; bool in = m[j].count(k); const Tr& c = t[j]; CHECKM(c.get(k, 777) == (in ? m[j][k] : 777) && t[j].get(k, 777) == (in ? m[j][k] : 777), "lookup of " << pbt::show(k)); CHECK(t[j].count(k) == (in ? 1u : 0u)); if (in) CHECK(t[j][k] == m[j][k]); } };
    for (size_t o = 0; o < ops; ++o) { size_t j = s.draw(t.size() - 1); switch (s.draw(5)) { case 0: case 1: case 2: { auto k = key(); size_t v = s.range(0, 99); s.note << " " << j << pbt::show(k) << "=" << v; if (!fixed) for (size_t l = 0; l < k.size(); ++l) { Perm q(k.begin(), k.begin() + l); if (!m[j].count(q)) { t[j].emplace(q, (size_t)1); m[j][q] = 1; } } over |= m[j].count(k) > 0; indep |= t.size() > 1; if (s.coin()) t[j].emplace(k, v); else t[j].insert(k.cbegin(), k.cend(), v); m[j][k] = v; break; } case 3: if (t.size() < 4) { s.note << " copy" << j; t.emplace_back(t[j]); m.push_back(m[j]); } break; case 4: { size_t i = s.draw(t.size() - 1); s.note << " " << i << ":=" << j; t[i] = t[j]; m[i] = m[j]; break; } default: { s.note << " move" << j; Tr x(std::move(t[j])); if (s.coin()) t[j] = std::move(x); else { Tr y; y = std::move(x); t[j] = std::move(y); } } } check(j); } for (size_t j = 0; j < t.size(); ++j) check(j); s.nontrivial(over && indep);
}
PBT_MAIN("C32")
