// C22 General updates: cells added and removed
#include "oracle.hpp"
#include "persgen.hpp"
#include <chain/filtered_cochain_complex.hpp>
using pbt::Src; using namespace orc;
template <int P> using CH = bats::ChainComplex<M<P>>; template <int P> using FC = bats::FilteredChainComplex<double, M<P>>; template <int P> using RF = bats::ReducedFilteredChainComplex<double, M<P>>;
template <int P> using FD = bats::FilteredDGVectorSpace<double, M<P>>; template <int P> using RFD = bats::ReducedFilteredDGVectorSpace<double, M<P>>;
template <int P> void checkRDU(const M<P>& D, const M<P>& R, const M<P>& U, const std::string& w) {
    auto d = matOf<P>(D, "D"), r = matOf<P>(R, "R"), u = matOf<P>(U, "U"); CHECKM(u.m == u.n && u.n == d.n && r.m == d.m && r.n == d.n, w << ": shapes D " << d.m << "x" << d.n << " R " << r.m << "x" << r.n << " U " << u.m << "x" << u.n); if (!d.n) return; if (d.m) CHECKM(d * u == r, w << ": R is not D*U\nD=" << d << "\nU=" << u << "\nR=" << r);
    for (size_t j = 0; j < u.n; ++j) { CHECKM(!u(j, j).zero(), w << ": U has a zero on the diagonal " << u); for (size_t i = j + 1; i < u.m; ++i) CHECKM(u(i, j).zero(), w << ": U is not upper triangular"); } std::set<size_t> piv; for (size_t j = 0; j < r.n; ++j) for (size_t i = r.m; i-- > 0;) if (!r(i, j).zero()) { CHECKM(piv.insert(i).second, w << ": R is not reduced"); break; }
}
// a history of complexes on the same vertex set: each obtained by removing cells (with their cofaces), adding cells (with
// their faces), both, neither, or replacing everything; values new or carried over
struct Step { std::vector<Spx> v; std::map<Spx, double> val; };
static std::vector<Spx> sublist(const std::set<Spx>& c) { std::vector<Spx> v(c.begin(), c.end()); byDim(v); return v; }
template <class Cx0> Vals valsOf(const Cx0& X, const std::map<Spx, double>& m) { Vals r(X.maxdim() + 1); for (size_t k = 0; k <= X.maxdim(); ++k) for (auto& q : X.get_simplices(k)) { Spx t(q.begin(), q.end()); std::sort(t.begin(), t.end()); r[k].push_back(m.at(t)); } return r; }
struct Hist { size_t n, md; std::vector<Step> st; bool add = false, del = false, cross = false; };
static Hist genHist(Src& s) {
    Hist h; h.n = someN(s, 6); h.md = s.range(0, 3); if (h.md == 3 && h.n > 4 && s.coin(1, 6)) h.md = 5; size_t steps = 2 + s.draw(3); std::set<Spx> cur; std::map<Spx, double> val;
    for (size_t t = 0; t < steps; ++t) {
        std::set<Spx> old = cur; int m = t ? s.draw(4) : 0;
        if (m == 0) { auto v = genComplex(s, h.n, h.md, 4, s.coin(2, 3), false); cur = std::set<Spx>(v.begin(), v.end()); if (cur.empty()) cur.insert({0}); }
        if ((m == 1 || m == 3) && !cur.empty()) for (int i = 0, c = 1 + s.draw(2); i < c && cur.size() > 1; ++i) { auto v = sublist(cur); auto q = v[v.size() - 1 - s.draw(v.size() - 1)]; for (auto it = cur.begin(); it != cur.end();) if (std::includes(it->begin(), it->end(), q.begin(), q.end())) it = cur.erase(it); else ++it; if (cur.empty()) cur.insert({0}); }
        if (m == 2 || m == 3) for (int i = 0, c = 1 + s.draw(2); i < c; ++i) { auto p = s.perm(h.n); p.resize(1 + s.draw(std::min(h.md, h.n - 1))); std::sort(p.begin(), p.end()); auto c2 = closure({p}); cur.insert(c2.begin(), c2.end()); }
        bool keep = t && s.coin(); std::map<Spx, double> nv; auto v = sublist(cur); long rng = s.coin() ? 3 : 9; for (auto& q : v) { double x = (keep && val.count(q)) ? val[q] : (double)s.range(-rng, rng) / 2; if (q.size() > 1) for (size_t i = 0; i < q.size(); ++i) { Spx f = q; f.erase(f.begin() + i); x = std::max(x, nv.at(f)); } nv[q] = x; }
        if (t) { for (auto& q : cur) if (!old.count(q)) h.add = true; for (auto& q : old) if (!cur.count(q)) h.del = true; for (auto& q : cur) for (auto& p : cur) if (p.size() == q.size() && old.count(p) && old.count(q) && val[p] < val[q] && nv[p] > nv[q]) h.cross = true; }
        val = nv; h.st.push_back({linearExtension(s, v), nv}); s.note << (t ? " -> " : "") << "{"; for (auto& q : h.st.back().v) s.note << pbt::show(q) << "@" << nv[q] << " "; s.note << "}";
    }
    return h;
}
template <class X> X mkCx(const std::vector<Spx>& v, size_t n, size_t md) { X x(n, md); for (auto q : v) x.add(q); return x; }
template <class Fn> void withHist(Src& s, Fn fn) { bool lt = s.coin(); auto h = genHist(s); s.note << " md" << h.md << (lt ? " light" : ""); if (lt) fn(LightC(1, 0), h); else fn(bats::SimplicialComplex(), h); s.nontrivial(h.add && h.del && h.cross); }
template <class X> bats::Filtration<double, X> filt(const Hist& h, size_t t) { auto x = mkCx<X>(h.st[t].v, h.n, h.md); auto v = valsOf(x, h.st[t].val); return bats::Filtration(x, v); }
template <class Fn> void updFlag(int u, Fn f) { if (u == 0) f(); else if (u == 1) f(bats::standard_reduction_flag()); else f(bats::extra_reduction_flag()); }
#define RULE "non-trivial: cells added, cells removed and two kept cells exchanged in order during the history"
PROP(chain_f2, "histories of 2 to 5 filtrations over F2 on different simplicial complexes (hash and trie representation, cells removed and added in every dimension, reordered, values tied and negative, unordered insertion) starting from a reduction with any option keeping a basis; after each general update the pairing equals an independent one, R = D*U with the fresh boundary, homology dimensions and the filtered chain and cochain complexes equal fresh ones; " RULE, 12000, 200000) {
    constexpr int P = 2; withHist(s, [&](auto proto, const Hist& h) { using X = decltype(proto); auto F = filt<X>(h, 0); FC<P> C(F); bats::FilteredCochainComplex<double, M<P>> K(F); int o = pickBasisOpt(s); auto R = withFlags(o, [&](auto... a) { return RF<P>(C, a...); });
        for (size_t t = 1; t < h.st.size(); ++t) { auto F2 = filt<X>(h, t); auto vals = F2.vals(); bats::Update_info UI(F, F2); if (s.coin(1, 3)) { s.note << " info twice"; UI.filtered_info(R.perm); } int u = s.draw(2); updFlag(u, [&](auto... a) { R.update_filtration_general(UI, a...); }); FC<P> C2(F2); std::string w = "step " + std::to_string(t) + " " + optName19(o); auto x = cxOf<P>(CH<P>(F2.complex())); auto ref = refBars<P>(x, vals); CHECKM(R.val == vals && R.perm == C2.perm, w << ": values or order"); for (size_t k = 0; k <= h.md; ++k) { checkRDU<P>(C2.C.boundary[k], R.RC.R[k], R.RC.U[k], w + " degree " + std::to_string(k)); CHECKM((long)R.hdim(k) == x.betti(k), w << ": homology dimension " << k); } auto got = pairsOf(R, vals, w), want = refPairs(ref); CHECKM(got == want, w << "\n  got  " << showPairs(got) << "\n  want " << showPairs(want)); F = F2; } });
}
PROP(chain_complex_f2, "the filtered chain complex itself taken along the same histories over F2: after each general update boundary matrices, order and values equal a fresh one and reduce to the right barcode; " RULE, 8000, 100000) {
    constexpr int P = 2; withHist(s, [&](auto proto, const Hist& h) { using X = decltype(proto); auto F = filt<X>(h, 0); FC<P> C(F); for (size_t t = 1; t < h.st.size(); ++t) { auto F2 = filt<X>(h, t); auto vals = F2.vals(); bats::Update_info UI(F, F2); if (s.coin(1, 3)) { s.note << " info twice"; UI.filtered_info(C.perm); } C.update_filtration_general(UI); FC<P> C2(F2); CHECK(C.val == vals && C.perm == C2.perm); for (size_t k = 0; k <= h.md; ++k) CHECKM(matOf<P>(C.C.boundary[k], "b") == matOf<P>(C2.C.boundary[k], "b"), "step " << t << ": boundary " << k << matOf<P>(C.C.boundary[k], "b") << " fresh " << matOf<P>(C2.C.boundary[k], "b")); F = F2; } });
}
template <int P, class X, class Upd> void dgHist(Src& s, const Hist& h, int deg, int o, Upd upd) {
    auto F = filt<X>(h, 0); FD<P> C(F, deg); auto R = withFlags(o, [&](auto... a) -> RFD<P> { if constexpr (std::is_constructible_v<bats::ReducedDGVectorSpace<M<P>>, bats::DGVectorSpace<M<P>>, decltype(a)...>) return RFD<P>(C, a...); else return RFD<P>(C); });
    for (size_t t = 1; t < h.st.size(); ++t) { auto F2 = filt<X>(h, t); auto vals = F2.vals(); upd(R, F, F2); FD<P> C2(F2, deg); std::string w = "step " + std::to_string(t) + " degree " + std::to_string(deg) + " " + optName19(o); auto x = cxOf<P>(CH<P>(F2.complex())); CHECKM(R.val == vals && R.perm == C2.perm, w << ": values or order"); for (size_t q = 0; q < C2.C.differential.size() - (deg == -1); ++q) checkRDU<P>(C2.C.differential[q], R.RC.R[q], R.RC.U[q], w + " differential " + std::to_string(q)); for (size_t k = 0; k <= h.md; ++k) CHECKM((long)R.hdim(k) == x.betti(k), w << ": dimension " << R.hdim(k) << " in degree " << k << " expected " << x.betti(k)); auto got = pairsOf(R, vals, w), want = refPairs(refBars<P>(x, vals)); CHECKM(got == want, w << "\n  got  " << showPairs(got) << "\n  want " << showPairs(want)); F = F2; if (s.coin(1, 5)) { auto v = vals; for (auto& q : v) for (auto& y : q) y = -y; Vals v2 = vals; for (size_t k = 0; k < v2.size(); ++k) for (auto& y : v2[k]) y = (double)((long)(y * 2 + 100) / 3); F = bats::Filtration(F2.complex(), v2); R.update_filtration(v2); s.note << " coarsen"; } }
}
PROP(graded_f2, "the same histories over F2 for differential graded spaces of degree -1 and +1 by the general update with each reduction flag, plain value updates interleaved; " RULE, 12000, 200000) {
    withHist(s, [&](auto proto, const Hist& h) { int deg = s.coin() ? 1 : -1; int u = s.draw(2); dgHist<2, decltype(proto)>(s, h, deg, pickBasisOpt(s), [&](auto& R, auto& A, auto& B) { bats::Update_info UI(A, B); if (u == 2) UI.filtered_info(R.perm, deg); updFlag(u, [&](auto... a) { R.update_filtration_general(UI, a...); }); }); });
}
PROP(graded_clearing_f2, "the same with the clearing variant of the general update; " RULE, 12000, 200000) {
    withHist(s, [&](auto proto, const Hist& h) { int deg = s.coin() ? 1 : -1; dgHist<2, decltype(proto)>(s, h, deg, pickBasisOpt(s), [&](auto& R, auto& A, auto& B) { bats::Update_info UI(A, B); R.update_filtration_general_clearing(UI); }); });
}
PROP(graded_any_field, "the same histories over F2, F3, F5 and Q with the signed update information (deletions, insertions, permutation), degree -1 and +1; " RULE, 12000, 200000) {
    withField(s, [&](auto pc) { constexpr int P = decltype(pc)::value; withHist(s, [&](auto proto, const Hist& h) { int deg = s.coin() ? 1 : -1; dgHist<P, decltype(proto)>(s, h, deg, pickBasisOpt(s), [&](auto& R, auto& A, auto& B) { bats::UpdateInfo2 UI(A, B); R.update_basis(UI); }); }); });
}
// what the printed details of an update say
PROP(information, "two filtrations of different simplicial complexes on the same vertices: the details printed by Update_info name, in every dimension, exactly the removed cells with their old positions, the added cells with their new positions and the positions of their faces, and the kept cells with both positions (positions in filtration order), before and after asking for the filtered information again; " RULE, 6000, 100000) {
    withHist(s, [&](auto proto, const Hist& h) { using X = decltype(proto); auto F = filt<X>(h, 0), F2 = filt<X>(h, 1); bats::Update_info UI(F, F2); if (s.coin()) UI.filtered_info(bats::filtration_sortperm(F.vals())); std::ostringstream os; { auto* old = std::cout.rdbuf(os.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cout.rdbuf(b); } } bk{old}; UI.print_detail(); }
        auto where = [&](const auto& G, size_t k) { std::map<Spx, size_t> r; auto cs = G.complex().get_simplices(k); auto p = bats::filtration_sortperm(G.vals()[k]); for (size_t i = 0; i < p.size(); ++i) { Spx q(cs[p[i]].begin(), cs[p[i]].end()); std::sort(q.begin(), q.end()); r[q] = i; } return r; };
        std::istringstream in(os.str()); std::string line; int sec = 0; Spx last; std::vector<std::map<Spx, std::vector<size_t>>> D, A, K; std::vector<std::map<Spx, std::set<size_t>>> B;
        while (std::getline(in, line)) { if (line.rfind("For dimension ", 0) == 0) { CHECK(std::stol(line.substr(14)) == (long)D.size()); D.emplace_back(); A.emplace_back(); K.emplace_back(); B.emplace_back(); sec = 0; } else if (line.rfind("Deletion", 0) == 0) sec = 1; else if (line.rfind("Addition", 0) == 0) sec = 2; else if (line.rfind("Intersection", 0) == 0) sec = 3; else if (line.rfind("Transformed", 0) == 0) sec = 4;
            else if (sec && line.find('{') != std::string::npos && line[0] == '\t') { auto l = line.find('{'), r = line.find('}'); Spx q; std::string body = line.substr(l + 1, r - l - 1); for (auto& c : body) if (c == ',') c = ' '; std::istringstream bi(body); size_t x; while (bi >> x) q.push_back(x); std::sort(q.begin(), q.end()); std::string rest = line.substr(r + 1); for (auto& c : rest) if (!std::isdigit((unsigned char)c)) c = ' '; std::istringstream ri(rest); std::vector<size_t> pos; while (ri >> x) pos.push_back(x); auto& m = sec == 1 ? D.back() : sec == 2 ? A.back() : K.back(); CHECKM(m.emplace(q, pos).second, "a cell is listed twice: " << line); last = q; }
            else if (sec == 2 && line.find("boundary indices:") != std::string::npos) { std::istringstream bi(line.substr(line.find(':') + 1)); size_t x; while (bi >> x) CHECK(B.back()[last].insert(x).second); } }
        CHECKM(D.size() == F2.maxdim() + 1, "details in " << D.size() << " dimensions"); for (size_t d = 0; d < D.size(); ++d) { auto x = where(F, d), y = where(F2, d); std::map<Spx, std::vector<size_t>> de, ae, ke; std::map<Spx, std::set<size_t>> be; for (auto& [q, i] : x) if (!y.count(q)) de[q] = {i}; for (auto& [q, i] : y) if (!x.count(q)) { ae[q] = {i}; if (d) { auto z = where(F2, d - 1); for (size_t j = 0; j < q.size(); ++j) { Spx f = q; f.erase(f.begin() + j); be[q].insert(z.at(f)); } } } else ke[q] = {x[q], i}; CHECKM(D[d] == de, "removed cells in dimension " << d << "\n" << os.str()); CHECKM(A[d] == ae, "added cells in dimension " << d << "\n" << os.str()); CHECKM(K[d] == ke, "kept cells in dimension " << d << "\n" << os.str()); CHECKM(B[d] == be, "faces of added cells in dimension " << d << "\n" << os.str()); } });
}
PBT_MAIN("C22")
