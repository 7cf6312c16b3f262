// pbt.hpp - choice-sequence property-based testing engine (single translation unit per check).
//
// A property is  void f(pbt::Src& s).  All randomness comes from s.  A failing case is a throw of pbt::Fail,
// any other exception, a crash / sanitizer report, or CPU-time non-termination; it is shrunk on the choice
// sequence in forked children, replayed three times and written to a replay file.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <omp.h>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

static constexpr size_t MAXCH = 1 << 15;     // choices per case
static constexpr size_t DESC = 1 << 15;
static constexpr size_t NLAB = 160;
static constexpr size_t HTAB = 1 << 22;

struct Slot {                                // one per worker
    volatile int state;                      // 0 idle 1 running 2 failed
    volatile int prop;
    volatile uint64_t idx;
    volatile uint64_t nch;
    uint64_t ch[MAXCH];
    char msg[8192];
    char desc[DESC];
};
struct Label { std::atomic<int> used; char name[56]; std::atomic<uint64_t> n; };
struct PStat { std::atomic<uint64_t> evals, nontriv, distinct, discards; std::atomic<int> nsamples; char sample[3][1500]; };
static constexpr size_t NPROP = 64;
struct Shared {
    std::atomic<int> stop;
    Slot slot[65];
    Label lab[NLAB];
    PStat st[NPROP];
    std::atomic<uint64_t> h[HTAB];
};
inline Shared* SH = nullptr;

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}

// writes the case description straight into shared memory, so it survives a crash of the child
struct SlotBuf : std::streambuf {
    char* b; size_t n = 0; explicit SlotBuf(char* b) : b(b) { b[0] = 0; }
    int overflow(int c) override { if (c != EOF && n + 1 < DESC) { b[n++] = (char)c; b[n] = 0; } return c; }
    std::streamsize xsputn(const char* s, std::streamsize k) override {
        size_t m = std::min<size_t>(k, DESC - 1 - n); memcpy(b + n, s, m); n += m; b[n] = 0; return k; }
};
struct Src {
    Slot* sl;
    explicit Src(Slot* sl) : sl(sl), buf(sl->desc), note(&buf) {}
    const std::vector<uint64_t>* rep = nullptr;
    uint64_t rng = 0;
    size_t pos = 0;
    size_t size = 100;
    int prop = 0;
    bool nt = false;
    SlotBuf buf; std::ostream note;          // human readable description of the case
    std::vector<std::string> labels;

    uint64_t next() { rng += 0x9e3779b97f4a7c15ull; return mix(rng); }
    // uniform in [0, maxv]
    uint64_t draw(uint64_t maxv) {
        uint64_t v;
        if (rep) v = pos < rep->size() ? std::min((*rep)[pos], maxv) : 0;
        else { uint64_t r = next(); v = maxv == UINT64_MAX ? r : r % (maxv + 1); }
        if (pos >= MAXCH) throw Discard{};
        sl->ch[pos++] = v; sl->nch = pos;
        return v;
    }
    uint64_t force(uint64_t want, uint64_t maxv) {   // recorded choice with a preset value
        uint64_t v = rep ? (pos < rep->size() ? std::min((*rep)[pos], maxv) : 0) : want;
        sl->ch[pos++] = v; sl->nch = pos; return v;
    }
    long range(long lo, long hi) { return hi <= lo ? lo : lo + (long)draw((uint64_t)(hi - lo)); }
    // upper end scales with the size of the case
    long sized(long lo, long hi) { long h = lo + (hi - lo) * (long)size / 100; return range(lo, std::max(lo, h)); }
    bool coin(unsigned num = 1, unsigned den = 2) { return draw(den - 1) >= den - num; }
    // integer near zero, mostly small, sometimes large; shrinks to 0
    long anyint(long mag) {
        uint64_t k = draw(9);
        long m = k < 6 ? std::min<long>(mag, 4) : k < 9 ? std::min<long>(mag, 40) : mag;
        uint64_t v = draw((uint64_t)m * 2 + 1 - 1);
        return (v & 1) ? -(long)((v + 1) / 2) : (long)(v / 2);
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    std::vector<size_t> perm(size_t n) {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) p[i] = i;
        for (size_t i = 0; i + 1 < n; ++i) std::swap(p[i], p[i + draw(n - 1 - i)]);
        return p;
    }
    // sorted subset of {0..n-1}; density num/den
    std::vector<size_t> subset(size_t n, unsigned num = 1, unsigned den = 2) {
        std::vector<size_t> r;
        for (size_t i = 0; i < n; ++i) if (coin(num, den)) r.push_back(i);
        return r;
    }
    void label(const std::string& l) { labels.push_back(l); }
    void nontrivial(bool b = true) { nt = nt || b; }
};

#define PBT_FAIL(expr) do { std::ostringstream o_; o_ << expr; throw pbt::Fail{o_.str()}; } while (0)
#define CHECKM(cond, expr) do { if (!(cond)) PBT_FAIL(#cond << " failed: " << expr); } while (0)
#define CHECK(cond) do { if (!(cond)) PBT_FAIL(#cond << " failed at line " << __LINE__); } while (0)
#define CHECKEQ(a, b) do { auto va_ = (a); auto vb_ = (b); if (!(va_ == vb_)) \
    PBT_FAIL(#a " == " #b " failed at line " << __LINE__ << ": " << pbt::show(va_) << " vs " << pbt::show(vb_)); } while (0)

template <class T> std::string show(const T& x);
template <class T> struct Shower { static void go(std::ostream& o, const T& x) {
    if constexpr (requires_stream<T>::value) o << x; else o << "?"; }
    template <class U> struct requires_stream {
        template <class V> static auto t(int) -> decltype(std::declval<std::ostream&>() << std::declval<const V&>(), std::true_type{});
        template <class V> static std::false_type t(...);
        static constexpr bool value = decltype(t<U>(0))::value; };
};
template <class T> struct Shower<std::vector<T>> { static void go(std::ostream& o, const std::vector<T>& v) {
    o << "["; bool f = true; for (const auto& x : v) { if (!f) o << ","; f = false; const T y = x; Shower<T>::go(o, y); } o << "]"; } };
template <class T> struct Shower<std::set<T>> { static void go(std::ostream& o, const std::set<T>& v) {
    o << "{"; bool f = true; for (auto& x : v) { if (!f) o << ","; f = false; Shower<T>::go(o, x); } o << "}"; } };
template <class A, class B> struct Shower<std::pair<A, B>> { static void go(std::ostream& o, const std::pair<A, B>& v) {
    o << "("; Shower<A>::go(o, v.first); o << ","; Shower<B>::go(o, v.second); o << ")"; } };
template <class A, class B> struct Shower<std::map<A, B>> { static void go(std::ostream& o, const std::map<A, B>& v) {
    o << "{"; for (auto& x : v) { Shower<A>::go(o, x.first); o << ":"; Shower<B>::go(o, x.second); o << " "; } o << "}"; } };
template <class T> std::string show(const T& x) { std::ostringstream o; Shower<T>::go(o, x); return o.str(); }

// expects an exception (any type derived from anything) from the expression
template <class F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

struct Prop { std::string name; std::string rule; uint64_t nq, nt; std::function<void(Src&)> f; bool known = false; };
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
struct Reg { Reg(const char* n, const char* rule, uint64_t nq, uint64_t nt, std::function<void(Src&)> f, bool known = false) {
    props().push_back({n, rule, nq, nt, f, known}); } };
// PROP(name, "what is generated; what makes a case non-trivial", quick cases, thorough cases) { ... uses s ... }
#define PROP(name, rule, nq, nt) static void pbt_##name(pbt::Src& s); \
    static pbt::Reg pbt_reg_##name(#name, rule, nq, nt, pbt_##name); static void pbt_##name(pbt::Src& s)
// a defect recorded in known_findings.txt: the body fails while the defect is present
#define KNOWN(name, rule) static void pbt_##name(pbt::Src& s); \
    static pbt::Reg pbt_reg_##name(#name, rule, 1, 1, pbt_##name, true); static void pbt_##name([[maybe_unused]] pbt::Src& s)

inline uint64_t g_seed = 1; inline std::string g_variant = "fast", g_part = ""; inline int g_cpu = 20;

inline void cpu_timer(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }

// runs one case in this process; returns 0 ok, 1 fail, 2 discard
inline int run_case(int pi, const std::vector<uint64_t>* rep, uint64_t idx, Slot* sl, bool stats) {
    Prop& P = props()[pi];
    Src s(sl); s.rep = rep; s.prop = pi;
    uint64_t hn = 1469598103934665603ull; for (char c : P.name + g_variant + g_part) hn = (hn ^ (unsigned char)c) * 1099511628211ull;
    s.rng = mix(mix(g_seed ^ hn) + idx * 0xd1342543de82ef95ull);
    sl->prop = pi; sl->idx = idx; sl->nch = 0; sl->msg[0] = 0; sl->state = 1;
    cpu_timer(g_cpu);
    omp_set_num_threads(1);
    int r = 0;
    try {
        s.size = s.force(10 + (idx * 37) % 91, 100);
        P.f(s);
    } catch (Fail& f) { snprintf(sl->msg, sizeof sl->msg, "%s", f.msg.c_str()); r = 1; }
    catch (Discard&) { r = 2; }
    catch (std::exception& e) { snprintf(sl->msg, sizeof sl->msg, "unexpected exception %s: %s", typeid(e).name(), e.what()); r = 1; }
    catch (...) { snprintf(sl->msg, sizeof sl->msg, "unexpected exception (not std::exception)"); r = 1; }
    cpu_timer(0);
    if (stats && r != 1) {
        PStat& st = SH->st[pi];
        if (r == 2) st.discards++;
        else {
            st.evals++;
            for (auto& l : s.labels) {
                std::string full = P.name + ":" + l;
                for (size_t k = 0, j = std::hash<std::string>{}(full) % NLAB; k < NLAB; ++k, j = (j + 1) % NLAB) {
                    Label& L = SH->lab[j]; int z = 0;
                    if (L.used.compare_exchange_strong(z, 1)) { snprintf(L.name, sizeof L.name, "%s", full.c_str()); L.used = 2; }
                    while (L.used != 2) {}
                    if (strncmp(L.name, full.c_str(), sizeof L.name - 1) == 0) { L.n++; break; }
                }
            }
            if (s.nt) {
                st.nontriv++;
                uint64_t h = 1469598103934665603ull ^ hn;
                for (size_t i = 1; i < s.pos; ++i) h = mix(h ^ sl->ch[i]);
                h |= 1;
                for (size_t k = 0, j = h % HTAB; k < 64; ++k, j = (j + 1) % HTAB) {
                    uint64_t z = 0;
                    if (SH->h[j].compare_exchange_strong(z, h)) { st.distinct++; break; }
                    if (z == h) break;
                }
                if (st.nsamples < 3 && idx % 7 == 3) {
                    int k = st.nsamples.fetch_add(1);
                    if (k < 3) snprintf(st.sample[k], sizeof st.sample[k], "%s", sl->desc);
                    else st.nsamples = 3;
                }
            }
        }
    }
    sl->state = r == 1 ? 2 : 0;
    return r;
}

inline std::string g_tmp = "/tmp";
inline void child_setup(const std::string& errfile) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
    int fe = errfile.empty() ? fd : open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fe, 2);
    signal(SIGPROF, SIG_DFL);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 3500ull << 20; setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
}
inline std::string death(int st) {
    std::ostringstream o;
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGPROF) o << "no termination within " << g_cpu << " s of CPU time";
        else o << "crash: signal " << sg << " (" << strsignal(sg) << ")";
    } else o << "process exit status " << WEXITSTATUS(st) << " (sanitizer report or exit call)";
    return o.str();
}
inline std::string err_summary(const std::string& f) {
    std::ifstream in(f); std::string l, out; int n = 0;
    while (std::getline(in, l)) {
        if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("SUMMARY") != std::string::npos
            || l.find("Assertion") != std::string::npos || (l.find("/repo/include") != std::string::npos && n < 6)) { out += l.substr(0, 300) + "\n"; if (++n > 10) break; }
    }
    return out;
}
// runs a choice sequence in a forked child. returns true when it fails; msg/desc/normalised choices in slot 64
inline bool fails_forked(int pi, const std::vector<uint64_t>& ch, std::string* msg) {
    Slot* sl = &SH->slot[64];
    std::string ef = g_tmp + "/err." + std::to_string(getpid());
    sl->nch = 0; sl->msg[0] = 0; sl->desc[0] = 0;
    pid_t p = fork();
    if (p == 0) { child_setup(msg ? ef : ""); int r = run_case(pi, &ch, 0, sl, false); _exit(r == 1 ? 77 : 0); }
    int st = 0; 
    auto t0 = std::chrono::steady_clock::now(); bool wall = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
        usleep(200);
        if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(240)) { wall = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
    }
    if (wall) return false;
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) bad = false;   // memory guard: inconclusive
    if (bad && msg) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) *msg = sl->msg;
        else *msg = death(st) + "\n" + err_summary(ef);
    }
    unlink(ef.c_str());
    return bad;
}
inline std::vector<uint64_t> shrink(int pi, std::vector<uint64_t> best, double budget) {
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
    auto take = [&](std::vector<uint64_t> c) {
        if (over()) return false;
        if (!fails_forked(pi, c, nullptr)) return false;
        Slot* sl = &SH->slot[64];
        std::vector<uint64_t> n(sl->ch, sl->ch + std::min<size_t>((size_t)sl->nch, MAXCH));
        if (!n.empty() && n.size() <= c.size()) c = n;        // drop unread tail, normalise clamped values
        while (!c.empty() && c.back() == 0) c.pop_back();
        if (c == best) return false;
        best = c; return true;
    };
    bool prog = true;
    while (prog && !over()) {
        prog = false;
        for (size_t b = std::max<size_t>(1, best.size() / 2); b >= 1; b /= 2) {
            for (size_t i = best.size(); i-- > 0 && !over();) {
                if (i + b > best.size()) continue;
                auto c = best; c.erase(c.begin() + i, c.begin() + i + b);
                if (c.size() < best.size() && take(c)) { prog = true; if (i > best.size()) i = best.size(); }
            }
            if (b == 1) break;
        }
        for (size_t b = 16; b >= 1; b /= 4) {
            for (size_t i = 0; i + b <= best.size() && !over(); ++i) {
                bool nz = false; for (size_t j = i; j < i + b; ++j) nz |= best[j] != 0;
                if (!nz) continue;
                auto c = best; for (size_t j = i; j < i + b; ++j) c[j] = 0;
                if (take(c)) prog = true;
            }
            if (b == 1) break;
        }
        for (size_t i = 0; i < best.size() && !over(); ++i) {
            uint64_t lo = 0, hi = best[i];
            while (i < best.size() && lo + 1 < hi && !over()) {
                auto c = best; uint64_t m = lo + (hi - lo) / 2; c[i] = m;
                if (take(c)) { prog = true; hi = m; } else lo = m;
            }
            if (i < best.size() && best[i] > 0) { auto c = best; c[i]--; if (take(c)) prog = true; }
        }
    }
    return best;
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += ' '; else o += c; }
    return o;
}

inline int main_(int argc, char** argv, const char* check) {
    std::string tier = "quick", out = ".", replay, only, known;
    int W = 8; double cap = 60, scale = 1; long onecase = -1;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") tier = v; else if (a == "--seed") g_seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--out") out = v; else if (a == "--replay") replay = v; else if (a == "--only") only = v;
        else if (a == "--workers") W = atoi(v.c_str()); else if (a == "--cap") cap = atof(v.c_str());
        else if (a == "--scale") scale = atof(v.c_str()); else if (a == "--variant") g_variant = v; else if (a == "--part") g_part = "." + v;
        else if (a == "--known") known = v; else if (a == "--case") onecase = atol(v.c_str());
    }
    if (W > 64) W = 64;
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    g_cpu = 40;
#else
    g_cpu = 15;
#endif
    g_tmp = out;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (SH == MAP_FAILED) { perror("mmap"); return 3; }
    auto& PS = props();

    if (!replay.empty()) {
        std::ifstream in(replay); std::string w, name; std::vector<uint64_t> ch; std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line); ls >> w;
            if (w == "prop") ls >> name;
            if (w == "choices") { size_t n; ls >> n; uint64_t x; while (n-- && ls >> x) ch.push_back(x); break; }
        }
        for (size_t p = 0; p < PS.size(); ++p) if (PS[p].name == name) {
            std::string msg; bool bad = fails_forked(p, ch, &msg);
            std::cout << (bad ? "FAILS: " + msg : std::string("passes")) << "\n" << SH->slot[64].desc << std::endl;
            return bad ? 1 : 0;
        }
        std::cout << "unknown property " << name << std::endl; return 3;
    }
    // known findings: id per line "KNOWN property=<C> <name> text"
    std::map<std::string, std::string> kn;
    if (!known.empty()) {
        std::ifstream in(known); std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line); std::string a, b, c; ls >> a >> b >> c; std::string rest; std::getline(ls, rest);
            if (a == "known:" && b == std::string("property=") + check) kn[c] = rest;
        }
    }
    struct F { int prop; std::vector<uint64_t> ch; std::string msg; };
    std::vector<F> fails;
    for (size_t p = 0; p < PS.size(); ++p) if (PS[p].known) {
        std::string msg; std::vector<uint64_t> ch{100};
        if (fails_forked(p, ch, &msg)) {
            if (kn.count(PS[p].name)) std::cout << "KNOWN-FINDING: property=" << check << " " << PS[p].name << kn[PS[p].name] << std::endl;
            else fails.push_back({(int)p, ch, msg});
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    // each property's cases are striped over workers and sliced into rounds
    const int ROUNDS = 24;
    std::vector<pid_t> pid(W, 0);
    std::vector<std::string> ef(W);
    auto body = [&](int w) {
        for (int r = 0; r < ROUNDS; ++r)
            for (size_t p = 0; p < PS.size(); ++p) {
                if (PS[p].known || (!only.empty() && PS[p].name != only)) continue;
                uint64_t N = std::max<uint64_t>(1, (uint64_t)((tier == "quick" ? PS[p].nq : PS[p].nt) * scale));
                uint64_t a = N * r / ROUNDS, b = N * (r + 1) / ROUNDS;
                for (uint64_t i = a; i < b; ++i) {
                    if ((int)(i % W) != w) continue;
                    if (onecase >= 0 && (long)i != onecase) continue;
                    if (SH->stop) return 0;
                    if (run_case(p, nullptr, i, &SH->slot[w], true) == 1) return 77;
                }
            }
        return 0;
    };
    std::cout.flush();
    for (int w = 0; w < W; ++w) {
        ef[w] = out + "/err.w" + std::to_string(w) + "." + g_variant + g_part;
        pid[w] = fork();
        if (pid[w] == 0) { child_setup(ef[w]); _exit(body(w)); }
    }
    int alive = W; bool capped = false; int inconclusive = 0;
    std::vector<std::pair<int, uint64_t>> last(W, {-1, 0}); std::vector<double> lastt(W, 0.0);
    double stopt = -1;
    while (alive) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            usleep(2000);
            if (!SH->stop && el() > cap) { SH->stop = 1; capped = true; stopt = el(); }
            for (int w = 0; w < W; ++w) if (pid[w]) {
                std::pair<int, uint64_t> cur{SH->slot[w].prop, SH->slot[w].idx};
                if (cur != last[w]) { last[w] = cur; lastt[w] = el(); }
                else if (el() - lastt[w] > 300) { kill(pid[w], SIGKILL); lastt[w] = el(); }
            }
            // after a failure the other workers need not finish slow cases
            if (SH->stop && !fails.empty() && stopt >= 0 && el() - stopt > 5)
                for (int w = 0; w < W; ++w) if (pid[w]) kill(pid[w], SIGKILL);
            continue;
        }
        for (int w = 0; w < W; ++w) if (pid[w] == p) {
            pid[w] = 0; --alive;
            Slot& sl = SH->slot[w];
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (fails.empty()) ++inconclusive; continue; }
            F f; f.prop = sl.prop; f.ch.assign(sl.ch, sl.ch + std::min<size_t>((size_t)sl.nch, MAXCH));
            f.msg = (WIFEXITED(st) && WEXITSTATUS(st) == 77) ? std::string(sl.msg) : death(st) + "\n" + err_summary(ef[w]);
            fails.push_back(f); SH->stop = 1; if (stopt < 0) stopt = el();
        }
    }
    for (int w = 0; w < W; ++w) unlink(ef[w].c_str());
    double run_s = el();
    int rc = 0;
    // shrink + replay three times
    bool confirmed = false;
    for (auto& f : fails) {
        if (confirmed) break;
        bool first = fails_forked(f.prop, f.ch, nullptr);
        auto best = f.ch;
        bool hang = f.msg.find("no termination") != std::string::npos; int full = g_cpu;
        if (hang) g_cpu = full / 5;                 // shorter limit while shrinking; the result is confirmed with the full one
        if (first) best = shrink(f.prop, f.ch, hang ? 90 : 45);
        g_cpu = full;
        int n = 0; std::string msg;
        for (int k = 0; k < 3; ++k) {
            if (hang && n) { ++n; continue; } std::string m; if (fails_forked(f.prop, best, &m)) { ++n; msg = m; } }
        std::string desc = SH->slot[64].desc;
        std::string rf = out + "/replay-" + check + "-" + PS[f.prop].name + "-" + g_variant + g_part + ".txt";
        std::ofstream o(rf);
        o << "check " << check << "\nprop " << PS[f.prop].name << "\nvariant " << g_variant << "\npart " << (g_part.empty() ? "0" : g_part.substr(1)) << "\nseed " << g_seed
          << "\nchoices " << best.size(); for (auto v : best) o << " " << v;
        o << "\nreplays " << n << "/3\n--- failure\n" << (n ? msg : f.msg) << "\n--- case\n" << desc << "\n";
        o.close();
        if (n == 3) {
            std::cout << "FAILURE " << PS[f.prop].name << ": " << msg << "\n" << desc << "\nVIOLATION property=" << check << " replay=" << rf << std::endl;
            rc = 1; confirmed = true;
        } else {
            std::cout << "UNCONFIRMED " << PS[f.prop].name << " (" << n << "/3 replays): " << f.msg << std::endl; ++inconclusive;
        }
    }
    // evidence fragment
    std::ofstream o(out + "/part-" + check + "-" + g_variant + g_part + ".json");
    o << "{\"variant\":\"" << g_variant << "\",\"run_s\":" << run_s << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"inconclusive\":" << inconclusive << ",\"violations\":" << rc << ",\"props\":[";
    bool c1 = false;
    for (size_t p = 0; p < PS.size(); ++p) {
        PStat& s = SH->st[p]; if (PS[p].known) continue;
        o << (c1 ? "," : "") << "{\"name\":\"" << PS[p].name << "\",\"rule\":\"" << jesc(PS[p].rule) << "\",\"evaluations\":" << s.evals << ",\"nontrivial\":" << s.nontriv
          << ",\"distinct\":" << s.distinct << ",\"discards\":" << s.discards << ",\"samples\":[";
        for (int k = 0; k < std::min<int>(3, (int)s.nsamples); ++k) o << (k ? "," : "") << "\"" << jesc(s.sample[k]) << "\"";
        o << "]}"; c1 = true;
    }
    o << "],\"labels\":{"; c1 = false;
    for (auto& L : SH->lab) if (L.used == 2) { o << (c1 ? "," : "") << "\"" << jesc(L.name) << "\":" << L.n; c1 = true; }
    o << "}}\n";
    o.close();
    std::ofstream hf(out + "/hash-" + check + "-" + g_variant + g_part + ".bin", std::ios::binary);
    for (auto& h : SH->h) { uint64_t v = h; if (v) hf.write((char*)&v, 8); }
    return rc;
}
} // namespace pbt
#define PBT_MAIN(check) int main(int argc, char** argv) { return pbt::main_(argc, argv, check); }
