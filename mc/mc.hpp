// Stateless explicit-choice model checker used by every harness in /verif.
//
// A group is a set of executions.  mc::explore(body) enumerates *every* sequence of answers to the
// Chooser's choose(k) calls (depth-first, fresh objects per execution, prefix replay); body drives the
// real code in /repo and compares it with a reference model after every operation.
// Groups that enumerate a plain product of small domains may instead loop and call MC_CASE().
// Any FAIL carries the choice vector, and `binary --group G --replay c0,c1,...` reproduces it.
#pragma once
#include <bits/stdc++.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" void __lsan_do_leak_check(void);
#endif

namespace mc {
    using std::string;
    typedef unsigned long long u64;

    // ---------------------------------------------------------------- printing
    inline string show(const string& s) { return "\"" + s + "\""; }
    inline string show(const char* s) { return s; }
    inline string show(char c) { return string("'") + c + "'"; }
    inline string show(bool b) { return b ? "true" : "false"; }
    inline string show(__int128 v) {
        if (v == 0) return "0";
        bool neg = v < 0; string s;
        while (v) { int d = int(v % 10); s += char('0' + (d < 0 ? -d : d)); v /= 10; }
        if (neg) s += '-';
        std::reverse(s.begin(), s.end()); return s;
    }
    inline string show(unsigned __int128 v) {
        if (v == 0) return "0";
        string s; while (v) { s += char('0' + int(v % 10)); v /= 10; }
        std::reverse(s.begin(), s.end()); return s;
    }
    template <class T, class = void> struct has_val : std::false_type {};
    template <class T> struct has_val<T, std::void_t<decltype(std::declval<const T&>().val())>> : std::true_type {};
    template <class T, class = void> struct is_range : std::false_type {};
    template <class T> struct is_range<T, std::void_t<decltype(std::declval<const T&>().begin()), decltype(std::declval<const T&>().end())>> : std::true_type {};
    template <class T, class = void> struct is_streamable : std::false_type {};
    template <class T> struct is_streamable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};
    template <class T> string show(const T& v);
    template <class A, class B> string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
    template <class... A> string show(const std::tuple<A...>& t) {
        string s = "("; bool first = true;
        std::apply([&](const auto&... x) { ((s += (first ? "" : ","), first = false, s += show(x)), ...); }, t);
        return s + ")";
    }
    template <class T> string show(const std::optional<T>& o) { return o ? "some(" + show(*o) + ")" : string("none"); }
    template <class T> string show(const T& v) {
        if constexpr (is_range<T>::value) {
            string s = "["; bool f = true; int n = 0;
            for (auto it = v.begin(); it != v.end(); ++it) { if (!f) s += ","; f = false; s += show(typename std::decay<decltype(*it)>::type(*it)); if (++n > 200) { s += "..."; break; } }
            return s + "]";
        } else if constexpr (has_val<T>::value) { return show(v.val()); }
        else if constexpr (std::is_enum<T>::value) { return std::to_string((long long)v); }
        else if constexpr (is_streamable<T>::value) { std::ostringstream os; os << std::setprecision(17) << v; return os.str(); }
        else return "?";
    }

    // ---------------------------------------------------------------- run-time state
    constexpr int MAXD = 1 << 16;
    struct State {
        int cur[MAXD], lim[MAXD]; int n = 0, fixed = 0;
        int lasso = 0, shear = 0, word[16]; bool keep_going = false, per_light = false; int per_depth = 0, per_size = 0;
        volatile u64 progress = 0;
        u64 nodes = 0, transitions = 0, execs = 0;
        long long in[12]; int nin = 0;
        const char* group = "";
        bool verbose = false, replay = false, thorough = false;
        std::vector<int> replay_vec;
        std::ostringstream* logs = nullptr;
        std::vector<string> samples;
        std::unordered_set<u64> outcomes;
        string bounds;
        int hang_limit = 60;
    };
    inline State& S() { static State* s = new State; return *s; }
    inline bool thorough() { return S().thorough; }
    template <class A, class B> inline typename std::common_type<A, B>::type T(A q, B t) { return S().thorough ? t : q; }

    inline void write_raw(const char* s, size_t n) { while (n) { ssize_t k = ::write(1, s, n); if (k <= 0) return; s += k; n -= k; } }
    inline void write_choices() {
        State& s = S(); char b[32];
        for (int i = 0; i < s.n; ++i) { int k = snprintf(b, sizeof b, i ? ",%d" : "%d", s.cur[i]); write_raw(b, k); }
        if (s.nin) { write_raw(" in=", 4); for (int i = 0; i < s.nin; ++i) { int k = snprintf(b, sizeof b, i ? ",%lld" : "%lld", s.in[i]); write_raw(b, k); } }
    }
    inline volatile sig_atomic_t& failing() { static volatile sig_atomic_t f = 0; return f; }
    [[noreturn]] inline void fail(const string& msg) {
        failing() = 1;
        fflush(stdout);
        string m = msg; for (char& c : m) if (c == '\n') c = ' ';
        if (m.size() > 4000) m.resize(4000);
        write_raw("\nFAIL choices=", 14); write_choices();
        string t = " msg=" + m + "\n"; write_raw(t.data(), t.size());
        _exit(1);
    }
    inline void crash_note(const char* what) {
        if (failing()) return;
        failing() = 1;
        write_raw("\nFAIL choices=", 14); write_choices();
        write_raw(" msg=crash: ", 12); write_raw(what, strlen(what)); write_raw("\n", 1);
    }
    inline void on_signal(int sig) {
        crash_note(sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT (assertion, terminate or sanitizer abort)" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "signal");
        _exit(1);
    }
    inline void on_death() { crash_note("memory error reported by AddressSanitizer/UBSan"); }
    inline void on_prof(int) {
        static u64 last = 0; static int stuck = 0;
        u64 p = S().progress;
        if (p != last) { last = p; stuck = 0; return; }
        if (++stuck >= S().hang_limit) { crash_note("no progress: one execution used more CPU time than allowed (hang)"); _exit(1); }
    }

    // ---------------------------------------------------------------- choices
    struct Chooser {
        int choose(int k) {
            State& s = S();
            if (k <= 0) { fprintf(stderr, "mc: choose(%d) in %s\n", k, s.group); _exit(3); }
            if (s.n >= MAXD) { fprintf(stderr, "mc: too deep in %s\n", s.group); _exit(3); }
            if (s.lasso) { int v = int((s.word[s.n % s.lasso] + (long long)(s.n / s.lasso) * s.shear) % k); s.cur[s.n] = v; s.lim[s.n] = k; ++s.n; ++s.nodes; return v; }
            if (s.n < s.fixed) {
                if (s.lim[s.n] != k) {
                    if (s.replay && s.lim[s.n] < 0) { s.lim[s.n] = k; if (s.cur[s.n] >= k) { fprintf(stderr, "mc: replay choice out of range\n"); _exit(3); } }
                    else { fprintf(stderr, "mc: nondeterministic replay in %s at depth %d (%d vs %d)\n", s.group, s.n, s.lim[s.n], k); _exit(3); }
                }
                return s.cur[s.n++];
            }
            s.cur[s.n] = 0; s.lim[s.n] = k; ++s.n; ++s.nodes;
            return 0;
        }
        int range(int lo, int hi) { return lo + choose(hi - lo + 1); }  // inclusive
        bool flag() { return choose(2); }
        template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[choose(int(v.size()))]; }
        template <class X> X pick(std::initializer_list<X> v) { return *(v.begin() + choose(int(v.size()))); }
    };
    inline void step(u64 k = 1) { S().transitions += k; }
    inline void progress() { ++S().progress; }
    inline void outcome(u64 h) { State& s = S(); if (s.outcomes.size() < (1u << 16)) s.outcomes.insert(h); }
    inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
    template <class V> u64 hash_range(const V& v, u64 h = 1) { for (auto&& x : v) h = mix(h, (u64)x); return h; }
    inline void sample(const string& s) { if (S().samples.size() < 3) S().samples.push_back(s.substr(0, 900)); }
    inline void bound(const string& b) { string& t = S().bounds; if (t.find(b) != string::npos) return; if (!t.empty()) t += "; "; t += b; }

    template <class F> void periodic(F body, bool light);
    template <class F> void explore(F body) {
        State& s = S(); Chooser c;
        s.nin = 0;
        if (s.per_depth && !s.replay && !s.keep_going) { periodic(body, s.per_light); return; }
        if (s.replay) {
            if (s.replay_vec.empty()) return;
            s.fixed = (int)s.replay_vec.size();
            for (int i = 0; i < s.fixed; ++i) s.cur[i] = s.replay_vec[i], s.lim[i] = -1;
            s.n = 0; body(c); return;
        }
        s.fixed = 0; std::vector<std::vector<int>> keep; u64 next_keep = 8, mine = 0;
        while (true) {
            s.n = 0; ++s.progress;
            body(c);
            ++s.execs; ++mine;
            if (mine == next_keep) { next_keep *= 8; keep.emplace_back(s.cur, s.cur + s.n); }
            int d = s.n; 
            if (d < s.fixed) { fprintf(stderr, "mc: nondeterministic replay (short) in %s\n", s.group); _exit(3); }
            while (d > 0 && s.cur[d - 1] + 1 >= s.lim[d - 1]) --d;
            if (d == 0) break;
            ++s.cur[d - 1]; ++s.nodes; s.fixed = d;
        }
        // re-run two stored executions verbosely: samples for the evidence, and a determinism check
        u64 tr = s.transitions, nd = s.nodes;
        if (keep.size() > 1) keep.erase(keep.begin(), keep.end() - 1);
        for (auto& k : keep) {
            s.fixed = (int)k.size(); for (int i = 0; i < s.fixed; ++i) s.cur[i] = k[i], s.lim[i] = -1;
            s.replay = true; s.verbose = true; std::ostringstream os; s.logs = &os; s.n = 0;
            body(c);
            s.replay = false; s.verbose = false; s.logs = nullptr;
            string t = os.str(); if (!t.empty()) sample(t);
        }
        s.transitions = tr; s.nodes = nd; s.n = 0; s.fixed = 0;
    }

    // Periodic histories: every choice sequence c_i = (w[i mod p] + (i div p) * m) mod arity_i for every word w over
    // {0..a-1} of each length p in ps and every shear m; body chooses its own (large) depth.  Exhaustive over the words.
    template <class F> void periodic(F body, int a, std::initializer_list<int> ps, std::initializer_list<int> shears) {
        State& s = S(); Chooser c; s.nin = 0;
        s.keep_going = true; // a disabled operation is skipped instead of ending the history
        if (s.replay) { explore(body); return; }
        for (int p : ps) for (int m : shears) {
            for (int i = 0; i < p; ++i) s.word[i] = 0;
            while (true) {
                s.lasso = p; s.shear = m; s.n = 0; s.fixed = 0; ++s.progress; body(c); ++s.execs; s.lasso = 0;
                int i = p - 1; while (i >= 0 && ++s.word[i] == a) s.word[i--] = 0;
                if (i < 0) break;
            }
        }
        s.n = 0; s.fixed = 0; s.keep_going = false;
    }
    // standard sizes: light = 1 197 words in the quick run, otherwise 12 200; the thorough run enlarges both
    template <class F> void periodic(F body, bool light) {
        if (S().replay) { periodic(body, 1, { 1 }, { 0 }); return; }
        if (light) { periodic(body, T(7, 12), { 1, 2, 3 }, { 0, 1, 3 }); if (thorough()) periodic(body, 6, { 4 }, { 0, 1, 3 }); return; }
        periodic(body, T(12, 15), { 1, 2, 3 }, { 0, 1, 3 }); periodic(body, T(6, 9), { 4 }, { 0, 1, 3 }); periodic(body, T(4, 6), { 5 }, { 0, 1, 3 });
    }
    template <class F> void periodic(F body) { periodic(body, false); }
    // MC_PERIODIC groups rerun a group's explore() bodies on periodic histories: depth() and sz() then return the larger values
    inline int depth(int q) { return S().per_depth ? S().per_depth : q; }
    inline int depth(int q, int t) { return S().per_depth ? S().per_depth : T(q, t); }
    inline int sz(int q) { return S().per_depth ? S().per_size : q; }
    inline int sz(int q, int t) { return S().per_depth ? S().per_size : T(q, t); }
    inline bool keep_going() { return S().keep_going; }

    // Transition tour: explores the finite state graph of a model breadth-first (apply(m, op) -> false if op is not
    // enabled; key(m) identifies a state), then walks ONE live implementation object through every (state, op) edge of
    // the graph, calling impl(op, model_after) on each step.  Long histories, every edge covered at least once.
    template <class M, class Key, class Apply, class Impl>
    void tour(M init, int nops, Key key, Apply apply, Impl impl, size_t max_states = 200000) {
        std::map<decltype(key(init)), int> id; std::vector<M> st; std::vector<std::vector<int>> to;
        id[key(init)] = 0; st.push_back(init);
        for (size_t i = 0; i < st.size(); ++i) {
            to.emplace_back(nops, -1);
            for (int o = 0; o < nops; ++o) {
                M m = st[i]; if (!apply(m, o)) continue;
                auto k = key(m); auto it = id.find(k);
                if (it == id.end()) { it = id.emplace(k, (int)st.size()).first; st.push_back(m); if (st.size() > max_states) { fprintf(stderr, "mc: tour too large in %s\n", S().group); _exit(3); } }
                to[i][o] = it->second;
            }
        }
        State& s = S(); s.nodes += st.size();
        std::vector<int> nxt(st.size(), 0); auto open = [&](int v) { while (nxt[v] < nops && to[v][nxt[v]] < 0) ++nxt[v]; return nxt[v] < nops; };
        int cur = 0; u64 steps = 0; s.n = 0; std::vector<int> prev(st.size()), pop_(st.size()), seen(st.size(), -1); int stamp = 0;
        auto go = [&](int o) { int t = to[cur][o]; if (s.n < MAXD) { s.cur[s.n++] = o; } else { memmove(s.cur, s.cur + 1, sizeof(int) * (MAXD - 1)); s.cur[MAXD - 1] = o; } ++s.progress; ++s.transitions; ++steps; impl(o, st[t]); cur = t; };
        while (true) {
            if (open(cur)) { int o = nxt[cur]++; go(o); continue; }
            ++stamp; std::deque<int> q{ cur }; seen[cur] = stamp; int goal = -1;
            while (!q.empty() && goal < 0) { int v = q.front(); q.pop_front(); for (int o = 0; o < nops; ++o) { int t = to[v][o]; if (t < 0 || seen[t] == stamp) continue; seen[t] = stamp; prev[t] = v; pop_[t] = o; if (open(t)) { goal = t; break; } q.push_back(t); } }
            if (goal < 0) break;
            std::vector<int> path; for (int v = goal; v != cur; v = prev[v]) path.push_back(pop_[v]);
            for (int i = (int)path.size() - 1; i >= 0; --i) go(path[i]);
        }
        ++s.execs; s.n = 0;
        sample("transition tour: " + std::to_string(st.size()) + " model states, " + std::to_string(steps) + " steps on one live object");
    }

    // ---------------------------------------------------------------- groups
    struct Reg {
        Reg(const char* name, void (*f)()) { all().push_back({ name, f }); }
        static std::vector<std::pair<const char*, void (*)()>>& all() { static std::vector<std::pair<const char*, void (*)()>> v; return v; }
    };
    inline string json(const string& s) {
        string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "; ";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    inline int main_impl(int argc, char** argv) {
        State& s = S(); string group; bool list = false;
        const char* t = getenv("VERIF_TIER"); if (t && string(t) == "thorough") s.thorough = true;
        for (int i = 1; i < argc; ++i) {
            string a = argv[i];
            if (a == "--list") list = true;
            else if (a == "--group") group = argv[++i];
            else if (a == "--thorough") s.thorough = true;
            else if (a == "--replay") {
                s.replay = true; s.verbose = true; s.logs = nullptr; string v = argv[++i]; std::stringstream ss(v); string x;
                while (std::getline(ss, x, ',')) if (!x.empty()) s.replay_vec.push_back(atoi(x.c_str()));
            }
        }
        if (list) { for (auto& g : Reg::all()) puts(g.first); return 0; }
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal;
        static char alt[1 << 16]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr); sa.sa_flags = SA_ONSTACK;
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_set_death_callback(on_death);
        sigaction(SIGABRT, &sa, nullptr);
#else
        for (int g : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) sigaction(g, &sa, nullptr);
        struct rlimit rl = { 6ull << 30, 6ull << 30 }; setrlimit(RLIMIT_AS, &rl);
#endif
        if (getenv("MC_HANG")) s.hang_limit = atoi(getenv("MC_HANG"));
        sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGPROF, &sa, nullptr);
        struct itimerval it = { {1, 0}, {1, 0} }; setitimer(ITIMER_PROF, &it, nullptr);
        for (auto& g : Reg::all()) if (group.empty() || group == g.first) {
            s.group = g.first;
            auto t0 = std::chrono::steady_clock::now();
            s.nodes = s.transitions = s.execs = 0; s.samples.clear(); s.outcomes.clear(); s.bounds.clear();
            g.second();
            double w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (!s.replay) {
                if (s.execs == 0) { fprintf(stderr, "mc: group %s explored nothing\n", g.first); return 3; }
                string r = "\nRESULT {\"group\":" + json(g.first) + ",\"states\":" + std::to_string(s.nodes) + ",\"transitions\":" + std::to_string(std::max<u64>(s.transitions, s.execs))
                    + ",\"executions\":" + std::to_string(s.execs) + ",\"outcomes\":" + std::to_string(s.outcomes.size()) + ",\"wall\":" + std::to_string(w) + ",\"bounds\":" + json(s.bounds) + ",\"samples\":[";
                for (size_t i = 0; i < s.samples.size(); ++i) r += (i ? "," : "") + json(s.samples[i]);
                r += "]}\n"; fflush(stdout); write_raw(r.data(), r.size());
            } else printf("REPLAY-OK %s\n", g.first);
        }
        fflush(stdout);
        _exit(0);
    }
    // controllable randomness: the real headers see these instead of std::random_device / std::mt19937
    inline std::function<u64()>& rng_hook() { static std::function<u64()> f; return f; }
    inline u64& rng_seed() { static u64 x = 0x1234567; return x; }
    inline u64 det_rand() { u64& x = rng_seed(); x += 0x9e3779b97f4a7c15ULL; u64 z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
}

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_GROUP(name) static void MC_CAT(mcg_, name)(); static mc::Reg MC_CAT(mcr_, name)(MC_STR(name), MC_CAT(mcg_, name)); static void MC_CAT(mcg_, name)()
#define MC_PERIODIC(name, dep, size, light) MC_GROUP(MC_CAT(periodic_, name)) { mc::bound("the bodies of " #name " with " #dep " operations and size " #size " on every periodic choice word (" + std::string(light ? "period 1..3 over 7 letters (12)" : "period 1..3 over 12 letters (15), 4 over 6 (9), 5 over 4 (6)") + "; shears 0, 1, 3)"); mc::S().per_depth = dep; mc::S().per_size = size; mc::S().per_light = light; if (mc::S().replay) mc::S().keep_going = true; MC_CAT(mcg_, name)(); mc::S().per_depth = 0; mc::S().keep_going = false; }
#define MC_LOG(x) do { if (mc::S().verbose) { if (mc::S().logs) *mc::S().logs << x << "\n"; else std::cout << x << std::endl; } } while (0)
// MC_EQ(got, want, stream): compares the real code's answer with the reference's
// failure paths are kept out of line: they are the bulk of the generated code otherwise
namespace mc {
    struct Msg {
        std::ostringstream* o;
        __attribute__((noinline, cold)) Msg() : o(new std::ostringstream) {}
        template <class V> __attribute__((noinline, cold)) Msg& operator<<(const V& v) { *o << v; return *this; }
    };
    template <class A, class B> [[noreturn]] __attribute__((noinline, cold)) void fail_eq(Msg& m, const A& g, const B& w) { m << ": got " << show(g) << " want " << show(w); fail(m.o->str()); }
    [[noreturn]] __attribute__((noinline, cold)) inline void fail_cond(Msg& m, const char* cond) { m << " [" << cond << "]"; fail(m.o->str()); }
}
#define MC_EQ(got, want, ctx) do { ++mc::S().transitions; auto mc_g = (got); auto mc_w = (want); if (__builtin_expect(!(mc_g == mc_w), 0)) mc::fail_eq(mc::Msg() << ctx, mc_g, mc_w); } while (0)
#define MC_CHECK(cond, ctx) do { ++mc::S().transitions; if (__builtin_expect(!(cond), 0)) mc::fail_cond(mc::Msg() << ctx, #cond); } while (0)
// one execution of a plain-product enumeration; inputs are remembered for crash reports
#define MC_CASE(...) do { mc::State& mc_s = mc::S(); ++mc_s.progress; ++mc_s.execs; ++mc_s.nodes; long long mc_a[] = { __VA_ARGS__ }; mc_s.nin = int(sizeof(mc_a) / sizeof(mc_a[0])); if (mc_s.nin > 12) mc_s.nin = 12; for (int mc_i = 0; mc_i < mc_s.nin; ++mc_i) mc_s.in[mc_i] = mc_a[mc_i]; } while (0)
#define MC_MAIN int main(int argc, char** argv) { return mc::main_impl(argc, argv); }

// Randomness seam.  <random> is already included above, so the names below only affect library headers.
namespace std {
    struct mc_random_device { typedef unsigned result_type; mc_random_device() {} mc_random_device(const std::string&) {} unsigned operator()() { return unsigned(mc::det_rand()); } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } double entropy() const { return 32; } };
}
#ifndef MC_KEEP_RANDOM_DEVICE
#define random_device mc_random_device
#endif
