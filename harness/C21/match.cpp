// Aho-Corasick, tries, Morris-Pratt, Manacher, runs, rolling hashes, substring comparison
#include "mc.hpp"
#include <atcoder/modint>
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/manacher.hpp"
#include "library/string/run_enumerate.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/compare_substring.hpp"
typedef std::string S; template <class T> using vec = std::vector<T>; using std::to_string;
static vec<S> words(int lo, int hi, int k, char base = 'a') { vec<S> r; for (int n = lo; n <= hi; ++n) { S s(n, base); while (true) { r.push_back(s); int i = 0; while (i < n && ++s[i] == base + k) s[i++] = base; if (i == n) break; } } return r; }
static int suffix_matches(const vec<S>& ps, const S& t) { int c = 0; for (auto& p : ps) c += p.size() <= t.size() && t.compare(t.size() - p.size(), p.size(), p) == 0; return c; }
static void ac_case(const vec<S>& ps, const vec<S>& texts, bool incremental) {
    suisen::AhoCorasick<char> a; suisen::AhoCorasickArray<4, 'a'> b; vec<S> cur; auto run = [&](auto& m, const char* w) { for (auto& t : texts) { int st = m.init_state(); MC_EQ(m.count_suffix_matching(st), suffix_matches(cur, ""), w << " initial state, patterns " << mc::show(cur)); for (size_t i = 0; i < t.size(); ++i) { st = m.next_state(st, t[i]); MC_EQ(m.count_suffix_matching(st), suffix_matches(cur, t.substr(0, i + 1)), w << " patterns " << mc::show(cur) << " text " << t.substr(0, i + 1) << (incremental ? " (rebuilt after each addition)" : "")); } } };
    if (incremental) run(a, "AhoCorasick without patterns");
    for (auto& p : ps) { a.add(p); b.add(p); cur.push_back(p); if (incremental) { a.build(); run(a, "AhoCorasick"); } }
    if (!incremental) { a.build(); run(a, "AhoCorasick"); } b.build(); std::set<S> pre{ "" }; for (auto& p : ps) for (size_t i = 0; i <= p.size(); ++i) pre.insert(p.substr(0, i)); MC_EQ(b.state_num(), int(pre.size()), "state_num"); run(b, "AhoCorasickArray");
}
MC_GROUP(aho_corasick) { mc::bound("all sequences of up to 2 patterns of length 0..3 over {a,b} x all texts of length <= 5 over {a,b} plus texts with a foreign letter; all triples of patterns of length 1..3 x texts of length 5; rebuilt after every addition and built once"); auto ps = words(0, 3, 2); auto texts = words(5, 5, 2); texts.push_back("acab"); texts.push_back("abcba"); texts.push_back("ccaab"); texts.push_back("aabbaabb"); ac_case({}, texts, true); for (size_t i = 0; i < ps.size(); ++i) { MC_CASE(i); ac_case({ ps[i] }, texts, true); ac_case({ ps[i] }, texts, false); for (size_t j = 0; j < ps.size(); ++j) { MC_CASE(i, j); ac_case({ ps[i], ps[j] }, texts, true); ac_case({ ps[i], ps[j] }, texts, false); for (size_t k = 0; k < ps.size(); ++k) { MC_CASE(i, j, k); ac_case({ ps[i], ps[j], ps[k] }, texts, (i + j + k) % 2); } } } }
MC_GROUP(aho_corasick_long) { mc::bound("pattern families a^k, (ab)^k, a^k b a^k up to length 41 on texts of length 120"); for (int k = 1; k <= 20; ++k) { MC_CASE(k); vec<S> ps; for (int i = 1; i <= k; ++i) { ps.push_back(S(i, 'a')); ps.push_back(S(i, 'a') + "b" + S(i, 'a')); S x; for (int j = 0; j < i; ++j) x += "ab"; ps.push_back(x); } S t; for (int i = 0; i < 120; ++i) t += (i * i % 7 < 5 ? 'a' : 'b'); ac_case(ps, { t, S(60, 'a'), S(30, 'a') + "b" + S(30, 'a') }, k % 2); } }
struct MN : suisen::MapTrieNode<char> { int mark = 0; }; struct UN : suisen::MapTrieNode<char, false> { int mark = 0; }; struct AN : suisen::ArrayTrieNode<3, 'a'> { int mark = 0; }; struct AP : suisen::ArrayTrieNodeWithParentLink<3, 'a'> { using base = suisen::ArrayTrieNodeWithParentLink<3, 'a'>; using base::base; int mark = 0; };
template <class Trie, int OFF, bool PAR> static void trie_case(const vec<S>& ps, bool probe, const vec<S>& all) {
    Trie t; t.reserve(1); std::map<S, int> cnt; std::set<S> pre{ "" };
    auto walk = [&](const S& w) { int cur = 0; for (char c : w) { const Trie& ct = t; int nx = probe ? int(t[cur][c - OFF]) : int(ct[cur][c - OFF]); if (nx == Trie::none) return -1; if constexpr (PAR) { MC_EQ(t[nx].par, cur, "parent link"); MC_EQ(t[nx].key, c - OFF, "parent key"); } cur = nx; } return cur; };
    for (auto& p : ps) { auto& nd = t.add(p); ++nd.mark; ++cnt[p]; for (size_t i = 0; i <= p.size(); ++i) pre.insert(p.substr(0, i)); for (auto& w : all) { int v = walk(w); MC_EQ(v != -1, pre.count(w) > 0, "trie walk " << w << " after adding " << p << " of " << mc::show(ps)); if (v != -1) { auto it = cnt.find(w); MC_EQ(t[v].mark, it == cnt.end() ? 0 : it->second, "mark of " << w); } } MC_EQ(t.nodes.size(), pre.size(), "trie size"); }
    for (auto& p : ps) { int v = walk(p.substr(0, p.size() / 2)); auto& nd = t.add(p.substr(p.size() / 2), v); MC_EQ(nd.mark, cnt[p], "add with start node"); } }
MC_GROUP(tries) { mc::bound("all ordered pairs and triples of words of length 0..3 over {a,b}, map/unordered/array tries with and without parent links; interleaved with lookups through const and non-const access"); auto ps = words(0, 3, 2), all = words(0, 4, 2); all.push_back("c"); all.push_back("ac"); for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < ps.size(); ++j) for (size_t k = 0; k < (mc::thorough() ? ps.size() : 1 + (i + j) % 2 * ps.size()) && k < ps.size(); ++k) for (int pr = 0; pr < 2; ++pr) { MC_CASE(i, j, k, pr); vec<S> v{ ps[i], ps[j], ps[k] }; trie_case<suisen::MapTrie<MN>, 0, false>(v, pr, all); trie_case<suisen::MapTrie<UN>, 0, false>(v, pr, all); trie_case<suisen::ArrayTrie<AN>, 'a', false>(v, pr, all); trie_case<suisen::ArrayTrie<AP>, 'a', true>(v, pr, all); } }
namespace mp = suisen::morris_pratt;
MC_GROUP(morris_pratt) { mc::bound("all binary strings of length <= 11 and ternary <= 7: failure function, all periods (both modes), minimal period"); auto ws = words(0, 11, 2); auto w3 = words(1, 7, 3); ws.insert(ws.end(), w3.begin(), w3.end()); for (auto& s : ws) { int n = s.size(); MC_CASE(n, mc::hash_range(s) & 0xffff); vec<int> f(n + 1, -1); for (int i = 1; i <= n; ++i) for (int b = i - 1; b >= 0; --b) if (s.compare(0, b, s, i - b, b) == 0) { f[i] = b; break; } MC_EQ(mp::morris_pratt(s), f, "failure function of " << s); vec<int> v(s.begin(), s.end()); MC_EQ(mp::morris_pratt(v), f, "failure function of vector " << s); for (int fr = 0; fr < 2; ++fr) { vec<int> per; for (int p = 1; p <= n; ++p) { bool ok = fr || n % p == 0; for (int i = 0; i + p < n; ++i) ok &= s[i] == s[i + p]; if (ok) per.push_back(p); } MC_EQ(mp::all_periods(s.begin(), s.end(), fr), per, "periods of " << s << " fragment=" << fr); if (n) { MC_EQ(mp::min_period(s, fr), s.substr(0, per[0]), "min_period of " << s); } } } }
MC_GROUP(matcher) { mc::bound("all binary patterns of length 1..5 x all binary texts of length 0..8 (string over {NUL,a} and vector<int>)"); auto ps = words(1, 5, 2), ts = words(0, 8, 2); for (auto& p : ps) { vec<int> pv(p.begin(), p.end()); S pz = p; for (char& c : pz) if (c == 'b') c = 0; mp::MatcherMP<S> m(p), mz(pz); mp::MatcherMP<vec<int>> mv(pv); for (auto& t : ts) { MC_CASE(p.size(), t.size()); vec<int> w; for (size_t i = 0; i + p.size() <= t.size(); ++i) if (t.compare(i, p.size(), p) == 0) w.push_back(i); MC_EQ(m(t), w, "pattern " << p << " text " << t); vec<int> tv(t.begin(), t.end()); MC_EQ(mv(tv), w, "vector pattern " << p << " text " << t); S tz = t; for (char& c : tz) if (c == 'b') c = 0; MC_EQ(mz.enumerate_occurences(tz), w, "pattern with NULs " << p << " text " << t); } } }
MC_GROUP(manacher) { mc::bound("all binary strings of length <= 12, ternary <= 8, every choice of dummy symbol (also one occurring in the string)"); auto ws = words(0, 12, 2); auto w3 = words(1, 8, 3); ws.insert(ws.end(), w3.begin(), w3.end()); for (auto& s : ws) for (char dm : { '#', 'a', 'b' }) { int n = s.size(); MC_CASE(n, dm, mc::hash_range(s) & 0xffff); suisen::Manacher m(s, dm); for (int i = 0; i <= 2 * n; ++i) { int l = i / 2 - (i % 2 ? 0 : 1), r = i / 2 + (i % 2 ? 1 : 0); if (i % 2) l = i / 2 - 1, r = i / 2 + 1; int len = i % 2; while (l >= 0 && r < n && s[l] == s[r]) len += 2, --l, ++r; MC_EQ(m[i], len, "Manacher " << s << " center " << i); if (i % 2) MC_EQ(m.odd_length(i / 2), len, "odd_length"); else MC_EQ(m.even_length(i / 2), len, "even_length"); } } }
static void runs_case(S s) { int n = s.size(); vec<std::tuple<int, int, int>> want; for (int l = 0; l < n; ++l) { // maximal repetitions by minimal period
        for (int p = 1; 2 * p <= n - l; ++p) { if (l && s[l - 1] == s[l - 1 + p]) continue; int r = l + p; while (r < n && s[r] == s[r - p]) ++r; if (r - l < 2 * p) continue; bool minimal = true; for (int q = 1; q < p && minimal; ++q) { bool ok = true; for (int i = l; i + q < r && ok; ++i) ok = s[i] == s[i + q]; if (ok) minimal = false; } if (minimal) want.push_back({ l, r, p }); } }
    std::sort(want.begin(), want.end()); S c = s; vec<std::tuple<int, int, int>> got; for (auto& r : suisen::run_enumerate(c)) got.push_back({ r.l, r.r, r.period }); MC_CHECK(c == s, "run_enumerate changed its argument"); std::sort(got.begin(), got.end()); MC_CHECK(got == want, "runs of " << s << ": got " << got.size() << " want " << want.size()); vec<int> v(s.begin(), s.end()); vec<std::tuple<int, int, int>> g2; for (auto& r : suisen::run_enumerate(v, 0)) g2.push_back({ r.l, r.r, r.period }); std::sort(g2.begin(), g2.end()); MC_CHECK(g2 == want, "runs of vector " << s); }
MC_GROUP(runs) { mc::bound("all binary strings of length <= 14 (thorough 17), ternary <= 8; Fibonacci, Thue-Morse and unary words up to length 144"); auto ws = words(0, mc::T(14, 17), 2); auto w3 = words(1, 8, 3); ws.insert(ws.end(), w3.begin(), w3.end()); for (auto& s : ws) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); runs_case(s); } S a = "a", b = "ab", t = "a"; for (int i = 0; i < 9; ++i) { MC_CASE(i); S c = b + a; a = b; b = c; runs_case(b); runs_case(S(b.size(), 'a')); if (i < 7) { S u = t; for (char& ch : u) ch ^= 3; t += u; runs_case(t); runs_case(t + t); } } }
template <int B, class mint> static void rh_case(const vec<S>& ws) { using RH = suisen::RollingHash<B, mint>; for (int mode = 0; mode < 2; ++mode) { std::array<mint, B> bs; if (mode) { for (int i = 0; i < B; ++i) bs[i] = mint(1000003 + 17 * i); RH::set_bases(bs); } std::map<std::pair<int, std::array<uint64_t, B>>, S> seen; std::map<S, std::array<uint64_t, B>> val; for (auto& s : ws) { int n = s.size(); MC_CASE(mode, n); RH h = RH::from_lowercase_alphabet(s); RH hu = RH::from(s, [](char c) { return int(c) - 'a' + 1; }); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { S x = s.substr(l, r - l); auto g = h(l, r); MC_EQ(hu(l, r), g, "from vs from_lowercase"); auto it = val.emplace(x, g).first; MC_EQ(g, it->second, "hash of equal substrings differ: " << x << " in " << s); auto jt = seen.emplace(std::make_pair(r - l, g), x).first; MC_EQ(jt->second, x, "hash collision"); if (mode) for (int i = 0; i < B; ++i) { mint w = 0; for (char c : x) w = w * bs[i] + mint(c - 'a' + 1); MC_EQ(g[i], uint64_t(w.val()), "polynomial value of " << x); } for (auto [a, b] : vec<std::pair<int, int>>{ { 0, n }, { n / 2, n }, { 0, 0 }, { n / 3, n / 2 + n / 3 } }) { if (a > b || b > n) continue; S y = x + s.substr(a, b - a); auto c = h.concat(g, a, b); RH hy = RH::from_lowercase_alphabet(y); MC_EQ(c, hy(0, y.size()), "concat " << x << " + [" << a << "," << b << ") of " << s); } } } } }
MC_GROUP(rolling_hash) { mc::bound("all binary strings of length <= 7 and ternary <= 5: all pairs of substrings (equal iff hashes equal among equal lengths), polynomial value under chosen bases, concat; one and two bases, mod 2^61-1 and 998244353; random bases come from a fixed stream"); auto ws = words(0, mc::T(7, 8), 2); auto w3 = words(1, mc::T(5, 6), 3); ws.insert(ws.end(), w3.begin(), w3.end()); rh_case<1, suisen::modint2p61m1>(ws); rh_case<2, suisen::modint2p61m1>(ws); rh_case<2, atcoder::modint998244353>(ws); S al = "aZzA", dg = "0129"; using R1 = suisen::RollingHash<1>; auto eq = [&](auto a, const vec<int>& v) { R1 h(v); for (int l = 0; l < 4; ++l) for (int r = l; r <= 4; ++r) MC_EQ(a(l, r), h(l, r), "from_* mapping"); }; eq(R1::from_alphabet(al), { 27, 26, 52, 1 }); eq(R1::from_digit(dg), { 1, 2, 3, 10 }); eq(R1::from_uppercase_alphabet("AZBC"), { 1, 26, 2, 3 }); }
MC_GROUP(rolling_hash_field) { mc::bound("all binary strings of length <= 7: substring hashes equal the polynomial value, concat, pointwise_add, lcp for all pairs; bases changed twice in between"); using mint = atcoder::modint998244353; using RF = suisen::RollingHashField<mint, 2>; auto ws = words(0, 7, 2); for (int round = 0; round < 3; ++round) { std::array<mint, 2> bs{ mint(12345 + 999 * round), mint(7777777 * (round + 1)) }; RF::set_bases(bs); std::array<std::function<mint(char)>, 2> hs{ [](char c) { return mint(c); }, [](char c) { return mint(c * c); } }; auto poly = [&](const S& x) { std::array<mint, 2> w; for (int i = 0; i < 2; ++i) { w[i] = 0; for (char c : x) w[i] = w[i] * bs[i] + hs[i](c); } return w; }; for (auto& s : ws) { MC_CASE(round, s.size(), mc::hash_range(s) & 0xffff); int n = s.size(); RF h = RF::create(s, hs); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) { S x = s.substr(l, r - l); auto g = h(l, r), w = poly(x); MC_CHECK(g == w, "field hash of " << x << " round " << round); auto c = RF::concat(g, h(0, l), l); MC_CHECK(c == poly(x + s.substr(0, l)), "concat round " << round); auto pa = RF::pointwise_add(g, w); MC_CHECK(pa[0] == w[0] + w[0] && pa[1] == w[1] + w[1], "pointwise_add"); } for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { int k = 0; while (i + k < n && j + k < n && s[i + k] == s[j + k]) ++k; MC_EQ(h.lcp(i, j), k, "lcp " << i << "," << j << " of " << s); } } } }
template <class RmQ> static void cmp_case(const S& s) { suisen::CompareSubstring<RmQ> a(s); vec<int> v(s.begin(), s.end()); suisen::CompareSubstring<RmQ> b(v), c(v, 127); int n = s.size(); for (int l1 = 0; l1 <= n; ++l1) for (int r1 = l1; r1 <= n; ++r1) for (int l2 = 0; l2 <= n; ++l2) for (int r2 = l2; r2 <= n; ++r2) { int k = 0; while (l1 + k < r1 && l2 + k < r2 && s[l1 + k] == s[l2 + k]) ++k; MC_EQ(a.lcp(l1, r1, l2, r2), k, "lcp [" << l1 << "," << r1 << ") [" << l2 << "," << r2 << ") of " << s); S x = s.substr(l1, r1 - l1), y = s.substr(l2, r2 - l2); int w = x < y ? -1 : x == y ? 0 : 1; MC_EQ(a.compare(l1, r1, l2, r2), w, "compare " << x << " with " << y << " in " << s); MC_EQ(b({ l1, r1 }, { l2, r2 }), w, "compare (vector)"); MC_EQ(c.compare({ l1, r1 }, { l2, r2 }), w, "compare (vector, upper)"); auto X = a.substr(l1, r1), Y = a.substr({ l2, r2 }); MC_EQ(X.size(), r1 - l1, "size"); MC_EQ(X.lcp(Y), k, "Substring lcp"); MC_EQ(int(X == Y) + 2 * (X != Y) + 4 * (X < Y) + 8 * (X <= Y) + 16 * (X > Y) + 32 * (X >= Y), int(x == y) + 2 * (x != y) + 4 * (x < y) + 8 * (x <= y) + 16 * (x > y) + 32 * (x >= y), "Substring relational operators " << x << " " << y); } }
MC_GROUP(compare_substring) { mc::bound("all binary strings of length 1..7, ternary 1..5: all quadruples of bounds, both RMQ back ends"); auto ws = words(1, mc::T(7, 9), 2); auto w3 = words(1, mc::T(5, 6), 3); ws.insert(ws.end(), w3.begin(), w3.end()); for (auto& s : ws) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); cmp_case<suisen::compare_substring_rmq::SparseTableRmQ>(s); cmp_case<suisen::compare_substring_rmq::SegmentTreeRmQ>(s); } }
MC_GROUP(run_ordering) { mc::bound("Run comparison operators: all pairs of runs with period 1..3, bounds 0..3; pair overloads of CompareSubstring for all binary strings of length 1..4"); vec<suisen::Run> rs; for (int p = 1; p <= 3; ++p) for (int l = 0; l <= 3; ++l) for (int r = 0; r <= 3; ++r) rs.emplace_back(p, l, r); for (auto& a : rs) for (auto& b : rs) { MC_CASE(a.period, a.l, a.r, b.period, b.l, b.r); auto x = std::make_tuple(a.period, a.l, a.r), y = std::make_tuple(b.period, b.l, b.r); MC_EQ(a < b, x < y, "<"); MC_EQ(a > b, x > y, ">"); MC_EQ(a <= b, x <= y, "<="); MC_EQ(a >= b, x >= y, ">="); MC_EQ(a == b, x == y, "=="); MC_EQ(a != b, x != y, "!="); mc::step(); }
    for (auto& s : words(1, 4, 2)) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); suisen::CompareSubstring<> c(s); int n = s.size(); typedef std::pair<int, int> P; for (int l1 = 0; l1 <= n; ++l1) for (int r1 = l1; r1 <= n; ++r1) for (int l2 = 0; l2 <= n; ++l2) for (int r2 = l2; r2 <= n; ++r2) { S x = s.substr(l1, r1 - l1), y = s.substr(l2, r2 - l2); int w = x < y ? -1 : x == y ? 0 : 1, k = 0; while (k < (int)x.size() && k < (int)y.size() && x[k] == y[k]) ++k; MC_EQ(c(P(l1, r1), P(l2, r2)), w, "operator()"); MC_EQ(c.compare(P(l1, r1), P(l2, r2)), w, "compare"); MC_EQ(c.lcp(P(l1, r1), P(l2, r2)), k, "lcp"); MC_EQ(c(l1, r1, l2, r2), w, "operator() of four"); mc::step(); } } }
static vec<S> long_words() { vec<S> w; S a = "a", b = "ab"; while (b.size() < 230) { S c = b + a; a = b; b = c; } w.push_back(b); S t = "a"; for (int i = 0; i < 8; ++i) { S u = t; for (char& ch : u) ch ^= 3; t += u; } w.push_back(t); for (int n : { 130, 260 }) { w.push_back(S(n, 'a')); w.push_back(S(n / 2, 'a') + "b" + S(n / 2, 'a')); S p; for (int i = 0; i < n; ++i) p += "abcab"[i % 5]; w.push_back(p); p.back() = 'c'; w.push_back(p); S q; for (int i = 0; i < n; ++i) q += char('a' + i * i % 11 % 3); w.push_back(q); S z; for (int i = 0; i < n; ++i) z += char('a' + __builtin_ctz(i + 1) % 26); w.push_back(z); } return w; }
MC_GROUP(long_texts) {
    mc::bound("Fibonacci, Thue-Morse, unary, periodic, perturbed periodic, ruler and quadratic-residue words of length 130..377: failure function, periods, matcher with every pattern length in 1..140, Manacher at every centre, runs, lcp/compare on a grid of bounds, rolling hash lcp"); namespace mp = suisen;
    for (auto& s : long_words()) { int n = s.size(); MC_CASE(n, mc::hash_range(s) & 0xffff); vec<int> f(n + 1, -1); for (int i = 1; i <= n; ++i) for (int b = i - 1; b >= 0; --b) if (s.compare(0, b, s, i - b, b) == 0) { f[i] = b; break; } MC_EQ(::mp::morris_pratt(s), f, "failure function"); for (int fr = 0; fr < 2; ++fr) { vec<int> per; for (int p = 1; p <= n; ++p) { bool ok = fr || n % p == 0; for (int i = 0; i + p < n && ok; ++i) ok &= s[i] == s[i + p]; if (ok) per.push_back(p); } MC_EQ(::mp::all_periods(s.begin(), s.end(), fr), per, "periods"); MC_EQ(::mp::min_period(s, fr), s.substr(0, per[0]), "min_period"); }
        for (int k = 1; k <= 140 && k <= n; k += k < 8 ? 1 : 11) for (int o : { 0, n / 3, n - k }) { if (o + k > n) continue; S p = s.substr(o, k); vec<int> w; for (int i = 0; i + k <= n; ++i) if (s.compare(i, k, p) == 0) w.push_back(i); MC_EQ(::mp::MatcherMP<S>(p)(s), w, "matches of a pattern of length " << k); p.back() ^= 1; w.clear(); for (int i = 0; i + k <= n; ++i) if (s.compare(i, k, p) == 0) w.push_back(i); MC_EQ(::mp::MatcherMP<S>(p)(s), w, "matches of a changed pattern of length " << k); mc::step(); }
        suisen::Manacher m(s, '#'); for (int i = 0; i <= 2 * n; ++i) { int l = i % 2 ? i / 2 - 1 : i / 2 - 1, r = i % 2 ? i / 2 + 1 : i / 2, len = i % 2; while (l >= 0 && r < n && s[l] == s[r]) len += 2, --l, ++r; MC_EQ(m[i], len, "Manacher center " << i); }
        runs_case(s); suisen::CompareSubstring<suisen::compare_substring_rmq::SparseTableRmQ> ca(s); suisen::CompareSubstring<suisen::compare_substring_rmq::SegmentTreeRmQ> cb(s); suisen::RollingHash<1> h = suisen::RollingHash<1>::from_lowercase_alphabet(s); vec<std::pair<int, int>> bs; for (int l = 0; l <= n; l += 9) for (int r = l; r <= n; r += r - l < 20 ? 5 : 31) bs.push_back({ l, r }); for (size_t i = 0; i < bs.size(); i += 2) for (size_t j = i % 3; j < bs.size(); j += 3) { auto [l1, r1] = bs[i]; auto [l2, r2] = bs[j]; int k = 0; while (l1 + k < r1 && l2 + k < r2 && s[l1 + k] == s[l2 + k]) ++k; int w = l1 + k == r1 ? (l2 + k == r2 ? 0 : -1) : l2 + k == r2 ? 1 : s[l1 + k] < s[l2 + k] ? -1 : 1; MC_EQ(ca.lcp(l1, r1, l2, r2), k, "lcp"); MC_EQ(cb.lcp(l1, r1, l2, r2), k, "lcp (segment tree)"); MC_EQ(ca.compare(l1, r1, l2, r2), w, "compare"); MC_EQ(cb.compare(l1, r1, l2, r2), w, "compare (segment tree)"); if (r1 - l1 == r2 - l2) MC_EQ(h(l1, r1) == h(l2, r2), k == r1 - l1, "hash equality [" << l1 << "," << r1 << ") [" << l2 << "," << r2 << ")"); } }
}
MC_GROUP(tries_many_nodes) {
    mc::bound("tries and Aho-Corasick automata with 200..2000 nodes: all binary words of length 7, 10; long words sharing long prefixes");
    for (int k : { 7, mc::T(8, 10) }) { MC_CASE(k); auto ps = words(k, k, 2); S t; for (int i = 0; i < 300; ++i) t += char('a' + (i * i + i / 3) % 5 % 2); ac_case(ps, { t }, false); vec<S> q; for (int i = 1; i <= 60; ++i) q.push_back(S(i, 'a') + S(i % 7, 'b')), q.push_back("b" + S(i, 'a') + "b"); ac_case(q, { t, S(70, 'a') + S(8, 'b') + S(61, 'a') + "b" }, false); }
}
MC_MAIN
