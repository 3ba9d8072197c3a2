// Suffix automaton, substring set, palindromic trees, dynamic rolling hash
#include "mc.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/substring_set.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
using namespace suisen; typedef std::string S; template <class T> using vec = std::vector<T>;
static vec<S> words(int lo, int hi, int k, char base = 'a') { vec<S> r; for (int n = lo; n <= hi; ++n) { S s(n, base); while (true) { r.push_back(s); int i = 0; while (i < n && ++s[i] == base + k) s[i++] = base; if (i == n) break; } } return r; }
static vec<int> occ(const S& s, const S& t) { vec<int> r; for (size_t i = 0; i + t.size() <= s.size(); ++i) if (s.compare(i, t.size(), t) == 0) r.push_back(i); return r; }
template <class Seq> static Seq conv(const S& s) { return Seq(s.begin(), s.end()); }
template <class T> static void sam_check(const SuffixAutomaton<T>& a, const S& s, const vec<S>& pats) {
    using Seq = typename SuffixAutomaton<T>::sequence_type; int n = s.size(); auto sc = a.substring_counter(); auto oe = a.occurrence_enumerator(); auto fo = a.first_occurence_searcher(); auto tr = a.suffix_link_tree();
    MC_CHECK(int(a.nodes.size()) <= std::max(1, 2 * n), "state bound"); MC_EQ(tr.size(), int(a.nodes.size()), "suffix link tree size"); { auto o = a.topological_order(); vec<int> pos(o.size()); for (size_t i = 0; i < o.size(); ++i) pos[o[i]] = i; for (size_t u = 0; u < a.nodes.size(); ++u) { for (auto& p : a.nodes[u].nxt) MC_CHECK(pos[u] < pos[p.second], "topological order"); for (int v : tr[u]) MC_EQ(a.nodes[v].link, int(u), "link tree"); } auto r = a.topological_order(true); std::reverse(r.begin(), r.end()); MC_EQ(r, o, "reversed topological order"); }
    for (auto& t : pats) { Seq q = conv<Seq>(t); auto w = occ(s, t); MC_EQ(a.accept(q), !w.empty(), "accept " << t << " in " << s); MC_EQ(a.transition(q, -7) == -7, w.empty(), "transition"); MC_EQ(sc.count(q), (long long)w.size(), "count " << t << " in " << s); auto g = oe.enumerate_all_occurrence(q); std::sort(g.begin(), g.end()); MC_EQ(g, w, "occurrences of " << t << " in " << s); MC_EQ(fo.first_occurrence(q), w.empty() ? -1 : w[0], "first occurrence of " << t << " in " << s); auto [i, j, len] = a.longest_common_substring(q); int best = 0; for (size_t x = 0; x < t.size(); ++x) for (size_t l = best + 1; x + l <= t.size(); ++l) if (s.find(t.substr(x, l)) != S::npos) best = l; MC_EQ(len, best, "longest common substring of " << s << " and " << t); MC_CHECK(i >= 0 && j >= 0 && i + len <= n && j + len <= int(t.size()) && s.compare(i, len, t, j, len) == 0, "lcs witness (" << i << "," << j << "," << len << ") for " << s << " and " << t); }
}
MC_GROUP(suffix_automaton) { mc::bound("all binary strings of length <= 10 and ternary <= 6, each automaton grown letter by letter and constructed at once; all patterns of length <= 4 plus all substrings: acceptance, counts, occurrences, first occurrence, longest common substring"); auto ws = words(0, mc::T(10, 12), 2); auto w3 = words(1, mc::T(6, 7), 3); ws.insert(ws.end(), w3.begin(), w3.end()); for (auto& s : ws) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); bool t3 = s.find('c') != S::npos; vec<S> pats = words(0, t3 ? 3 : 4, t3 ? 3 : 2); for (size_t i = 0; i < s.size(); ++i) pats.push_back(s.substr(i)), pats.push_back(s.substr(0, i + 1)), pats.push_back(s.substr(i) + "a"), pats.push_back("b" + s.substr(i)); sam_check(SuffixAutomaton<char>(s), s, pats); if (s.size() <= 6) sam_check(SuffixAutomaton<int>(conv<vec<int>>(s)), s, pats); if (s.size() == 7) { SuffixAutomaton<char> b; for (size_t i = 0; i < s.size(); ++i) { b += s[i]; if (i % 2) sam_check(b, s.substr(0, i + 1), { s, s.substr(i / 2), "a", "b", "" }); } } } }
MC_GROUP(suffix_automaton_long) { mc::bound("Fibonacci, Thue-Morse, unary and de Bruijn words up to length 200: every substring of length <= 12"); vec<S> fam; { S a = "a", b = "ab"; for (int i = 0; i < 8; ++i) { S c = b + a; a = b; b = c; } fam.push_back(b); S t = "a"; for (int i = 0; i < 7; ++i) { S u = t; for (char& c : u) c ^= 3; t += u; } fam.push_back(t); fam.push_back(S(100, 'a')); S d; for (int i = 0; i < 32; ++i) for (int k = 0; k < 5; ++k) d += char('a' + (i >> k & 1)); fam.push_back(d); } for (auto& s : fam) { MC_CASE(s.size()); std::set<S> sub; for (size_t i = 0; i < s.size(); ++i) for (size_t l = 1; l <= 12 && i + l <= s.size(); l += 2) sub.insert(s.substr(i, l)); sam_check(SuffixAutomaton<char>(s), s, vec<S>(sub.begin(), sub.end())); } }
template <class T> static void set_check(const SubstringSet<T>& st, const S& s, const vec<S>& pats) {
    using Seq = typename SubstringSet<T>::value_type; std::set<S> subs{ "" }; for (size_t i = 0; i < s.size(); ++i) for (size_t l = 1; i + l <= s.size(); ++l) subs.insert(s.substr(i, l)); vec<S> v(subs.begin(), subs.end()); typedef long long ll; ll m = v.size(); MC_EQ(st.size(), m, "size for " << s);
    for (ll k = 0; k < m; ++k) { MC_EQ(st[k], conv<Seq>(v[k]), "element " << k << " of " << s); MC_EQ(st.kth_element(k), conv<Seq>(v[k]), "kth_element"); }
    { ll k = 0; for (auto it = st.begin(); it != st.end(); ++it, ++k) MC_EQ(*it, conv<Seq>(v[k]), "iterator at " << k); MC_EQ(k, m, "iteration length"); k = m; for (auto it = st.rbegin(); it != st.rend(); ++it) MC_EQ(*it, conv<Seq>(v[--k]), "reverse iterator at " << k); MC_EQ(k, 0LL, "reverse iteration length"); if (m > 2) { auto it = st.rbegin(); MC_EQ(*++it, conv<Seq>(v[m - 2]), "*++ on reverse iterator"); MC_EQ(*(it + 1), conv<Seq>(v[m - 3]), "reverse iterator + 1"); MC_EQ(*(st.begin() + 2), conv<Seq>(v[2]), "begin + 2"); auto jt = st.end(); jt -= 2; MC_EQ(*--jt, conv<Seq>(v[m - 3]), "*--"); MC_EQ(jt - st.begin(), m - 3, "distance"); } }
    for (auto& t : pats) { Seq q = conv<Seq>(t); ll lt = std::lower_bound(v.begin(), v.end(), t) - v.begin(), le = std::upper_bound(v.begin(), v.end(), t) - v.begin(); MC_EQ(st.contains(q), le > lt, "contains " << t << " in set of " << s); MC_EQ(st.count_lt(q), lt, "count_lt " << t << " in " << s); MC_EQ(st.count_leq(q), le, "count_leq"); MC_EQ(st.count_gt(q), m - le, "count_gt"); MC_EQ(st.count_geq(q), m - lt, "count_geq"); if (lt < m) MC_EQ(st.min_geq(q), conv<Seq>(v[lt]), "min_geq"); if (le < m) MC_EQ(st.min_gt(q), conv<Seq>(v[le]), "min_gt"); if (lt > 0) MC_EQ(st.max_lt(q), conv<Seq>(v[lt - 1]), "max_lt"); if (le > 0) MC_EQ(st.max_leq(q), conv<Seq>(v[le - 1]), "max_leq"); MC_EQ(st.lower_bound(q) - st.begin(), lt, "lower_bound"); MC_EQ(st.upper_bound(q) - st.begin(), le, "upper_bound"); auto f = st.find(q); MC_EQ(f == st.end(), le == lt, "find " << t); if (le > lt) MC_EQ(*f, q, "find"); for (auto& u : pats) if (u.size() <= 2) { ll lu = std::lower_bound(v.begin(), v.end(), u) - v.begin(); MC_EQ(st.count_range(q, conv<Seq>(u)), t >= u ? 0 : lu - lt, "count_range"); } }
}
MC_GROUP(substring_set) { mc::bound("all binary strings of length <= 7, ternary <= 5: full sorted order through indexing and both iterators, all rank/bound queries for all words of length <= 4; an object rebuilt for a second string"); auto ws = words(0, mc::T(8, 10), 2); auto w3 = words(1, 5, 3); ws.insert(ws.end(), w3.begin(), w3.end()); S prev = "abba"; for (auto& s : ws) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); bool t3 = s.find('c') != S::npos; vec<S> pats = words(0, t3 ? 2 : 3, 3); if (!t3) { auto e = words(4, 4, 2); pats.insert(pats.end(), e.begin(), e.end()); } pats.push_back(s + "a"); pats.push_back(s); set_check(SubstringSet<char>(s), s, pats); SubstringSet<char> two(prev); two.build(s); set_check(two, s, { s, prev, "a", "" }); if (s.size() <= 4) set_check(SubstringSet<int>(conv<vec<int>>(s)), s, pats); prev = s; } SubstringSet<char> e; set_check(e, "", { "", "a" }); }
static bool pal(const S& s) { return S(s.rbegin(), s.rend()) == s; }
template <class Tree, class Seq, class F> static void pal_check(Tree& t, const S& s, F dec, const char* name) {
    // returns of add(), then the full node set
    std::map<S, int> id; int n = s.size();
    for (int i = 0; i < n; ++i) { int r = t.add(dec(s[i])); S p; for (int l = 0; l <= i; ++l) if (pal(s.substr(l, i + 1 - l))) { p = s.substr(l, i + 1 - l); break; } MC_EQ(t.length(r), int(p.size()), name << " longest palindromic suffix of " << s.substr(0, i + 1)); auto it = id.emplace(p, r).first; MC_EQ(it->second, r, name << " node id of " << p); }
    std::map<S, int> freq; std::map<S, int> first; for (int l = 0; l < n; ++l) for (int r = l + 1; r <= n; ++r) { S p = s.substr(l, r - l); if (pal(p)) { ++freq[p]; } } for (auto& kv : freq) first[kv.first] = s.find(kv.first);
    MC_EQ(t.node_num(), int(freq.size()) + 2, name << " node count of " << s); auto ft = t.frequency_table(); auto par = t.parents(); MC_EQ(t.length(Tree::NODE_M1), -1, "length of node -1"); MC_EQ(t.length(Tree::NODE_0), 0, "length of node 0");
    for (auto& kv : freq) { const S& p = kv.first; int x = id.count(p) ? id[p] : -1; MC_CHECK(x >= 2, name << ": palindrome " << p << " was never the longest suffix"); Seq q; for (char c : p) q.push_back(dec(c)); MC_CHECK(t.get_palindrome(x) == q, name << " get_palindrome of " << p); MC_EQ(t.length(x), int(p.size()), name << " length"); MC_EQ(t.first_occurence(x), first[p], name << " first occurrence of " << p << " in " << s); MC_EQ(ft[x], kv.second, name << " frequency of " << p << " in " << s); S sl; for (size_t l = 1; l < p.size(); ++l) if (pal(p.substr(l))) { sl = p.substr(l); break; } MC_EQ(t.suffix_link(x), sl.empty() ? int(Tree::NODE_0) : id[sl], name << " suffix link of " << p); int pw = p.size() == 1 ? int(Tree::NODE_M1) : p.size() == 2 ? int(Tree::NODE_0) : id[p.substr(1, p.size() - 2)]; MC_EQ(par[x], pw, name << " parent of " << p); }
}
MC_GROUP(palindromic_tree) { mc::bound("all binary strings of length <= 9, ternary <= 6, map / vector / array variants: node set, lengths, links, parents, first occurrences, frequencies; reused after clear(); constructed from a sequence"); auto ws = words(0, mc::T(10, 12), 2); auto w3 = words(1, 6, 3); ws.insert(ws.end(), w3.begin(), w3.end()); auto ch = [](char c) { return c; }; auto num = [](char c) { return int(c - 'a'); }; PalindromicTree<char, S> rm; PalindromicTreeVec<int> rv; PalindromicTreeArr<int, 4> ra; for (auto& s : ws) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); { PalindromicTree<char, S> t; pal_check<PalindromicTree<char, S>, S>(t, s, ch, "PalindromicTree"); } { PalindromicTreeVec<int> t; pal_check<PalindromicTreeVec<int>, vec<int>>(t, s, num, "PalindromicTreeVec"); } { PalindromicTreeArr<int, 4> t; pal_check<PalindromicTreeArr<int, 4>, vec<int>>(t, s, num, "PalindromicTreeArr"); } { PalindromicTree<char, S> a(s), b; b.add_all(s); MC_EQ(a.node_num(), b.node_num(), "constructed vs add_all"); } if (s.size() <= 7) { rm.clear(); pal_check<PalindromicTree<char, S>, S>(rm, s, ch, "PalindromicTree after clear"); rv.clear(); pal_check<PalindromicTreeVec<int>, vec<int>>(rv, s, num, "PalindromicTreeVec after clear"); ra.clear(); pal_check<PalindromicTreeArr<int, 4>, vec<int>>(ra, s, num, "PalindromicTreeArr after clear"); rm.shrink_to_fit(); } } }
MC_GROUP(palindromic_tree_many_nodes) { mc::bound("words with 100..300 distinct palindromes over a char alphabet"); auto low = [](char c) { return char(c - 'a'); }; auto ch = [](char c) { return c; }; for (int n : { 100, 127, 128, 160, 300 }) { MC_CASE(n); for (S s : { S(n, 'b'), S(n / 2, 'a') + S(n / 2, 'b') }) { { PalindromicTree<char, S> t; pal_check<PalindromicTree<char, S>, S>(t, s, ch, "PalindromicTree"); } { PalindromicTreeVec<char, S> t; pal_check<PalindromicTreeVec<char, S>, S>(t, s, low, "PalindromicTreeVec<char>"); } { PalindromicTreeArr<char, 3, S> t; pal_check<PalindromicTreeArr<char, 3, S>, S>(t, s, low, "PalindromicTreeArr<char>"); } } } }
template <size_t B> struct Seen { std::map<std::pair<size_t, typename DynamicRollingHash<B>::hash>, S> by; std::map<S, typename DynamicRollingHash<B>::hash> val; void see(const S& x, const typename DynamicRollingHash<B>::hash& h) { auto it = val.emplace(x, h).first; MC_CHECK(it->second == h, "two occurrences of " << x << " hash differently"); auto jt = by.emplace(std::make_pair(x.size(), h), x).first; MC_EQ(jt->second, x, "different strings, same hash"); } };
template <size_t B> static void drh(int depth) { Seen<B> seen; mc::explore([&](mc::Chooser& c) { typedef DynamicRollingHash<B> D; D::init_pool(2000); S m; D d; int start = c.choose(3); if (start) { m = start == 1 ? "ab" : "abcab"; d = D(conv<vec<int>>(m)); } for (int i = 0; i < depth; ++i) { int op = c.choose(7), n = m.size(); if (n == 0 && (op == 0 || op == 4 || op == 5 || op == 6)) return; int k = op == 0 || op == 4 ? c.choose(n) : op == 1 ? c.choose(n + 1) : 0; int v = op <= 3 ? 'a' + c.choose(2) : 0; if (op == 0) { d.set(k, v); m[k] = v; } else if (op == 1) { d.insert(k, v); m.insert(m.begin() + k, v); } else if (op == 2) { d.push_back(v); m += char(v); } else if (op == 3) { d.push_front(v); m = char(v) + m; } else if (op == 4) { d.erase(k); m.erase(m.begin() + k); } else if (op == 5) { d.pop_back(); m.pop_back(); } else { d.pop_front(); m.erase(m.begin()); } MC_LOG("op " << op << " k=" << k << " -> " << m); n = m.size(); mc::step(); for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) seen.see(m.substr(l, r - l), d(l, r)); } }); }
MC_GROUP(dynamic_rolling_hash_1) { mc::bound("DynamicRollingHash<1>: every sequence of 3 edits (set, insert, erase, push/pop at both ends) from the empty word, ab, abcab; after each edit every substring hash agrees with every other occurrence of the same string in any history and differs from all other strings of that length"); drh<1>(mc::T(3, 4)); }
MC_GROUP(dynamic_rolling_hash_2) { mc::bound("the same for two bases, 2 (thorough 3) edits"); drh<2>(mc::T(2, 3)); }
MC_GROUP(substring_set_iterators) { mc::bound("all binary strings of length <= 5: both iterator kinds, every pair of positions: +, -, +=, -=, ++, --, difference, all comparisons, const begin/end forms"); typedef long long ll; for (auto& s : words(0, 5, 2)) { MC_CASE(s.size(), mc::hash_range(s) & 0xffff); const SubstringSet<char> st(s); ll m = st.size(); std::vector<std::vector<char>> v; for (ll i = 0; i < m; ++i) { auto x = st[i]; v.emplace_back(x.begin(), x.end()); } auto vec_of = [](const auto& x) { return std::vector<char>(x.begin(), x.end()); };
    MC_CHECK(st.cbegin() == st.begin() && st.cend() == st.end() && st.crbegin() == st.rbegin() && st.crend() == st.rend(), "const forms"); MC_EQ(st.cend() - st.cbegin(), m, "length"); MC_EQ(st.crend() - st.crbegin(), m, "reverse length");
    auto run = [&](auto first, auto at, const char* name) { for (ll i = 0; i <= m; ++i) for (ll j = 0; j <= m; ++j) { auto p = first + i, q = first; q += j; MC_EQ(p == q, i == j, name); MC_EQ(p != q, i != j, name); MC_EQ(p < q, i < j, name); MC_EQ(p <= q, i <= j, name); MC_EQ(p > q, i > j, name); MC_EQ(p >= q, i >= j, name); MC_EQ(p - q, i - j, name); if (j <= i) { auto r = p - j; MC_EQ(r - first, i - j, name << " it - d"); if (i - j < m) MC_EQ(vec_of(*r), at(i - j), name << " *(it - d)"); auto t = p; auto& tr = (t -= j); MC_CHECK(&tr == &t && t == r, name << " -="); } }
        for (ll i = 0; i < m; ++i) { auto p = first + i; MC_EQ(vec_of(*p), at(i), name); auto q = p; auto& qr = ++q; MC_CHECK(&qr == &q && q - p == 1, name << " ++"); auto& qs = --q; MC_CHECK(&qs == &q && q == p, name << " --"); MC_EQ(vec_of(*q), at(i), name << " after ++ --"); auto z = first; z = p; MC_EQ(vec_of(*z), at(i), name << " assignment"); } };
    run(st.begin(), [&](ll i) { return v[i]; }, "iterator"); run(st.rbegin(), [&](ll i) { return v[m - 1 - i]; }, "reverse iterator"); } }
static vec<S> families(int n) { vec<S> r; S f = "a", g = "ab"; while ((int)g.size() < n) { S h = g + f; f = g; g = h; } r.push_back(g.substr(0, n)); S t = "a"; while ((int)t.size() < n) { S u = t; for (char& c : u) c ^= 3; t += u; } r.push_back(t.substr(0, n)); S p; for (int i = 0; i < n; ++i) p += "abcab"[i % 5]; r.push_back(p); if (n > 9) { p[n - 3] = 'c'; r.push_back(p); } S q; for (int i = 0; i < n; ++i) q += char('a' + (i * i) % 7 % 3); r.push_back(q); S z; for (int i = 1; i <= n; ++i) z += char('a' + __builtin_ctz(i)); r.push_back(z); return r; }
MC_GROUP(middle_words) { mc::bound("Fibonacci, Thue-Morse, periodic, perturbed, quadratic-residue and ruler words of every length 8..40 (step 3 above 14): suffix automata (every substring starting in the first and last thirds), substring sets (whole order, every iterator, bounds), the three palindromic trees");
    auto ch = [](char c) { return c; }; auto num = [](char c) { return int(c - 'a'); }; for (int n = 8; n <= mc::T(35, 50); n += n < 14 ? 1 : 3) { auto fs = families(n); for (size_t k = 0; k < fs.size(); ++k) { const S& s = fs[k]; MC_CASE(n, k); std::set<S> sub; for (int i = 0; i < n; i += 1 + n / 9) for (int l = 1; i + l <= n; l += 1 + n / 12) { sub.insert(s.substr(i, l)); sub.insert(s.substr(i, l) + "a"); sub.insert("b" + s.substr(i, l)); } vec<S> pats(sub.begin(), sub.end()); sam_check(SuffixAutomaton<char>(s), s, pats); sam_check(SuffixAutomaton<int>(conv<vec<int>>(s)), s, { s, "a", "", s.substr(n / 2) }); vec<S> few; for (size_t i = 0; i < pats.size(); i += 4) few.push_back(pats[i]); few.push_back(""); few.push_back("zz"); set_check(SubstringSet<char>(s), s, few);
        { PalindromicTree<char, S> t; pal_check<PalindromicTree<char, S>, S>(t, s, ch, "PalindromicTree"); } { PalindromicTreeVec<int> t; pal_check<PalindromicTreeVec<int>, vec<int>>(t, s, num, "PalindromicTreeVec"); } { PalindromicTreeArr<int, 8> t; pal_check<PalindromicTreeArr<int, 8>, vec<int>>(t, s, num, "PalindromicTreeArr"); } mc::step(); } } }
MC_GROUP(dynamic_rolling_hash_long) { mc::bound("DynamicRollingHash<1> and <2>: 12 periodic edit histories of 60 edits growing to 40 letters and shrinking again, every substring hash compared with every other occurrence of the same word in any history");
    auto go = [&](auto tag) { constexpr size_t B = decltype(tag)::value; Seen<B> seen; typedef DynamicRollingHash<B> D; for (int k = 0; k < 12; ++k) { MC_CASE(B, k); D::init_pool(4000); S m; D d; for (int i = 0; i < 60; ++i) { int n = m.size(), v = 'a' + (i * i + k) % 2, op = (i * (k + 1) + i / 7) % 4; if (i > 40) op = 4 + (i + k) % 3; if (n == 0) op = 2; if (op == 0) { int p = (i * 5 + k) % n; d.set(p, v); m[p] = v; } else if (op == 1) { int p = (i * 7 + k) % (n + 1); d.insert(p, v); m.insert(m.begin() + p, v); } else if (op == 2) { d.push_back(v); m += char(v); } else if (op == 3) { d.push_front(v); m = char(v) + m; } else if (op == 4) { int p = (i * 3 + k) % n; d.erase(p); m.erase(m.begin() + p); } else if (op == 5) { d.pop_back(); m.pop_back(); } else { d.pop_front(); m.erase(m.begin()); } n = m.size(); mc::step(); for (int l = 0; l <= n; l += 1 + n / 7) for (int r = l; r <= n; r += 1 + n / 9) seen.see(m.substr(l, r - l), d(l, r)); } } }; go(std::integral_constant<size_t, 1>{}); go(std::integral_constant<size_t, 2>{}); }
MC_MAIN
