// mc: flags='-O1'
// Streams, parsing, container helpers, template macros and the debug printers.
#include "mc.hpp"
#include <sstream>
#include <algorithm>
#include <cassert>
#include <set>
#include <string>
#include <tuple>
#include "library/io/input_stream.hpp"
#include "library/io/output_stream.hpp"
#include "library/util/container_utils.hpp"
#include "library/icpc/parsing.hpp"
#include "library/debug/tree.hpp"
#include "library/debug/suffix_automaton.hpp"
#include "library/template.hpp"
#include "library/type_traits/operator.hpp"
using ll = long long; using i128 = __int128_t; using u128 = __uint128_t;
static std::string dec(u128 v) { std::string s; do s += char('0' + int(v % 10)), v /= 10; while (v); std::reverse(s.begin(), s.end()); return s; }
static std::string dec(i128 v) { return v < 0 ? "-" + dec(u128(0) - u128(v)) : dec(u128(v)); }
template <class... A> static std::string out(const A&... a) { suisen::io::OutputStream os{std::ostringstream{}}; os.print(a...); return os.get_stream().str(); }
MC_GROUP(wide_integers) { mc::bound("every 128-bit value +-2^i + d and +-10^k + d (|d|<=2) and both extremes: printed in decimal and read back; stoi128/stou128"); mc::explore([&](mc::Chooser& c) { int k = c.choose(128 + 39), d = c.range(-2, 2); u128 b = 1; if (k < 128) b <<= k; else for (int i = 128; i < k; ++i) b *= 10; b += d; for (int s = 0; s < 2; ++s) { u128 u = s ? u128(0) - b : b; i128 v = (i128)u; MC_EQ(out(u), dec(u) + "\n", "print u128"); MC_EQ(out(v), dec(v) + "\n", "print i128"); std::istringstream is(dec(u) + " " + dec(v) + " 17 x"); suisen::io::InputStream in(is); u128 ru; i128 rv; int t; std::string x; in >> ru >> rv; in.read(t, x); MC_CHECK(ru == u && rv == v && t == 17 && x == "x", "read back"); MC_CHECK(suisen::stou128(dec(u)) == u && suisen::stoi128(dec(v)) == v, "string conversion"); } mc::step(); }); }
MC_GROUP(structures) { mc::bound("every nesting of pairs, tuples, vectors (length 0..3), sets, maps of small values: printed as space-separated leaves and read back into the same value; separators and terminators of print_all"); mc::explore([&](mc::Chooser& c) { int a = c.range(-2, 2), n = c.range(0, 3), m = c.range(0, 2); std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i * 7 - a; std::string leaves; for (int i = 0; i < n; ++i) leaves += (i ? " " : "") + std::to_string(v[i]); std::pair<int, std::string> p(a, "q"); std::tuple<int, std::pair<ll, char>, std::vector<int>> t(a, {5000000000LL + a, 'z'}, v); MC_EQ(out(), std::string("\n"), "print()"); MC_EQ(out(p), std::to_string(a) + " q\n", "pair"); MC_EQ(out(v), leaves + "\n", "vector"); MC_EQ(out(a, v, p), std::to_string(a) + " " + leaves + " " + std::to_string(a) + " q\n", "several"); std::string tl = std::to_string(a) + " " + std::to_string(5000000000LL + a) + " z " + leaves; MC_EQ(out(t), tl + "\n", "tuple"); std::tuple<int, std::pair<ll, char>, std::vector<int>> r; std::get<2>(r).resize(n); std::istringstream is(tl + "\n9 8"); suisen::io::InputStream in(is); in.read(r); MC_CHECK(r == t, "tuple read back"); int x = in.read(), y = in.read(); MC_CHECK(x == 9 && y == 8, "read()"); std::vector<std::vector<int>> g(m, v), h(m, std::vector<int>(n)); std::string gl; for (int i = 0; i < m; ++i) gl += (i ? " " : "") + leaves; MC_EQ(out(g), gl + "\n", "nested vector"); std::istringstream i2(gl); suisen::io::InputStream{i2} >> h; MC_CHECK(h == g, "nested read"); std::set<int> s(v.begin(), v.end()); std::string sl; for (int z : s) sl += (sl.empty() ? "" : " ") + std::to_string(z); MC_EQ(out(s), sl + "\n", "set"); suisen::io::OutputStream os{std::ostringstream{}}; os.print_all(v, ", ", "!"); std::string w; for (int i = 0; i < n; ++i) w += (i ? ", " : "") + std::to_string(v[i]); MC_EQ(os.get_stream().str(), w + "!", "print_all"); MC_EQ(suisen::join(v, ", ", "!"), w + "!", "join"); std::ostringstream ref; { suisen::io::OutputStream q(ref); q << a << ' ' << v; q.print(p); q.print_all(v); } MC_EQ(ref.str(), std::to_string(a) + " " + leaves + std::to_string(a) + " q\n" + leaves + "\n", "stream by reference"); mc::step(); }); }
MC_GROUP(containers) { mc::bound("every sorted sequence of <=5 values from 4 (vector, set, multiset) and every key; split/join over every string of length <=5; concat (also with itself); digits of every value below 400 in bases 2..11"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5); std::vector<int> v; int lo = 0; for (int i = 0; i < n; ++i) v.push_back((lo = c.range(lo, 3)) * 2); std::set<int> s(v.begin(), v.end()); std::multiset<int> ms(v.begin(), v.end()); for (int k = -1; k <= 7; ++k) { int le = 0, lt = 0; for (int x : v) le += x <= k, lt += x < k; MC_EQ(suisen::count_leq(v, k), le, "count_leq"); MC_EQ(suisen::count_lt(v, k), lt, "count_lt"); MC_EQ(suisen::count_geq(v, k), n - lt, "count_geq"); MC_EQ(suisen::count_gt(v, k), n - le, "count_gt"); using O = std::optional<int>; O ge = lt < n ? O(v[lt]) : O(), gt = le < n ? O(v[le]) : O(), xle = le ? O(v[le - 1]) : O(), xlt = lt ? O(v[lt - 1]) : O(); MC_CHECK(suisen::min_geq(v, k) == ge && suisen::min_geq(s, k) == ge && suisen::min_geq(ms, k) == ge, "min_geq"); MC_CHECK(suisen::min_gt(v, k) == gt && suisen::min_gt(s, k) == gt && suisen::min_gt(ms, k) == gt, "min_gt"); MC_CHECK(suisen::max_leq(v, k) == xle && suisen::max_leq(s, k) == xle && suisen::max_leq(ms, k) == xle, "max_leq"); MC_CHECK(suisen::max_lt(v, k) == xlt && suisen::max_lt(s, k) == xlt && suisen::max_lt(ms, k) == xlt, "max_lt"); } auto w = v; suisen::concat(w, w); auto d = v; d.insert(d.end(), v.begin(), v.end()); MC_CHECK(w == d && suisen::concatenated(v, v) == d, "concat"); auto f = suisen::mapped_vec([](int x) { return std::to_string(x); }, v); MC_EQ(f.size(), v.size(), "mapped_vec"); for (int i = 0; i < n; ++i) MC_EQ(f[i], std::to_string(v[i]), "mapped_vec"); MC_CHECK((suisen::copied_vec<ll>(ms) == std::vector<ll>(v.begin(), v.end())), "copied_vec"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(6, 8)); std::string s; for (int i = 0; i < n; ++i) s += "a,b"[c.choose(3)]; std::vector<std::string> w(1); for (char ch : s) if (ch == ',') w.emplace_back(); else w.back() += ch; auto g = suisen::split(s, ','); MC_CHECK(g == w, "split"); MC_EQ(suisen::join(g, ",", ""), s, "join(split)"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int v = c.choose(400); for (int b = 2; b <= 11; ++b) { auto d = suisen::digits(v, b); ll t = 0, p = 1; for (int x : d) { MC_CHECK(0 <= x && x < b, "digit"); t += x * p; p *= b; } MC_EQ(t, (ll)v, "digits"); MC_CHECK(d.size() == 1 || d.back() != 0, "no leading zero"); } auto val = [](const std::string& s, int b) { ll t = 0, p = 1; for (char ch : s) t += (ch - '0') * p, p *= b; return t; }; for (size_t w : {0, 3, 12}) { auto s2 = suisen::digits_str(v, w), s3 = suisen::digits_str<3>(v, w), s10 = suisen::digits_str<10>((ll)v, w); MC_CHECK(val(s2, 2) == v && val(s3, 3) == v && val(s10, 10) == v && s2.size() >= w && s3.size() >= w && s10.size() >= w, "digits_str"); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int k = c.choose(26); MC_CHECK(suisen::charmap::fa('a' + k) == k && suisen::charmap::fA('A' + k) == k && suisen::charmap::faA('A' + k) == k && suisen::charmap::faA('a' + k) == 26 + k && (k > 9 || suisen::charmap::fd('0' + k) == k), "charmap"); mc::step(); }); }
// independent evaluator: shunting-yard over the same grammar; returns false on a syntax error at the point where the parser must throw
namespace ref { struct Err {}; static ll E(const std::string& s, size_t& i); static char at(const std::string& s, size_t i) { return i < s.size() ? s[i] : '\0'; } static ll F(const std::string& s, size_t& i) { int sg = 1; while (at(s, i) == '-') sg = -sg, ++i; ll v = 0; if (at(s, i) == '(') { ++i; v = E(s, i); if (at(s, i) != ')') throw Err{}; ++i; } else { size_t j = i; while (isdigit(at(s, j))) ++j; if (i == j) throw Err{}; v = std::stoll(s.substr(i, j - i)); i = j; } return sg * v; }
    static ll E(const std::string& s, size_t& i) { std::vector<ll> sum; sum.push_back(F(s, i)); while (true) { char o = at(s, i); if (o == '*' || o == '/') { ++i; ll f = F(s, i); if (o == '*') sum.back() *= f; else { if (!f) throw 1; sum.back() /= f; } } else if (o == '+' || o == '-') { ++i; ll f = F(s, i); sum.push_back(o == '+' ? f : -f); } else { ll t = 0; for (ll x : sum) t += x; return t; } } } }
MC_GROUP(parsing) { mc::bound("every string of length <=5 (6) over {2,7,+,-,*,/,(,)}: value, position after parsing and rejection equal an independent evaluator; numbers of every length <=18"); std::streambuf* old = std::cerr.rdbuf(nullptr); mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::T(5, 6)); std::string s; for (int i = 0; i < n; ++i) s += "27+-*/()"[c.choose(8)]; bool ok = true; ll w = 0; size_t i = 0; try { w = ref::E(s, i); } catch (ref::Err) { ok = false; } catch (int) { return; } const std::string& cs = s; auto it = cs.begin(); bool got = true; ll g = 0; try { g = suisen::parsing::normal_expression::parse(it); } catch (suisen::parsing::ParseError&) { got = false; } MC_LOG(s); MC_EQ(got, ok, "accepts " + s); if (ok) { MC_EQ(g, w, "value of " + s); MC_EQ((size_t)(it - cs.begin()), i, "position after " + s); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 18), k = c.range(0, 3), first = c.choose(10); std::string d(1, '0' + first); for (int i = 1; i < n; ++i) d += char('0' + (i * 7 + first) % 10); std::string s = std::string(k, '-') + d + "+"; const std::string& cs = s; auto it = cs.begin(); ll w = std::stoll(d); MC_EQ(suisen::parsing::number(it), k & 1 ? -w : w, "number"); MC_CHECK(suisen::parsing::is(it, '+') && suisen::parsing::in(it, '*', '-') && !suisen::parsing::in(it, '0', '9'), "position"); auto jt = cs.begin() + k; MC_EQ(suisen::parsing::nonnegative_number(jt), w, "nonnegative_number"); bool th = false; try { suisen::parsing::consume(jt, '-'); } catch (suisen::parsing::ParseError&) { th = true; } MC_CHECK(th, "consume rejects"); suisen::parsing::consume(jt, '+'); MC_CHECK(jt == cs.end(), "consume advances"); th = false; try { suisen::parsing::assert_range(it, '0', '9'); } catch (suisen::parsing::ParseError&) { th = true; } MC_CHECK(th, "assert_range"); suisen::parsing::assert_range(it, '+', '+'); suisen::parsing::assert_exact(it, '+'); mc::step(); }); std::cerr.rdbuf(old); }
MC_GROUP(macros) { mc::bound("REP/RREP with every l, r in -3..5 and step 1..3, fld/cld on a signed grid, chmin/chmax, sorted_indices, ndvec of every shape up to 3 dims"); mc::explore([&](mc::Chooser& c) { int l = c.range(-3, 5), r = c.range(-3, 5), st = c.range(1, 3); std::vector<int> a, b, w; REP(i, l, r) a.push_back(i); for (int i = l; i < r; ++i) w.push_back(i); MC_CHECK(a == w, "REP"); std::reverse(w.begin(), w.end()); a.clear(); RREP(i, l, r) a.push_back(i); MC_CHECK(a == w, "RREP"); a.clear(); w.clear(); REP(i, l, r, st) a.push_back(i); for (int i = l; i < r; i += st) w.push_back(i); MC_CHECK(a == w, "REP step"); std::reverse(w.begin(), w.end()); a.clear(); RREP(i, l, r, st) a.push_back(i); MC_CHECK(a == w, "RREP step"); a.clear(); w.clear(); REP(i, r) a.push_back(i); for (int i = 0; i < r; ++i) w.push_back(i); MC_CHECK(a == w, "REP n"); std::reverse(w.begin(), w.end()); a.clear(); RREP(i, r) a.push_back(i); MC_CHECK(a == w, "RREP n"); int n = 0; LOOP(r) ++n; MC_EQ(n, std::max(r, 0), "LOOP"); a.clear(); REPINF(i, l, st) { a.push_back(i); if (a.size() == 3) break; } MC_CHECK((a == std::vector<int>{l, l + st, l + 2 * st}), "REPINF"); int x = l; bool ch = suisen::chmin(x, r); MC_CHECK(x == std::min(l, r) && ch == (r < l), "chmin"); x = l; ch = suisen::chmax(x, r); MC_CHECK(x == std::max(l, r) && ch == (r > l), "chmax"); if (r) { int q = 0; double e = (double)l / r; q = (int)std::floor(e); MC_EQ(suisen::fld(l, r), q, "fld"); MC_EQ(suisen::cld(l, r), (int)std::ceil(e), "cld"); } MC_EQ(suisen::pow_m1(l), l % 2 ? -1 : 1, "pow_m1"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5); std::vector<int> v(n); for (int& x : v) x = c.choose(3); auto p = suisen::sorted_indices(n, [&](int i) { return v[i] * 10 + i; }); auto q = suisen::sorted_indices(n, [&](int i, int j) { return std::make_pair(-v[i], i) < std::make_pair(-v[j], j); }); for (int i = 1; i < n; ++i) MC_CHECK(std::make_pair(v[p[i - 1]], p[i - 1]) < std::make_pair(v[p[i]], p[i]) && std::make_pair(-v[q[i - 1]], q[i - 1]) < std::make_pair(-v[q[i]], q[i]), "sorted_indices"); auto u = v; suisen::sort_unique_erase(u); MC_CHECK((u == [&] { std::set<int> s(v.begin(), v.end()); return std::vector<int>(s.begin(), s.end()); }()), "sort_unique_erase"); auto pq = suisen::priority_queue_with_comparator<int>([&](int i, int j) { return v[i] < v[j]; }); for (int i = 0; i < n; ++i) pq.push(i); int last = 9; while (pq.size()) { MC_CHECK(v[pq.top()] <= last, "priority_queue"); last = v[pq.top()]; pq.pop(); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int a = c.range(0, 3), b = c.range(0, 3), d = c.range(0, 2); auto v = suisen::ndvec<ll>(suisen::Dim(a, b, d), 7LL); MC_CHECK((v == std::vector(a, std::vector(b, std::vector<ll>(d, 7)))), "ndvec 3"); auto w = suisen::ndvec<int>(suisen::Dim(a, b)); MC_CHECK((w == std::vector(a, std::vector<int>(b, 0))), "ndvec 2"); MC_CHECK((suisen::ndvec<char>(suisen::Dim(a), 'x') == std::vector<char>(a, 'x')), "ndvec 1"); mc::step(); }); }
static std::vector<std::string> draw(int v, const std::vector<std::vector<std::pair<std::string, int>>>& g, const std::string& acc, bool named, bool leaf) { std::string head = std::to_string(v) + " "; std::vector<std::string> res; if (g[v].empty()) return {head + (leaf ? "(" + acc + ")" : "")}; int k = g[v].size(); for (int i = 0; i < k; ++i) { auto& [e, u] = g[v][i]; std::string es = named ? "+-[" + e + "]- " : "+-- "; auto sub = draw(u, g, acc + e, named, leaf); if (i) res.push_back(std::string(head.size(), ' ') + "|"); for (size_t j = 0; j < sub.size(); ++j) res.push_back((j == 0 && i == 0 ? head : std::string(head.size(), ' ')) + (j == 0 ? es : (i + 1 < k ? "|" : " ") + std::string(es.size() - 1, ' ')) + sub[j]); } return res; }
MC_GROUP(printers) { mc::bound("tree_to_string of every rooted tree with <=5 (6) vertices (plain, labelled edges, accumulated leaves) equals an independent block renderer; to_dot of every string of length <=5 lists exactly the automaton's nodes, transitions and links; has_operator traits"); mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::T(5, 6)); std::vector<std::vector<std::pair<std::string, int>>> g(n); std::vector<std::vector<int>> p(n); std::vector<std::vector<std::pair<char, int>>> ch(n); std::vector<std::vector<std::pair<std::string, int>>> st(n); for (int i = 1; i < n; ++i) { int q = c.choose(i); std::string e(1, 'a' + i); g[q].push_back({e, i}); p[q].push_back(i); ch[q].push_back({e[0], i}); } auto flat = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "\n"; return s; }; MC_EQ(suisen::debug::tree_to_string(0, p), flat(draw(0, g, "", false, false)), "plain tree"); MC_EQ(suisen::debug::tree_to_string(0, ch), flat(draw(0, g, "", true, false)), "labelled tree"); MC_EQ(suisen::debug::tree_to_string(0, g), flat(draw(0, g, "", true, false)), "string labels"); auto acc = [](std::string s, char x) { return s + x; }; MC_EQ((suisen::debug::tree_to_string<int, char, std::string>(0, "", acc, ch)), flat(draw(0, g, "", true, true)), "accumulated leaves"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5); std::string s; for (int i = 0; i < n; ++i) s += "ab"[c.choose(2)]; suisen::SuffixAutomaton a(s); bool links = c.flag(); std::string d = suisen::debug::to_dot(a, links); auto cnt = [&](const std::string& x) { int k = 0; for (size_t i = d.find(x); i != std::string::npos; i = d.find(x, i + 1)) ++k; return k; }; int tr = 0, lk = 0; for (size_t i = 0; i < a.nodes.size(); ++i) { MC_EQ(cnt(std::string(i ? ";" : ";") + std::to_string(i) + "[label="), 1, "node"); for (auto& [k, v] : a.nodes[i].nxt) { ++tr; std::string pat = ";" + std::to_string(i) + "->" + std::to_string(v) + "[label=\"" + k + "\""; MC_EQ(cnt(pat), 1, "transition"); } if (a.nodes[i].link >= 0) ++lk; } MC_EQ(cnt("->"), tr + (links ? lk : 0), "edges"); MC_EQ(cnt("color=blue"), links ? lk : 0, "links"); mc::step(); });
    struct Z {}; static_assert(suisen::has_operator_plus_v<int> && !suisen::has_operator_plus_v<Z> && suisen::has_operator_less_v<std::string> && !suisen::has_operator_modulus_v<double> && suisen::has_operator_negate_v<int> && !suisen::has_operator_negate_v<std::string>); }
#define ONLY_BIN(name, op) namespace only { struct name {}; [[maybe_unused]] static name operator op(const name&, const name&) { return {}; } }
#define ONLY_UN(name, op) namespace only { struct name {}; [[maybe_unused]] static name operator op(const name&) { return {}; } }
ONLY_UN(negate, -) ONLY_BIN(plus, +) ONLY_BIN(minus, -) ONLY_BIN(multiplies, *) ONLY_BIN(divides, /) ONLY_BIN(modulus, %) ONLY_UN(bit_not, ~) ONLY_BIN(bit_and, &) ONLY_BIN(bit_or, |) ONLY_BIN(bit_xor, ^) ONLY_UN(logical_not, !) ONLY_BIN(logical_and, &&) ONLY_BIN(logical_or, ||) ONLY_BIN(equal_to, ==) ONLY_BIN(not_equal_to, !=) ONLY_BIN(less, <) ONLY_BIN(less_equal, <=) ONLY_BIN(greater, >) ONLY_BIN(greater_equal, >=)
template <typename T> static std::vector<int> trait_row() { using namespace suisen; return { has_operator_negate_v<T>, has_operator_plus_v<T>, has_operator_minus_v<T>, has_operator_multiplies_v<T>, has_operator_divides_v<T>, has_operator_modulus_v<T>, has_operator_bit_not_v<T>, has_operator_bit_and_v<T>, has_operator_bit_or_v<T>, has_operator_bit_xor_v<T>, has_operator_logical_not_v<T>, has_operator_logical_and_v<T>, has_operator_logical_or_v<T>, has_operator_equal_to_v<T>, has_operator_not_equal_to_v<T>, has_operator_less_v<T>, has_operator_less_equal_v<T>, has_operator_greater_v<T>, has_operator_greater_equal_v<T> }; }
MC_GROUP(operator_traits) {
    mc::bound("has_operator_*: the full 19 x 19 table of traits against types that overload exactly one operator, plus int, double, std::string, and two-type forms");
    std::vector<std::vector<int>> t = { trait_row<only::negate>(), trait_row<only::plus>(), trait_row<only::minus>(), trait_row<only::multiplies>(), trait_row<only::divides>(), trait_row<only::modulus>(), trait_row<only::bit_not>(), trait_row<only::bit_and>(), trait_row<only::bit_or>(), trait_row<only::bit_xor>(), trait_row<only::logical_not>(), trait_row<only::logical_and>(), trait_row<only::logical_or>(), trait_row<only::equal_to>(), trait_row<only::not_equal_to>(), trait_row<only::less>(), trait_row<only::less_equal>(), trait_row<only::greater>(), trait_row<only::greater_equal>() };
    mc::explore([&](mc::Chooser& c) { int i = c.choose(19), j = c.choose(19); MC_EQ(t[i][j], (int)(i == j), "has_operator trait " + std::to_string(j) + " of the type with operator " + std::to_string(i)); mc::step(); });
    MC_CHECK(trait_row<int>() == std::vector<int>(19, 1), "int"); auto d = trait_row<double>(), s = trait_row<std::string>(); for (int j = 0; j < 19; ++j) { MC_EQ(d[j], (int)(j != 5 && !(6 <= j && j <= 9)), "double " + std::to_string(j)); MC_EQ(s[j], (int)(j == 1 || j >= 13), "string " + std::to_string(j)); }
    MC_CHECK((suisen::has_operator_plus_v<std::string, char> && !suisen::has_operator_plus_v<std::string, int*> && !suisen::has_operator_minus_v<std::string, char> && suisen::has_operator_plus_v<int*, int> && !suisen::has_operator_plus_v<int*, int*> && suisen::has_operator_minus_v<int*, int*>), "two types");
}
MC_GROUP(printers_explicit) {
    mc::bound("tree_to_string with explicit children / node-info getters (nodes relabelled, numeric, char, string and absent edge labels, numeric, char, string leaves, every root) on every rooted tree with <=4 (5) vertices; chart-api prefix of to_dot");
    namespace D = suisen::debug;
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, mc::T(4, 5)); std::vector<std::vector<std::pair<ll, int>>> g(n); std::vector<std::vector<int>> p(n); for (int i = 1; i < n; ++i) { int q = c.choose(i); g[q].push_back({ i * 7 - 9, i }); p[q].push_back(i); } int root = c.choose(n); auto info = [](int v) { return v * 11LL - 4; };
        // renderer over strings, parameterised by how edges and leaves print
        auto render = [&](auto self, int v, ll acc, auto es, auto ls, auto nm) -> std::vector<std::string> { std::string head = nm(v) + " "; if (g[v].empty()) return { head + ls(acc) }; std::vector<std::string> r; int k = g[v].size(); for (int i = 0; i < k; ++i) { auto [w, u] = g[v][i]; std::string e = es(w); auto sub = self(self, u, acc * 3 + w, es, ls, nm); if (i) r.push_back(std::string(head.size(), ' ') + "|"); for (size_t j = 0; j < sub.size(); ++j) r.push_back((i == 0 && j == 0 ? head : std::string(head.size(), ' ')) + (j == 0 ? e : (i + 1 < k ? "|" : " ") + std::string(e.size() - 1, ' ')) + sub[j]); } return r; };
        auto flat = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + "\n"; return s; };
        auto num = [](ll w) { return "+-[" + std::to_string(w) + "]- "; }; auto none = [](ll) { return std::string("+-- "); }; auto nol = [](ll) { return std::string(); }; auto numl = [](ll a) { return "(" + std::to_string(a) + ")"; }; auto nmi = [&](int v) { return std::to_string(info(v)); }; auto nmv = [](int v) { return std::to_string(v); };
        std::function<std::vector<std::pair<ll, int>>(int)> cg = [&](int v) { return g[v]; }; std::function<std::vector<int>(int)> pg = [&](int v) { return p[v]; }; std::function<ll(int)> ni = info; std::function<ll(ll, ll)> ac = [](ll a, ll w) { return a * 3 + w; };
        MC_EQ((D::tree_to_string<int, ll, ll, ll>(root, 5LL, cg, ac, ni)), flat(render(render, root, 5, num, numl, nmi)), "getters with numeric leaves");
        MC_EQ((D::tree_to_string<int, ll, ll>(root, cg, ni)), flat(render(render, root, 0, num, nol, nmi)), "getters with edges");
        MC_EQ((D::tree_to_string<int, ll>(root, pg, ni)), flat(render(render, root, 0, none, nol, nmi)), "getters, plain");
        MC_EQ((D::tree_to_string<int, ll, ll>(root, 5LL, ac, g)), flat(render(render, root, 5, num, numl, nmv)), "vector tree, numeric leaves");
        MC_EQ(D::tree_to_string(root, g), flat(render(render, root, 0, num, nol, nmv)), "vector tree, numeric edges");
        std::function<char(char, ll)> cacc = [](char a, ll w) { return char('a' + ((a - 'a') + w + 26) % 26); }; // char leaves: last step only needs the fold
        auto cl = [&](auto self, int v, char a) -> std::vector<std::string> { std::string head = nmv(v) + " "; if (g[v].empty()) return { head + "(" + a + ")" }; std::vector<std::string> r; int k = g[v].size(); for (int i = 0; i < k; ++i) { auto [w, u] = g[v][i]; std::string e = num(w); auto sub = self(self, u, cacc(a, w)); if (i) r.push_back(std::string(head.size(), ' ') + "|"); for (size_t j = 0; j < sub.size(); ++j) r.push_back((i == 0 && j == 0 ? head : std::string(head.size(), ' ')) + (j == 0 ? e : (i + 1 < k ? "|" : " ") + std::string(e.size() - 1, ' ')) + sub[j]); } return r; };
        MC_EQ((D::tree_to_string<int, ll, char>(root, 'c', cacc, g)), flat(cl(cl, root, 'c')), "char leaves"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4); std::string s; for (int i = 0; i < n; ++i) s += "ab"[c.choose(2)]; suisen::SuffixAutomaton a(s); bool l = c.flag(); std::string d = D::to_dot(a, l), e = D::to_dot(a, l, true); MC_CHECK(e.size() > d.size() && e.substr(e.size() - d.size()) == d && e.substr(0, 7) == "http://", "chart api form is a URL prefix followed by the same digraph"); MC_EQ(D::to_dot(a), D::to_dot(a, true, false), "defaults"); mc::step(); });
}
MC_GROUP(stream_objects) {
    mc::bound("every token sequence of length <=3 over 5 integers: InputStream::read() conversions, read(a,b,...), operator>> chains, get_stream() of owned and referenced streams, OutputStream::get_stream; REPINF without a step; assert_exact on every character pair");
    static const ll T[] = { 0, -7, 42, 1000000007, -9000000000LL };
    mc::explore([&](mc::Chooser& c) { int n = c.range(1, 3); std::vector<ll> v(n); std::string s; for (auto& x : v) x = T[c.choose(5)], s += std::to_string(x) + (c.flag() ? " " : "\n"); 
        { suisen::io::InputStream<std::istringstream> is{ std::istringstream{ s } }; for (ll x : v) { ll y = is.read(); MC_EQ(y, x, "read()"); } std::string rest; is.get_stream() >> rest; MC_CHECK(rest.empty() && !is.get_stream(), "exhausted"); }
        { std::istringstream ss{ s }; suisen::io::InputStream<std::istringstream&> is{ ss }; ll a = 1, b = 1, d = 1; if (n == 1) is.read(a); else if (n == 2) is.read(a, b); else is.read(a, b, d); MC_EQ(a, v[0], "read(a..)"); if (n > 1) MC_EQ(b, v[1], "read(..b..)"); if (n > 2) MC_EQ(d, v[2], "read(..d)"); MC_CHECK(&is.get_stream() == &ss, "referenced stream"); }
        { std::ostringstream os; suisen::io::OutputStream<std::ostringstream&> o{ os }; for (ll x : v) o << x << ' '; MC_CHECK(&o.get_stream() == &os, "referenced out stream"); std::string w; for (ll x : v) w += std::to_string(x) + " "; MC_EQ(os.str(), w, "printed"); }
        mc::step(); });
    mc::explore([&](mc::Chooser& c) { int l = c.range(-3, 3), k = 0; REPINF(i, l) { MC_EQ(i, l + k, "REPINF"); if (++k == 4) break; } MC_EQ(k, 4, "REPINF endless"); mc::step(); });
    std::streambuf* old = std::cerr.rdbuf(nullptr);
    mc::explore([&](mc::Chooser& c) { char a = "a0+ "[c.choose(4)], b = "a0+ "[c.choose(4)]; const std::string s = std::string(1, a) + "tail"; auto it = s.begin(); bool th = false; try { suisen::parsing::assert_exact(it, b); } catch (suisen::parsing::ParseError&) { th = true; } MC_EQ(th, a != b, "assert_exact"); MC_CHECK(it == s.begin(), "does not advance"); th = false; try { suisen::parsing::assert_range(it, '0', '9'); } catch (suisen::parsing::ParseError&) { th = true; } MC_EQ(th, a != '0', "assert_range"); mc::step(); });
    std::cerr.rdbuf(old);
}
MC_GROUP(ordered_containers) {
    mc::bound("min_geq/min_gt/max_leq/max_lt on every set, multiset, map and sorted vector drawn from {0,2,4} with multiplicities <=2, every key in -1..5; concat/concatenated/mapped_vec/copied_vec/join on every such sequence");
    mc::explore([&](mc::Chooser& c) { std::vector<int> v; for (int x : { 0, 2, 4 }) { int m = c.choose(3); while (m--) v.push_back(x); } std::set<int> s(v.begin(), v.end()); std::multiset<int> ms(v.begin(), v.end()); std::map<int, char> mp; for (int x : v) mp[x] = char('a' + x); int k = c.range(-1, 5);
        std::optional<int> ge, gt, le, lt; for (int x : v) { if (x >= k && (!ge || x < *ge)) ge = x; if (x > k && (!gt || x < *gt)) gt = x; if (x <= k && (!le || x > *le)) le = x; if (x < k && (!lt || x > *lt)) lt = x; }
        MC_CHECK(suisen::min_geq(s, k) == ge && suisen::min_geq(ms, k) == ge && suisen::min_geq(v, k) == ge, "min_geq"); MC_CHECK(suisen::min_gt(s, k) == gt && suisen::min_gt(ms, k) == gt && suisen::min_gt(v, k) == gt, "min_gt"); MC_CHECK(suisen::max_leq(s, k) == le && suisen::max_leq(ms, k) == le && suisen::max_leq(v, k) == le, "max_leq"); MC_CHECK(suisen::max_lt(s, k) == lt && suisen::max_lt(ms, k) == lt && suisen::max_lt(v, k) == lt, "max_lt");
        auto key = [](const auto& o) { return o ? std::optional<int>(o->first) : std::nullopt; }; auto m1 = suisen::min_geq(mp, k), m2 = suisen::min_gt(mp, k), m3 = suisen::max_leq(mp, k), m4 = suisen::max_lt(mp, k); MC_CHECK(key(m1) == ge && key(m2) == gt && key(m3) == le && key(m4) == lt && (!m1 || m1->second == 'a' + m1->first) && (!m4 || m4->second == 'a' + m4->first), "map");
        MC_EQ(suisen::count_leq(v, k) + suisen::count_gt(v, k), (int)v.size(), "counts"); MC_EQ(suisen::count_lt(v, k), (int)std::count_if(v.begin(), v.end(), [&](int x) { return x < k; }), "count_lt"); MC_EQ(suisen::count_geq(v, k), (int)std::count_if(v.begin(), v.end(), [&](int x) { return x >= k; }), "count_geq"); MC_EQ(suisen::count_leq(v, k), (int)std::count_if(v.begin(), v.end(), [&](int x) { return x <= k; }), "count_leq");
        std::vector<int> w{ k, 9 }, cat = v; cat.insert(cat.end(), w.begin(), w.end()); MC_CHECK(suisen::concatenated(v, w) == cat, "concatenated"); auto u = v; suisen::concat(u, w); MC_CHECK(u == cat, "concat"); auto mv = suisen::mapped_vec([](int x) { return x * 0.5; }, s); MC_EQ(mv.size(), s.size(), "mapped_vec"); { size_t i = 0; for (int x : s) MC_CHECK(mv[i++] == x * 0.5, "mapped"); } auto cv = suisen::copied_vec<ll>(ms); MC_CHECK(cv == std::vector<ll>(ms.begin(), ms.end()), "copied_vec"); std::string js; for (size_t i = 0; i < v.size(); ++i) js += (i ? "--" : "") + std::to_string(v[i]); MC_EQ(suisen::join(v, "--", "!"), js + "!", "join"); mc::step(); });
}
MC_MAIN
