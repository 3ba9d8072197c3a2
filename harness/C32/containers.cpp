// mc: flags='-O1'
// Small containers and helpers: every operation history of bounded length against a plain model.
#include "mc.hpp"
#include <algorithm>
#include <cassert>
#include <numeric>
#include <set>
#include <unordered_set>
#include "library/util/run_length_encoder.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/vector_ops.hpp"
#include "library/util/tuple_ops.hpp"
#include "library/util/pair_ops.hpp"
#include "library/util/rot90.hpp"
#include "library/util/transpose.hpp"
#include "library/util/grid_utils.hpp"
#include "library/util/object_pool.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/zobrist_hash.hpp"
#include "library/util/hashes.hpp"
#include "library/util/update_proxy_object.hpp"
#include "library/util/variant_utils.hpp"
using namespace suisen; using ll = long long;
MC_GROUP(run_lengths) { mc::bound("every history of <=5 (6) pushes (runs of 1..3), pops of 0..4, clear and swap, from every string of length <=3: runs, total length, number removed"); auto chk = [&](const RunLengthEncoder<std::string>& r, const std::string& s) { std::vector<std::pair<char, ll>> w; for (char ch : s) { if (w.empty() || w.back().first != ch) w.push_back({ch, 0}); ++w.back().second; } std::vector<std::pair<char, ll>> g(r.begin(), r.end()); MC_CHECK(g == w, "runs"); MC_EQ(r.length(), (ll)s.size(), "length"); std::vector<std::pair<char, ll>> b(r.crbegin(), r.crend()); std::reverse(b.begin(), b.end()); MC_CHECK(b == w, "reverse runs"); if (w.size()) MC_CHECK(r.front() == w.front() && r.back() == w.back(), "ends"); };
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3); std::string s, t = "xxy"; for (int i = 0; i < n; ++i) s += "ab"[c.choose(2)]; RunLengthEncoder<std::string> r(s), o(t), z; chk(z, ""); chk(r, s); int len = mc::T(4, 5); for (int i = 0; i < len; ++i) { int k = c.choose(11); if (k < 4) { char ch = "ab"[k & 1]; int m = k < 2 ? 1 : 3; if (m == 1) r.push_back(ch); else r.push_back(ch, m); s += std::string(m, ch); } else if (k < 9) { ll m = k - 4, w = std::min<ll>(m, s.size()); MC_EQ(m == 1 ? r.pop_back() : r.pop_back(m), w, "removed"); s.resize(s.size() - w); } else if (k == 9) { r.clear(); s.clear(); } else { r.swap(o); std::swap(s, t); } chk(r, s); chk(o, t); mc::step(); } }); }
MC_GROUP(default_vectors) { mc::bound("every history of <=4 writes/reads/default changes on indices 0..3 of a default_vector, from lengths 0..2"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 2), d = 0; default_vector<int> v(n); std::vector<int> m(n, 0); for (int i = 0; i < mc::T(4, 5); ++i) { int k = c.choose(10); if (k < 4) { v[k] = i + 7; if (k >= (int)m.size()) m.resize(k + 1, d); m[k] = i + 7; } else if (k < 8) { int j = k - 4; MC_EQ(v.at(j), j < (int)m.size() ? m[j] : d, "at extends"); if (j >= (int)m.size()) m.resize(j + 1, d); } else if (k == 8) { d = 100 + i; v.set_default_value(d); } else { v.resize(2); m.resize(2, d); } const auto& cv = v; MC_EQ(v.size(), (int)m.size(), "size"); for (int j = 0; j < 6; ++j) { int w = j < (int)m.size() ? m[j] : d; MC_EQ(cv[j], w, "const []"); MC_EQ(cv.at(j), w, "const at"); MC_EQ(cv.get_or_default(j), w, "get_or_default"); MC_EQ(cv.get_or_default(j, -5), j < (int)m.size() ? m[j] : -5, "explicit default"); } mc::step(); } }); }
MC_GROUP(compression) { mc::bound("every multiset of <=5 (6) values from 5, added through every builder path; every query value in and between the keys"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, mc::T(5, 6)); std::vector<int> a(n); for (int& x : a) x = c.choose(5) * 2 - 4; std::set<int> s(a.begin(), a.end()); std::vector<int> k(s.begin(), s.end()); using B = CoordinateCompressorBuilder<int>; B b1(a), b2, b3; b2.reserve(n); for (int i = 0; i < n; ++i) if (i % 3 == 0) b2.push(a[i]); else if (i % 3 == 1) b2.push(int(a[i])); else b2.emplace(a[i]); b3.push(a.begin(), a.begin() + n / 2); b3.push(std::vector<int>(a.begin() + n / 2, a.end())); std::vector<B::Compressor> cs{b1.build(), b2.build(), b3.build(), B::build(a), B::build(std::vector<int>(a)), B::build(n, [&](int i) { return a[i]; }), B::Compressor(k), b1.build()}; for (auto& p : cs) { MC_EQ(p.size(), (int)k.size(), "size"); for (int i = 0; i < p.size(); ++i) MC_EQ(p.decomp(i), k[i], "decomp"); for (int v = -6; v <= 6; ++v) { bool h = s.count(v); int lb = std::lower_bound(k.begin(), k.end(), v) - k.begin(), ub = std::upper_bound(k.begin(), k.end(), v) - k.begin(), K = k.size(); MC_EQ(p.has_key(v), h, "has_key"); MC_EQ(p.comp(v), h ? lb : -1, "comp"); MC_EQ(p.comp(v, 77), h ? lb : 77, "comp default"); MC_EQ(p[v], h ? lb : -1, "[]"); MC_EQ(p.min_geq_index(v), lb, "min_geq_index"); MC_EQ(p.min_gt_index(v), ub, "min_gt_index"); MC_EQ(p.max_lt_index(v), lb - 1, "max_lt_index"); MC_EQ(p.max_leq_index(v), ub - 1, "max_leq_index"); MC_EQ(p.min_geq(v, 99), lb < K ? k[lb] : 99, "min_geq"); MC_EQ(p.min_gt(v, 99), ub < K ? k[ub] : 99, "min_gt"); MC_EQ(p.max_lt(v, 99), lb ? k[lb - 1] : 99, "max_lt"); MC_EQ(p.max_leq(v, 99), ub ? k[ub - 1] : 99, "max_leq"); } } mc::step(); }); }
MC_GROUP(operators) { mc::bound("vector concatenation/append/repeat for all lengths <=4 incl. self-append and repeat 0..4; tuple and pair arithmetic on a value grid"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), m = c.range(0, 4), k = c.range(0, 4); std::vector<int> a(n), b(m); std::iota(a.begin(), a.end(), 1); std::iota(b.begin(), b.end(), 50); auto w = a; w.insert(w.end(), b.begin(), b.end()); MC_CHECK(a + b == w, "a+b"); auto x = a; x += b; MC_CHECK(x == w, "a+=b"); int v = 9; w = a; w.push_back(9); MC_CHECK(a + v == w && a + 9 == w, "append"); x = a; x += v; MC_CHECK(x == w, "append="); x += 10; w.push_back(10); MC_CHECK(x == w, "append rvalue"); w.clear(); for (int i = 0; i < k; ++i) w.insert(w.end(), a.begin(), a.end()); MC_CHECK(a * k == w, "repeat"); x = a; x *= k; MC_CHECK(x == w, "repeat="); x = a; x += x; w = a; w.insert(w.end(), a.begin(), a.end()); MC_CHECK(x == w, "self append"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { using P = std::pair<int, ll>; using T = std::tuple<int, ll, double>; int a = c.range(-2, 2), b = c.range(-2, 2), d = c.range(-2, 2), e = c.range(-2, 2), k = c.range(1, 3); P p(a, b), q(d, e), r; MC_CHECK(p + q == P(a + d, b + e) && p - q == P(a - d, b - e) && p * k == P(a * k, b * k) && k * p == P(a * k, b * k), "pair"); r = p; r += q; MC_CHECK(r == P(a + d, b + e), "+="); r -= q; MC_CHECK(r == p, "-="); r *= k; MC_CHECK(r == p * k, "*="); T t(a, b, d), u(d, e, a), v; MC_CHECK(t + u == T(a + d, b + e, d + a) && t - u == T(a - d, b - e, d - a) && t * k == T(a * k, b * k, d * k) && k * t == T(a * k, b * k, d * k) && t / k == T(a / k, b / k, (double)d / k), "tuple"); v = t; v += u; v -= u; MC_CHECK(v == t, "tuple += -="); v *= k; v /= k; MC_CHECK(v == T(a, b, (double)d * k / k), "tuple *= /="); mc::step(); }); }
MC_GROUP(grids) { mc::bound("every shape <=4x4: rot90 and transpose of vectors and strings; neighbours of every cell in -1..4 with every bounding box in 0..3"); mc::explore([&](mc::Chooser& c) { int n = c.range(0, 4), m = n ? c.range(0, 4) : 0; std::vector<std::vector<int>> g(n, std::vector<int>(m)); std::vector<std::string> s(n, std::string(m, ' ')); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) g[i][j] = i * 4 + j, s[i][j] = 'a' + i * 4 + j; auto t = transpose(g), r = rot90(g); auto ts = transpose(s), rs = rot90(s); if (n) { MC_EQ((int)t.size(), m, "transpose rows"); MC_EQ((int)r.size(), m, "rot rows"); MC_EQ((int)ts.size(), m, "transpose rows"); MC_EQ((int)rs.size(), m, "rot rows"); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { MC_CHECK((int)t[j].size() == n && t[j][i] == g[i][j] && ts[j][i] == s[i][j], "transpose"); MC_CHECK((int)r[j].size() == n && r[m - 1 - j][i] == g[i][j] && rs[m - 1 - j][i] == s[i][j], "rot90"); } if (m) MC_CHECK(rot90(rot90(rot90(r))) == g && transpose(t) == g && rot90(rot90(rot90(rs))) == s && transpose(ts) == s, "period"); } else MC_CHECK(t.empty() && r.empty(), "empty"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { int x = c.range(-1, 4), y = c.range(-1, 4), xl = c.range(0, 3), xr = c.range(xl, 3), yl = c.range(0, 3), yr = c.range(yl, 3); using V = std::vector<std::pair<int, int>>; auto col = [](auto cells) { V v; for (auto p : cells) v.push_back(p); V w = cells; MC_CHECK(v == w, "conversion"); std::sort(v.begin(), v.end()); return v; }; V a4, a8, b4, b8, z4, z8; for (int dx = -1; dx <= 1; ++dx) for (int dy = -1; dy <= 1; ++dy) { int k = std::abs(dx) + std::abs(dy); if (!k) continue; std::pair<int, int> p(x + dx, y + dy); bool in = xl <= p.first && p.first < xr && yl <= p.second && p.second < yr, iz = 0 <= p.first && p.first < xr && 0 <= p.second && p.second < yr; a8.push_back(p); if (in) b8.push_back(p); if (iz) z8.push_back(p); if (k == 1) { a4.push_back(p); if (in) b4.push_back(p); if (iz) z4.push_back(p); } } MC_CHECK(col(adjacent_four_cells(x, y)) == a4 && col(adjacent_eight_cells(x, y)) == a8, "neighbours"); MC_CHECK(col(adjacent_four_cells(x, y, xl, xr, yl, yr)) == b4 && col(adjacent_eight_cells(x, y, xl, xr, yl, yr)) == b8, "bounded"); MC_CHECK(col(adjacent_four_cells(x, y, xr, yr)) == z4 && col(adjacent_eight_cells(x, y, xr, yr)) == z8, "bounded from 0"); MC_EQ(in_range(x, xl, xr), xl <= x && x < xr, "in_range"); MC_EQ(out_range(x, xl, xr), !(xl <= x && x < xr), "out_range"); MC_EQ(in_range(x, xr), 0 <= x && x < xr, "in_range 0"); MC_EQ(out_range(x, xr), !(0 <= x && x < xr), "out_range 0"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { for (int d = 0; d < 4; ++d) MC_CHECK(dxy4[d] == std::make_pair(dx4[d], dy4[d]), "dxy4"); for (int d = 0; d < 8; ++d) MC_CHECK(dxy8[d] == std::make_pair(dx8[d], dy8[d]), "dxy8"); c.choose(1); mc::step(); }); }
struct Ob { int a, b; Ob(int a = 0, int b = 0) : a(a), b(b) {} };
MC_GROUP(pools) { mc::bound("every alloc/free/clear history of length <=7 (8) on a fixed pool of 4 and an auto-extending pool: live objects are distinct and keep their values; 32-bit pointers likewise"); mc::explore([&](mc::Chooser& c) { int k = c.choose(3), len = mc::T(7, 8); int init = k == 1 ? c.range(0, 2) : 4; ObjectPool<int> fixed(4); ObjectPool<int, true> grow(init); using P = ptr32<Ob>; P::dealloc_all(c.flag()); std::map<int, int*> live; std::map<int, P> lp; int next = 1; for (int i = 0; i < len; ++i) { int n = k == 2 ? lp.size() : live.size(), op = c.choose((n < 4 || k ? 1 : 0) + n + 1); if (op < n) { if (k == 2) { auto it = std::next(lp.begin(), op); P::dealloc(it->second); lp.erase(it); } else { auto it = std::next(live.begin(), op); if (k == 0) fixed.free(it->second); else grow.free(it->second); live.erase(it); } } else if (op == n) { if (k == 0) { fixed.clear(); live.clear(); } else if (k == 1) { grow.clear(); live.clear(); } else { P::dealloc_all(i & 1); lp.clear(); } } else { int v = next++; if (k == 2) { if (i == 0) P::reserve(2); P p = P::alloc(v, -v); for (auto& [w, q] : lp) MC_CHECK(p != q && (int)p != (int)q, "fresh pointer"); MC_CHECK(p.is_not_null() && !p.is_null() && bool(p), "not null"); lp[v] = p; } else { int* p = k == 0 ? fixed.alloc() : grow.alloc(); for (auto& [w, q] : live) MC_CHECK(p != q, "fresh object"); *p = v; live[v] = p; } } for (auto& [v, p] : live) MC_EQ(*p, v, "object keeps its value"); for (auto& [v, p] : lp) MC_CHECK(p->a == v && (*p).b == -v, "pointee keeps its value"); if (k == 0) MC_EQ(fixed.size(), (int)live.size(), "size"); if (k == 1) { MC_EQ(grow.size(), (int)live.size(), "size"); MC_CHECK(grow.capacity() >= grow.size(), "capacity"); } mc::step(); } P a, b(nullptr), e(3), f(4); MC_CHECK(a == b && a.is_null() && !a && e < f && e <= f && f > e && f >= e && e != f && !(e == f), "comparisons"); }); }
MC_GROUP(hashing) { mc::bound("Zobrist hashes (vector, array, map; lazy growth in every key order): a set's hash does not depend on insertion order or on later growth, flip twice is the identity, distinct subsets of 6 keys hash apart for each of 8 seeds; std::hash of pairs/tuples/arrays usable and injective on a small grid"); mc::explore([&](mc::Chooser& c) { mc::rng_seed() = 1000 + c.choose(8); int pre = c.choose(3); VecZobristHash<> v = pre == 0 ? VecZobristHash<>() : VecZobristHash<>(pre * 3); ArrZobristHash<9> a; MapZobristHash<std::string> m = pre == 0 ? MapZobristHash<std::string>() : MapZobristHash<std::string>(std::vector<std::string>{"k0", "k3"}); std::vector<int> ord{0, 1, 2, 3, 4, 5}; int rot = c.choose(6); std::rotate(ord.begin(), ord.begin() + rot, ord.end()); std::vector<std::uint64_t> k1(6), k3(6); for (int i : ord) k1[i] = v(i), k3[i] = m("k" + std::to_string(i)); v(40); std::set<std::uint64_t> s1, s2, s3; for (int t = 0; t < 64; ++t) { auto h = v.empty_set(), g = a.empty_set(), f = m.empty_set(), rev = v.empty_set(); for (int i = 0; i < 6; ++i) if (t >> i & 1) h = v.flip(h, i), g = a.flip(g, i), f = m.flip(f, "k" + std::to_string(i)); for (int i = 5; i >= 0; --i) if (t >> i & 1) rev = v.xor_set(rev, v.sigleton_set(i)); MC_EQ(rev, h, "order independent"); std::uint64_t w = 0; for (int i = 0; i < 6; ++i) if (t >> i & 1) w ^= k1[i]; MC_EQ(h, w, "stable under growth"); w = 0; for (int i = 0; i < 6; ++i) if (t >> i & 1) w ^= k3[i]; MC_EQ(f, w, "map keys stable"); MC_EQ(v.flip(v.flip(h, 3), 3), h, "flip twice"); s1.insert(h); s2.insert(g); s3.insert(f); } MC_CHECK(s1.size() == 64 && s2.size() == 64 && s3.size() == 64, "subsets hash apart"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { std::unordered_set<std::pair<int, ll>> p; std::unordered_set<std::tuple<int, char, std::string>> t; std::unordered_set<std::array<int, 3>> a; int k = c.range(2, 5); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { p.insert({i, j}); t.insert({i, char(j), std::to_string(i * j)}); a.insert({i, j, i}); } MC_CHECK((int)p.size() == k * k && (int)t.size() == k * k && (int)a.size() == k * k, "sizes"); std::set<size_t> h; for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { MC_CHECK(p.count({i, j}) && t.count({i, char(j), std::to_string(i * j)}) && a.count({i, j, i}) && !p.count({i, j + k}) && !a.count({i, j, i + k}), "membership"); h.insert(std::hash<std::pair<int, ll>>()({i, j})); } MC_EQ((int)h.size(), k * k, "pair hashes differ on a small grid"); mc::step(); }); }
MC_GROUP(proxies) { mc::bound("every update operator of UpdateProxyObject on a value grid: new value stored, update called exactly once afterwards; Match on every alternative"); mc::explore([&](mc::Chooser& c) { int v0 = c.range(-3, 5), k = c.range(1, 3), op = c.choose(11), v = v0, seen = -99, n = 0; auto up = [&] { seen = v; ++n; }; auto mk = [&] { return UpdateProxyObject<int, decltype(up)>(v, up); }; int w = v0; MC_EQ((int)mk(), v0, "read"); MC_EQ(n, 0, "read does not update"); switch (op) { case 0: ++mk(); ++w; break; case 1: --mk(); --w; break; case 2: mk() += k; w += k; break; case 3: mk() -= k; w -= k; break; case 4: mk() *= k; w *= k; break; case 5: mk() /= k; w /= k; break; case 6: mk() %= k; w %= k; break; case 7: mk() = k; w = k; break; case 8: if (v0 < 0) return; mk() <<= k; w <<= k; break; case 9: mk() >>= k; w >>= k; break; default: mk().apply([&](int x) { return x * 10 + k; }); w = w * 10 + k; } MC_EQ(v, w, "value"); MC_EQ(n, 1, "one update"); MC_EQ(seen, w, "update sees the new value"); mc::step(); });
    mc::explore([&](mc::Chooser& c) { using V = std::variant<int, std::string, double>; int k = c.choose(3), miss = c.choose(4); V v = k == 0 ? V(7) : k == 1 ? V(std::string("s")) : V(2.5); std::string log; auto run = [&](auto&& m) { if (miss == 0) std::move(m).template with<std::string>([&](const std::string& s) { log += "S" + s; }).template with<double>([&](double) { log += "D"; }).otherwise([&] { log += "O"; }); else if (miss == 1) std::move(m).template with<int>([&](int i) { log += "I" + std::to_string(i); }).template with<double>([&](double) { log += "D"; }).otherwise([&] { log += "O"; }); else if (miss == 2) std::move(m).template with<int>([&](int i) { log += "I" + std::to_string(i); }).template with<std::string>([&](const std::string& s) { log += "S" + s; }).otherwise([&] { log += "O"; }); else std::move(m).template with<int>([&](int i) { log += "I" + std::to_string(i); }).template with<std::string>([&](const std::string& s) { log += "S" + s; }).template with<double>([&](double) { log += "D"; }); }; std::string w = k == miss ? "O" : k == 0 ? "I7" : k == 1 ? "Ss" : "D"; run(Match(v)); MC_EQ(log, w, "match"); log.clear(); run(Match(V(v))); MC_EQ(log, w, "match rvalue"); mc::step(); }); }
MC_GROUP(encoder_views) { mc::bound("RunLengthEncoder: every string of length <=5 over 2 letters then every pop/push: all iterator pairs, front/back, swap, clear; default_vector::at; bounded neighbour ranges");
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5); std::string s; for (int i = 0; i < n; ++i) s += "ab"[c.choose(2)]; suisen::RunLengthEncoder<std::string> e(s); auto chk = [&](suisen::RunLengthEncoder<std::string>& e, const std::string& s) { const auto& ce = e; std::vector<std::pair<char, ll>> w; for (char ch : s) if (w.size() && w.back().first == ch) ++w.back().second; else w.emplace_back(ch, 1); using W = std::vector<std::pair<char, ll>>; W r(w.rbegin(), w.rend()); MC_EQ(ce.length(), (ll)s.size(), "length"); MC_CHECK(W(ce.begin(), ce.end()) == w && W(ce.cbegin(), ce.cend()) == w && W(ce.rbegin(), ce.rend()) == r && W(ce.crbegin(), ce.crend()) == r, "iteration of " + s); if (w.size()) MC_CHECK(ce.front() == w.front() && ce.back() == w.back(), "front/back"); };
        chk(e, s); int op = c.choose(4); if (op == 0) { char ch = "ab"[c.choose(2)]; int k = c.range(1, 3); e.push_back(ch, k); s += std::string(k, ch); chk(e, s); } else if (op == 1) { int k = c.range(0, 6); ll r = e.pop_back(k); MC_EQ(r, (ll)std::min<int>(k, s.size()), "popped"); s.resize(s.size() - r); chk(e, s); e.push_back('b'); s += 'b'; chk(e, s); } else if (op == 2) { suisen::RunLengthEncoder<std::string> o(std::string("bba")); e.swap(o); chk(e, "bba"); chk(o, s); e.swap(suisen::RunLengthEncoder<std::string>(std::string("a"))); chk(e, "a"); } else { e.clear(); chk(e, ""); e.push_back('a', 2); chk(e, "aa"); suisen::RunLengthEncoder<std::string> d; chk(d, ""); } mc::step(); });
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 3), i = c.range(0, 5); suisen::default_vector<int> v(n, 4); v.set_default_value(9); const auto& cv = v; MC_EQ(cv.at(i), i < n ? 4 : 9, "const at"); MC_EQ((int)cv.std::vector<int>::size(), n, "const at does not grow"); v.at(i) += 1; MC_EQ(v.size(), std::max(n, i + 1), "at grows"); for (int j = 0; j < v.size(); ++j) MC_EQ(cv[j], (j < n ? 4 : 9) + (j == i), "at"); mc::step(); }); }
MC_GROUP(wide_runs) { mc::bound("RunLengthEncoder: every history of <=4 pushes of runs of {1, 2^31, 2^32+1, 10^17} over 2 letters and pops of {0, 1, 2^31, 2^32+7, 3*10^17}: lengths, runs and removed counts against a list of runs");
    mc::explore([&](mc::Chooser& c) { suisen::RunLengthEncoder<std::string> e; std::vector<std::pair<char, long long>> w; const long long A[] = { 1, 1LL << 31, (1LL << 32) + 1, 100000000000000000LL }, P[] = { 0, 1, 1LL << 31, (1LL << 32) + 7, 300000000000000000LL }; int d = c.range(1, 4); long long len = 0; for (int i = 0; i < d; ++i) { if (c.choose(2) == 0) { char ch = "ab"[c.choose(2)]; long long k = A[c.choose(4)]; e.push_back(ch, k); len += k; if (w.size() && w.back().first == ch) w.back().second += k; else w.push_back({ ch, k }); } else { long long k = P[c.choose(5)], rem = 0; while (w.size() && k) { long long t = std::min(k, w.back().second); w.back().second -= t; k -= t; rem += t; if (!w.back().second) w.pop_back(); } len -= rem; MC_EQ(e.pop_back(P[0] + (rem + k)), rem, "removed"); } MC_EQ((long long)e.length(), len, "length"); std::vector<std::pair<char, long long>> g(e.begin(), e.end()); MC_CHECK(g == w, "runs"); mc::step(); } });
}
MC_GROUP(middle_sizes_containers) {
    mc::bound("rot90 and transpose of 3x45, 45x3, 12x25 vectors and strings; v *= r for r in {1, 9, 21, 41, 70}; coordinate compressors generated from 60 values with repetitions");
    for (int t = 0; t < 3; ++t) { MC_CASE(t); int n = t == 0 ? 3 : t == 1 ? 45 : 12, m = t == 0 ? 45 : t == 1 ? 3 : 25; std::vector<std::vector<int>> a(n, std::vector<int>(m)); std::vector<std::string> b(n, std::string(m, ' ')); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = i * m + j, b[i][j] = char('!' + (i * 7 + j * 3) % 90); auto x = suisen::transpose(a); auto y = suisen::transpose(b); auto r = suisen::rot90(a); auto s = suisen::rot90(b); MC_CHECK((int)x.size() == m && (int)y.size() == m && (int)r.size() == m && (int)s.size() == m, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { MC_EQ(x[j][i], a[i][j], "transpose"); MC_EQ(y[j][i], b[i][j], "transpose"); MC_EQ(r[j][i], a[i][m - 1 - j], "rot90"); MC_EQ(s[j][i], b[i][m - 1 - j], "rot90"); } mc::step(); }
    for (int r : { 1, 9, 21, 41, 70 }) { MC_CASE(r); std::vector<int> v{ 4, 7, 1 }; using namespace suisen; v *= r; MC_EQ((int)v.size(), 3 * r, "size"); for (int i = 0; i < 3 * r; ++i) MC_EQ(v[i], (i % 3 == 0 ? 4 : i % 3 == 1 ? 7 : 1), "repeat"); mc::step(); }
    for (int k = 1; k <= 60; ++k) { MC_CASE(k); auto gen = [&](int i) { return (i * 17 % k) * 5 - 60; }; auto c = suisen::CoordinateCompressorBuilder<int>::build(60, gen); std::set<int> w; for (int i = 0; i < 60; ++i) w.insert(gen(i)); std::vector<int> ws(w.begin(), w.end()); MC_EQ(c.size(), (int)ws.size(), "size"); for (int i = 0; i < (int)ws.size(); ++i) { MC_EQ(c[ws[i]], i, "id"); MC_EQ(c.comp(ws[i]), i, "comp"); MC_EQ(c.decomp(i), ws[i], "decomp"); } mc::step(); }
}
MC_MAIN
