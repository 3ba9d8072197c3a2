#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "free.hpp"
using namespace suisen; using std::string; using VS = std::vector<string>;
using DQ = DequeAggregation<string, fr::cat, fr::eps>;
static string join(const VS& v) { string s; for (auto& x : v) s += x; return s; }
template <class Q> static void check(const Q& q, const VS& v) {
    int n = v.size(); MC_EQ(q.size(), n, "size"); for (int i = 0; i < n; ++i) MC_EQ(string(q[i]), v[i], "[" << i << "]"); if (n) { MC_EQ(string(q.front()), v[0], "front"); MC_EQ(string(q.back()), v[n - 1], "back"); }
    { VS w; for (auto it = q.begin(); it != q.end(); ++it) w.push_back(*it); MC_EQ(w, v, "forward iteration"); w.clear(); for (auto it = q.cend(); it != q.cbegin();) { --it; w.push_back(*it); } std::reverse(w.begin(), w.end()); MC_EQ(w, v, "backward iteration"); MC_EQ((int)(q.end() - q.begin()), n, "end - begin"); }
}
template <class Q> static void iters(const Q& q, const VS& v) {
    int n = v.size(); for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) { auto a = q.begin() + i, b = q.end() - (n - j); MC_EQ((int)(a - b), i - j, "distance " << i << " " << j); MC_EQ(a == b, i == j, "=="); MC_EQ(a != b, i != j, "!="); MC_EQ(a < b, i < j, "<"); MC_EQ(a <= b, i <= j, "<="); MC_EQ(a > b, i > j, ">"); MC_EQ(a >= b, i >= j, ">=");
        auto d = a; d += j - i; MC_CHECK(d == b, "+= any jump"); d -= j - i; MC_CHECK(d == a, "-= any jump"); if (j < n) { MC_EQ(string(a[j - i]), v[j], "it[k]"); MC_EQ(string(*b), v[j], "*it"); auto e = b++; MC_CHECK(e + 1 == b && 1 + e == b, "post-increment"); auto f = b--; MC_CHECK(f - 1 == b, "post-decrement"); } }
}
MC_GROUP(deque) {
    mc::bound("every history of push/pop at both ends to depth 9(11), from empty and from constructed contents of 0..5");
    mc::explore([&](mc::Chooser& c) {
        int n0 = c.range(0, 5), D = mc::depth(n0 ? 5 : 9, n0 ? 7 : 11); VS v; for (int i = 0; i < n0; ++i) v.push_back(string(1, 'A' + i)); DQ q = n0 == 1 ? DQ(v.begin(), v.end()) : n0 ? DQ(v) : DQ(); int t = 0;
        for (int d = 0; d < D; ++d) { int k = c.choose(v.empty() ? 2 : 4); string x(1, fr::letter(t)); if (k == 0) q.push_back(x), v.push_back(x), ++t; else if (k == 1) q.push_front(x), v.insert(v.begin(), x), ++t; else if (k == 2) q.pop_back(), v.pop_back(); else q.pop_front(), v.erase(v.begin()); MC_LOG("op " << k); MC_EQ(q.prod(), join(v), "prod"); }
        check(q, v); mc::outcome(v.size());
    });
}
MC_GROUP(deque_iter) {
    mc::bound("every split of up to 7 elements between the two ends, followed by any of 3 pops; all iterator pairs");
    mc::explore([&](mc::Chooser& c) { int a = c.range(0, 7), b = c.range(0, 7), p = c.range(0, a + b), e = c.choose(3); DQ q; VS v; for (int i = 0; i < a; ++i) { string x(1, fr::letter(i)); q.push_front(x), v.insert(v.begin(), x); } for (int i = 0; i < b; ++i) { string x(1, fr::letter(20 + i)); q.push_back(x), v.push_back(x); }
        for (int i = 0; i < p; ++i) { if (e == 0 || (e == 2 && i & 1)) q.pop_front(), v.erase(v.begin()); else q.pop_back(), v.pop_back(); MC_EQ(q.prod(), join(v), "prod"); } check(q, v); iters(q, v); q.shrink_to_fit(); check(q, v); q.clear(); check(q, {}); MC_EQ(q.prod(), string(), "empty prod"); q.push_front("z"); check(q, { "z" }); });
}
// queue: T and SumType differ; the sum is a commutative count vector and R a third type
struct Cnt { std::map<string, int> m; bool operator==(const Cnt& o) const { return m == o.m; } };
static Cnt ce() { return {}; } static Cnt cap(Cnt c, string x) { ++c.m[x]; return c; }
static string cmg(Cnt a, Cnt b) { for (auto& e : b.m) a.m[e.first] += e.second; string s; for (auto& e : a.m) for (int i = 0; i < e.second; ++i) s += e.first; return s; }
using QA = QueueAggregation<string, Cnt, ce, cap, string, cmg>;
static string sorted(VS v) { std::sort(v.begin(), v.end()); return join(v); }
MC_GROUP(queue) {
    mc::bound("every push/pop history to depth 12(14), 2 values per push; all iterator pairs at the end");
    mc::explore([&](mc::Chooser& c) { int n0 = c.range(0, 3), D = mc::depth(8, 10); VS v; for (int i = 0; i < n0; ++i) v.push_back(string(1, 'A' + i)); QA q = n0 == 1 ? QA(v.begin(), v.end()) : n0 ? QA(v) : QA(); int t = 0;
        for (int d = 0; d < D; ++d) { int k = c.choose(v.empty() ? 1 : 2); if (k == 0) { string x(1, fr::letter(t++ % 5)); q.push_back(x), v.push_back(x); } else q.pop_front(), v.erase(v.begin()); MC_EQ(q.prod(), sorted(v), "prod"); } check(q, v); if (v.size() < 6) iters(q, v); q.shrink_to_fit(); check(q, v); q.clear(); check(q, {}); q.push_back("z"); check(q, { "z" }); });
}
// same T and SumType, min over a semilattice
static int me() { return 1 << 30; } static int mmin(int a, int b) { return std::min(a, b); }
MC_GROUP(queue_min) {
    mc::bound("every history of push(3 values)/pop to depth 8(10)");
    mc::explore([&](mc::Chooser& c) { QueueAggregation<int, int, me, mmin, int, mmin> q; std::deque<int> v; int D = mc::depth(8, 10); for (int d = 0; d < D; ++d) { int k = c.choose(v.empty() ? 3 : 4); if (k < 3) q.push_back(k), v.push_back(k); else q.pop_front(), v.pop_front(); MC_EQ(q.prod(), v.empty() ? me() : *std::min_element(v.begin(), v.end()), "prod"); } });
}
MC_PERIODIC(deque, 40, 8, false) MC_PERIODIC(queue, 40, 8, false) MC_PERIODIC(queue_min, 40, 8, false)
MC_GROUP(long_deque) {
    mc::bound("DequeAggregation (string concatenation) of up to 150 elements: f pushed in front and b behind for every f, b in {0, 1, 37, 75}, then emptied from the front, from the back, or alternating in runs of 1, 5 and 40, contents and fold compared after every step");
    for (int f : { 0, 1, 37, 75 }) for (int b : { 0, 1, 37, 75 }) for (int run : { 0, -1, 1, 5, 40 }) { MC_CASE(f, b, run); DQ d; std::deque<string> r; auto nm = [](int i) { return string(1, char('a' + i % 26)) + char('A' + i / 26); }; int id = 0; for (int i = 0; i < std::max(f, b); ++i) { if (i < f) { auto s = nm(id++ % 300); d.push_front(s); r.push_front(s); } if (i < b) { auto s = nm(id++ % 300); d.push_back(s); r.push_back(s); } }
        auto chk = [&] { MC_EQ(d.size(), (int)r.size(), "size"); string w; for (auto& s : r) w += s; MC_CHECK(d.prod() == w, "fold of " << r.size()); string v; for (const auto& s : d) v += s; MC_CHECK(v == w, "iteration"); for (int i = 0; i < (int)r.size(); i += 1 + (int)r.size() / 9) MC_EQ(d[i], r[i], "operator[]"); if (r.size()) { MC_EQ(d.front(), r.front(), "front"); MC_EQ(d.back(), r.back(), "back"); } mc::step(); };
        chk(); int k = 0; while (r.size()) { bool fr_ = run == 0 ? true : run < 0 ? false : k / run % 2; ++k; if (fr_) d.pop_front(), r.pop_front(); else d.pop_back(), r.pop_back(); chk(); } }
}
MC_MAIN
