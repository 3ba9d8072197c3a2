#include "free.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/priority_queue.hpp"
using namespace suisen; using std::string; using VI = std::vector<int>;
// strict weak order with a state: compares by rank[], so that equal keys of different identity exist
struct ByRank { const VI* rk = nullptr; ByRank(const VI* r = nullptr) : rk(r) {} bool operator()(int a, int b) const { return (*rk)[a] < (*rk)[b]; } };
// an owning string payload: a use of a moved-from or out-of-range slot is visible
struct Str { string s; Str(string s = "") : s(std::move(s)) {} Str(char a, char b) : s{ a, b } {} bool operator<(const Str& o) const { return s < o.s; } bool operator>(const Str& o) const { return s > o.s; } bool operator==(const Str& o) const { return s == o.s; } };
static std::ostream& operator<<(std::ostream& o, const Str& s) { return o << s.s; }
static Str V(int i) { return Str(string("a fairly long payload, not inlined #") + fr::letter(i)); }
template <class H> static void top_heap(bool mn) {
    mc::bound("every push(3 keys)/pop/top history to depth 7(8); every initial array over 3 keys to length 5; ladders to 40 elements in every pushed order of blocks");
    mc::explore([&](mc::Chooser& c) {
        H h; std::multiset<string> m; int D = mc::depth(7, 8);
        for (int d = 0; d < D; ++d) {
            int k = c.choose(m.empty() ? 3 : 5);
            if (k < 3) { if (d & 1) h.emplace(V(k).s); else h.push(V(k)); m.insert(V(k).s); MC_LOG("push " << k); }
            else { auto it = mn ? m.begin() : std::prev(m.end()); if (k == 3) { MC_LOG("top"); MC_EQ(h.top().s, *it, "top"); if (d && !mc::keep_going()) return; } else { MC_LOG("pop"); string w = *it; m.erase(it); MC_EQ(h.pop().s, w, "pop"); } }
            MC_EQ(h.size(), (int)m.size(), "size"); MC_EQ(h.empty(), m.empty(), "empty");
        }
        std::vector<string> x; for (auto& e : h.data()) x.push_back(e.s); std::sort(x.begin(), x.end()); MC_EQ(x, std::vector<string>(m.begin(), m.end()), "data holds the multiset");
        while (!m.empty()) { auto it = mn ? m.begin() : std::prev(m.end()); string w = *it; m.erase(it); MC_EQ(h.top().s, w, "top"); MC_EQ(h.pop().s, w, "drain"); }
        MC_CHECK(h.empty(), "empty at the end"); h.push(V(1)); MC_EQ(h.top().s, V(1).s, "usable after draining"); h.clear(); MC_EQ(h.size(), 0, "clear");
    });
    mc::explore([&](mc::Chooser& c) {
        int n = c.range(0, 5); std::vector<Str> a; for (int i = 0; i < n; ++i) a.push_back(V(c.choose(3))); int how = c.choose(3);
        H h = how == 0 ? H(a) : how == 1 ? H(a.begin(), a.end()) : H(); if (how == 2) { h.reserve(7); for (auto& e : a) h.data().push_back(e); h.construct_heap(); } h.check_heap_property();
        std::sort(a.begin(), a.end()); if (!mn) std::reverse(a.begin(), a.end()); for (auto& e : a) MC_EQ(h.pop().s, e.s, "heap-sorted"); MC_CHECK(h.empty(), "drained");
    });
    for (int n = 1; n <= mc::T(40, 70); ++n) for (int p = 1; p <= 9; ++p) for (int mode = 0; mode < 3; ++mode) { MC_CASE(n, p, mode);
        H h; std::multiset<string> m; auto take = [&] { auto it = mn ? m.begin() : std::prev(m.end()); string w = *it; m.erase(it); MC_EQ(h.pop().s, w, "pop"); };
        for (int i = 0; i < n; ++i) { int v = mode == 0 ? (i * p) % 41 : mode == 1 ? (n - i) / p : (i ^ p) % 37; h.push(V(v)); m.insert(V(v).s); if (i % 5 == p % 5) take(); h.check_heap_property(); }
        while (!m.empty()) { take(); h.check_heap_property(); } MC_CHECK(h.empty(), "drained"); }
}
MC_GROUP(min_binary_heap) { top_heap<MinBinaryHeap<Str>>(true); }
MC_GROUP(max_binary_heap) { top_heap<MaxBinaryHeap<Str>>(false); }
MC_GROUP(priority_queue_aliases) { top_heap<MinPriorityQueue<Str>>(true); top_heap<MaxPriorityQueue<Str>>(false); }
MC_GROUP(comparator_state) {
    mc::bound("heaps with a stateful comparator: every rank assignment of 4 items to 3 ranks and every push order with repeats");
    mc::explore([&](mc::Chooser& c) {
        VI rk(4); for (int& r : rk) r = c.choose(3); ByRank cmp(&rk); MinBinaryHeap<int, ByRank> mn(cmp); MaxBinaryHeap<int, ByRank> mx(cmp); IntervalHeap<int, ByRank> ih(cmp); DoubleEndedPriorityQueue<int, ByRank> de(cmp);
        VI l; int n = 4; for (int i = 0; i < n; ++i) { int v = (c.choose(4)); l.push_back(v); mn.push(v); mx.push(v); ih.push(v); de.push(v); }
        MinBinaryHeap<int, ByRank> mn2(l, cmp); MaxBinaryHeap<int, ByRank> mx2(l.begin(), l.end(), cmp); DoubleEndedPriorityQueue<int, ByRank> de2(l, cmp);
        VI s = l; std::sort(s.begin(), s.end(), [&](int a, int b) { return rk[a] < rk[b]; }); std::multiset<int> all(l.begin(), l.end()), o1, o2, o3, o4, o5, o6;
        for (int i = 0; i < n; ++i) { int a = mn.pop(), b = mx.pop(), d = i & 1 ? ih.pop_max() : ih.pop_min(), e = i & 1 ? de.pop_min() : de.pop_max(), f = mn2.pop(), g = mx2.pop(), h = de2.pop(); o1.insert(a), o2.insert(b), o3.insert(d), o4.insert(e), o5.insert(f), o6.insert(h);
            MC_EQ(rk[a], rk[s[i]], "min heap"); MC_EQ(rk[f], rk[s[i]], "min heap built"); MC_EQ(rk[b], rk[s[n - 1 - i]], "max heap"); MC_EQ(rk[g], rk[s[n - 1 - i]], "max heap built"); MC_EQ(rk[h], rk[s[n - 1 - i]], "depq built");
            MC_EQ(rk[d], rk[i & 1 ? s[n - 1 - i / 2] : s[i / 2]], "interval heap"); MC_EQ(rk[e], rk[i & 1 ? s[i / 2] : s[n - 1 - i / 2]], "depq"); }
        MC_EQ(o1, all, "items"); MC_EQ(o2, all, "items"); MC_EQ(o3, all, "items"); MC_EQ(o4, all, "items"); MC_EQ(o5, all, "items"); MC_EQ(o6, all, "items");
    });
}
MC_GROUP(copies_keep_their_comparator) {
    mc::bound("every heap type copied (constructed, assigned, moved) and the original destroyed: stateful comparator, all contents of 4 over 3 ranks");
    mc::explore([&](mc::Chooser& c) {
        VI rk{ 2, 0, 1 }; int how = c.choose(3), pre = c.choose(2); VI l(4); for (int& v : l) v = c.choose(3);
        auto go = [&](auto* tag) { using H = std::remove_pointer_t<decltype(tag)>; auto o = std::make_unique<H>(ByRank(&rk)); for (int v : l) o->push(v); if (pre) o->min(); std::unique_ptr<H> h; if (how == 0) h = std::make_unique<H>(*o); else if (how == 1) h = std::make_unique<H>(), *h = *o; else h = std::make_unique<H>(std::move(*o)); o.reset();
            VI s = l; s.push_back(1); h->push(1); std::sort(s.begin(), s.end(), [&](int a, int b) { return rk[a] < rk[b]; }); for (int i = 0; i < 5; ++i) MC_EQ(i & 1 ? h->pop_max() : h->pop_min(), i & 1 ? s[4 - i / 2] : s[i / 2], "pop " << i); };
        go((IntervalHeap<int, ByRank>*)0); go((DoubleEndedPriorityQueue<int, ByRank>*)0);
    });
}
// ---------------------------------------------------------------- double-ended
template <class H> static void deheap(const char*) {
    mc::bound("every push(3 keys)/pop_min/pop_max/peek history to depth 7(9), copies taken mid-way; ladders to 60 elements with every pop mix");
    mc::explore([&](mc::Chooser& c) {
        auto h = std::make_unique<H>(); std::multiset<string> m; int D = mc::depth(7, 9);
        for (int d = 0; d < D; ++d) {
            int k = c.choose(m.empty() ? 3 : 5);
            if (k < 3) { if (d & 1) h->emplace(V(k).s); else h->push(V(k)); m.insert(V(k).s); MC_LOG("push " << k); }
            else if (k == 3) { string w = *m.begin(); m.erase(m.begin()); MC_LOG("pop_min"); MC_EQ(h->pop_min().s, w, "pop_min"); }
            else { string w = *std::prev(m.end()); m.erase(std::prev(m.end())); MC_LOG("pop_max"); MC_EQ(h->pop_max().s, w, "pop_max"); }
            MC_EQ(h->size(), (int)m.size(), "size"); MC_EQ(h->empty(), m.empty(), "empty");
            if (!m.empty() && d >= D - 2) MC_EQ(h->max().s, *std::prev(m.end()), "max");
            if (!m.empty() && d % 3 == 2) MC_EQ(h->min().s, *m.begin(), "min");
            if (d == 3) h = std::make_unique<H>(H(*h));     // a copy replaces the (destroyed) original
        }
        for (int i = 0; !m.empty(); ++i) { MC_EQ(h->max().s, *std::prev(m.end()), "max"); MC_EQ(h->min().s, *m.begin(), "min"); auto it = i & 1 ? m.begin() : std::prev(m.end()); string w = *it; m.erase(it); MC_EQ((i & 1 ? h->pop_min() : h->pop_max()).s, w, "drain"); }
        MC_CHECK(h->empty(), "drained"); h->push(V(2)); MC_EQ(h->min().s, V(2).s, "usable after draining"); MC_EQ(h->max().s, V(2).s, "usable after draining");
    });
    for (int n = 1; n <= mc::T(60, 90); ++n) for (int p = 1; p <= 7; ++p) for (int mode = 0; mode < 4; ++mode) { MC_CASE(n, p, mode);
        H h; std::multiset<string> m; auto take = [&](bool mn) { auto it = mn ? m.begin() : std::prev(m.end()); string w = *it; m.erase(it); MC_EQ((mn ? h.pop_min() : h.pop_max()).s, w, "pop"); };
        for (int i = 0; i < n; ++i) { int v = mode == 0 ? (i * p) % 41 : mode == 1 ? (n - i) / p : mode == 2 ? (i ^ p) % 37 : (i / p); h.push(V(v)); m.insert(V(v).s); if (i % 5 == p % 5) take(i & 1); }
        for (int i = 0; !m.empty(); ++i) take(mode == 0 ? i & 1 : mode == 1 ? true : mode == 2 ? false : (i / p) & 1); MC_CHECK(h.empty(), "drained"); }
}
MC_GROUP(interval_heap) { deheap<IntervalHeap<Str>>("");
    for (int n = 0; n <= 30; ++n) for (int p = 1; p < 9; ++p) { MC_CASE(n, p); IntervalHeap<Str> h; h.reserve(n); for (int i = 0; i < n; ++i) h.push(V(i * p % 23)), h.check_heap_property(); for (int i = 0; i < n; ++i) { if (i & p) h.pop_max(); else h.pop_min(); h.check_heap_property(); } MC_EQ((int)h.data().size(), 0, "data"); } }
MC_GROUP(depq) { deheap<DoubleEndedPriorityQueue<Str>>("");
    mc::explore([&](mc::Chooser& c) { int n = c.range(0, 5); std::vector<Str> a; for (int i = 0; i < n; ++i) a.push_back(V(c.choose(3))); bool it = c.flag(); auto h = it ? DoubleEndedPriorityQueue<Str>(a.begin(), a.end()) : DoubleEndedPriorityQueue<Str>(a); std::sort(a.begin(), a.end()); int pre = c.choose(3); if (pre && n) { if (pre == 1) { MC_EQ(h.pop_min(), a[0], "pop_min"); a.erase(a.begin()); } else { MC_EQ(h.pop(), a.back(), "pop"); a.pop_back(); } }
        MC_EQ(h.dump_sorted(), a, "dump_sorted"); if (!a.empty()) { MC_EQ(h.top(), a.back(), "top"); MC_EQ(h.min(), a[0], "min"); MC_EQ(h.dump_sorted(), a, "dump_sorted after min"); } for (auto& e : a) MC_EQ(h.pop_min(), e, "pop_min"); });
}
MC_GROUP(medium_sizes) {
    mc::bound("heaps of 130, 257 and 600 integers in five push orders with interleaved pops, built at once and pushed one by one, drained from either end");
    for (int n : { 130, 257, 600 }) for (int kind = 0; kind < 5; ++kind) for (int mix = 0; mix < 3; ++mix) { MC_CASE(n, kind, mix); MinBinaryHeap<int> a; MaxBinaryHeap<int> b; IntervalHeap<int> c; DoubleEndedPriorityQueue<int> d; std::multiset<int> m; VI all; auto take = [&](bool mn) { int w = mn ? *m.begin() : *std::prev(m.end()); m.erase(m.find(w)); MC_EQ(mn ? c.pop_min() : c.pop_max(), w, "interval heap"); MC_EQ(mn ? d.pop_min() : d.pop_max(), w, "double-ended queue"); }; for (int i = 0; i < n; ++i) { int v = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? (i * 37) % 101 : kind == 3 ? 7 : int((i * 7919LL) % 1009 * 4000000 - 2000000000); all.push_back(v); a.push(v); b.push(v); c.push(v); d.push(v); m.insert(v); if (mix && i % 3 == 2) take(mix == 1 ? i & 1 : i % 4 < 2); MC_EQ(c.min(), *m.begin(), "min"); MC_EQ(c.max(), *std::prev(m.end()), "max"); MC_EQ(d.min(), *m.begin(), "min"); MC_EQ(d.max(), *std::prev(m.end()), "max"); mc::step(); }
        MC_EQ(c.size(), (int)m.size(), "size"); for (int i = 0; !m.empty(); ++i) take(mix == 0 ? true : mix == 1 ? false : i % 5 < 2); MC_CHECK(c.empty() && d.empty(), "drained"); MinBinaryHeap<int> a2(all); MaxBinaryHeap<int> b2(all.begin(), all.end()); std::sort(all.begin(), all.end()); for (int i = 0; i < n; ++i) { MC_EQ(a.pop(), all[i], "min heap"); MC_EQ(a2.pop(), all[i], "min heap built"); MC_EQ(b.pop(), all[n - 1 - i], "max heap"); MC_EQ(b2.pop(), all[n - 1 - i], "max heap built"); } }
}
MC_PERIODIC(min_binary_heap, 40, 8, false) MC_PERIODIC(max_binary_heap, 40, 8, false) MC_PERIODIC(interval_heap, 40, 8, false) MC_PERIODIC(depq, 40, 8, false)
MC_MAIN
