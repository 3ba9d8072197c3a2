// mc: flags='-O1'
// Size ladder across the 10- and 16-bit borders for heaps, sparse tables, RMQ, aggregation queues, sliding windows, Cartesian trees.
#include "mc.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/algorithm/rmq_pm1.hpp"
using namespace suisen; static int mn(int a, int b) { return std::min(a, b); } static int inf() { return INT_MAX; } static unsigned long long ad(unsigned long long a, unsigned long long b) { return a + b; } static unsigned long long z() { return 0; }
MC_GROUP(ladder) {
    mc::bound("n in {1023,1025,4097,65535,65537,70001}: heaps pushed in three orders and drained from either end; sparse table and +-1 RMQ on a border ladder of ranges; Cartesian trees; queue and deque folds over a sliding window");
    for (int n : { 1023, 1025, 4097, 65535, 65537, 70001 }) for (int kind = 0; kind < 3; ++kind) { MC_CASE(n, kind); std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = kind == 0 ? i : kind == 1 ? n - i : int((i * 2654435761LL) % 1000003); MinBinaryHeap<int> h; MaxBinaryHeap<int> g(a); IntervalHeap<int> c; DoubleEndedPriorityQueue<int> d; for (int x : a) h.push(x), c.push(x), d.push(x); auto b = a; std::sort(b.begin(), b.end()); for (int i = 0; i < n; ++i) { MC_EQ(h.pop(), b[i], "min heap"); MC_EQ(g.pop(), b[n - 1 - i], "max heap"); int w = i & 1 ? b[n - 1 - i / 2] : b[i / 2]; MC_EQ(i & 1 ? c.pop_max() : c.pop_min(), w, "interval heap"); MC_EQ(i & 1 ? d.pop_max() : d.pop_min(), w, "double-ended"); }
        SparseTable<int, mn, inf> st(a); std::vector<int> q; for (int k = 1; k <= n; k *= 2) for (int e = -1; e <= 1; ++e) for (int x : { k + e, n - k - e }) if (0 <= x && x <= n) q.push_back(x); q.push_back(n); std::vector<int> w(n); w[0] = 5; for (int i = 1; i < n; ++i) w[i] = w[i - 1] + ((kind == 0 ? i % 2 : kind == 1 ? (i / 100) % 2 : (i * 2654435761LL) >> 7 & 1) ? 1 : -1); RMQpm1<true> rm(w); std::vector<std::vector<int>> pm; pm.push_back(w); for (int k = 1; 2 * k <= n; k *= 2) { auto& y = pm.back(); std::vector<int> x(n - 2 * k + 1); for (size_t i = 0; i < x.size(); ++i) x[i] = std::min(y[i], y[i + k]); pm.push_back(x); }
        for (int l : q) for (int r : q) if (l < r) { int k = 31 - __builtin_clz(r - l); MC_EQ(rm(l, r), std::min(pm[k][l], pm[k][r - (1 << k)]), "pm1 RMQ"); if (kind < 2) MC_EQ(st(l, r), kind == 0 ? a[l] : a[r - 1], "sparse table"); else if (r - l < 400) MC_EQ(st(l, r), *std::min_element(a.begin() + l, a.begin() + r), "sparse table"); mc::step(); }
        QueueAggregation<unsigned long long, unsigned long long, z, ad, unsigned long long, ad> qa; DequeAggregation<unsigned long long, ad, z> da; unsigned long long s = 0; int head = 0; for (int i = 0; i < n; ++i) { qa.push_back(a[i]); da.push_back(a[i]); s += a[i]; if (i % 3 == 2) { s -= a[head]; ++head; qa.pop_front(); da.pop_front(); } if (i % 13 == 0) { MC_EQ(qa.prod(), s, "queue fold"); MC_EQ(da.prod(), s, "deque fold"); } } }
}
MC_MAIN
