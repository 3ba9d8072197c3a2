// Sieves: primality tables, prime factors, Mobius function
#include "mc.hpp"
#include <set>
#include "library/number/sieve_of_eratosthenes.hpp"
#include "library/number/sieve_of_eratosthenes_constexpr.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/util.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/count_square_free.hpp"
using namespace suisen; using namespace std; typedef long long ll; typedef unsigned long long u64;
static const int LIM = 1 << 20;
static vector<int> spf = [] { vector<int> s(LIM + 1); for (int i = 2; i <= LIM; ++i) if (!s[i]) for (int j = i; j <= LIM; j += i) if (!s[j]) s[j] = i; return s; }();
static bool prime(int n) { return n >= 2 && spf[n] == n; }
static vector<pair<int, int>> fac(int n) { vector<pair<int, int>> r; while (n > 1) { int p = spf[n]; if (r.empty() || r.back().first != p) r.push_back({ p, 0 }); r.back().second++; n /= p; } return r; }
static int mu(int n) { int m = 1; for (auto [p, c] : fac(n)) m = c > 1 ? 0 : -m; return m; }
static int phi(int n) { int r = n; for (auto [p, c] : fac(n)) r = r / p * (p - 1); return r; }
template <class V> static V sorted(V v) { sort(v.begin(), v.end()); return v; }
static vector<int> divs(int n) { vector<int> r; for (int d = 1; (ll)d * d <= n; ++d) if (n % d == 0) { r.push_back(d); if (d != n / d) r.push_back(n / d); } return sorted(r); }
static vector<int> primes_upto(unsigned n) { vector<int> r; for (unsigned i = 2; i <= n; ++i) if (prime(i)) r.push_back(i); return r; }
template <unsigned N> static void simple_one() {
    MC_CASE(N); for (int rep = 0; rep < 2; ++rep) { SimpleSieve<N> s; for (unsigned p = 0; p <= N; ++p) MC_EQ(s.is_prime(p), prime(p), "SimpleSieve<" << N << ">::is_prime(" << p << ")"); MC_EQ(s.prime_list(), primes_upto(N), "SimpleSieve<" << N << ">::prime_list()"); if (N <= 200) for (unsigned m = 0; m <= N; ++m) MC_EQ(s.prime_list(m), primes_upto(m), "SimpleSieve<" << N << ">::prime_list(" << m << ")"); mc::step(N); }
}
template <unsigned N> static void sieve_one() {
    MC_CASE(N); for (int rep = 0; rep < 2; ++rep) { Sieve<N> s; for (unsigned p = 0; p <= N; ++p) { MC_EQ(s.is_prime(p), prime(p), "Sieve<" << N << ">::is_prime(" << p << ")"); if (p >= 2) { int f = s.prime_factor(p); MC_CHECK(prime(f) && p % f == 0, "Sieve<" << N << ">::prime_factor(" << p << ") = " << f); } if (p >= 1 && rep == 0) { MC_EQ(sorted(s.factorize(p)), fac(p), "Sieve<" << N << ">::factorize(" << p << ")"); MC_EQ(sorted(s.divisors(p)), divs(p), "Sieve<" << N << ">::divisors(" << p << ")"); } } mc::step(N); }
}
template <unsigned N> static void cx_one() {
    MC_CASE(N); static constexpr SimpleSieveConstexpr<N> a{}; static constexpr SieveConstexpr<N> b{}; for (unsigned p = 0; p <= N; ++p) { MC_EQ(a.is_prime(p), prime(p), "SimpleSieveConstexpr<" << N << ">(" << p << ")"); MC_EQ(b.is_prime(p), prime(p), "SieveConstexpr<" << N << ">(" << p << ")"); if (p >= 2) { int f = b.prime_factor(p); MC_CHECK(prime(f) && p % f == 0, "SieveConstexpr<" << N << ">::prime_factor(" << p << ") = " << f); } } mc::step(N);
}
template <unsigned N> static void mob_one() {
    MC_CASE(N); MobiusFunction<N> m; for (unsigned i = 0; i <= N; ++i) { MC_EQ(m.is_prime(i), prime(i), "MobiusFunction<" << N << ">::is_prime(" << i << ")"); if (i) { MC_EQ(m[i], mu(i), "mu(" << i << ")"); MC_EQ(m(i), mu(i), "mu(" << i << ")"); MC_EQ(m.mobius(i), mu(i), "mu(" << i << ")"); MC_EQ(m.factorize(i), fac(i), "MobiusFunction factorize " << i); } if (i >= 2) MC_EQ(m.min_prime_factor(i), spf[i], "MobiusFunction mpf " << i); } mc::step(N);
}
template <unsigned... I> static void all_simple(integer_sequence<unsigned, I...>) { (simple_one<I + 1>(), ...); }
template <unsigned... I> static void all_sieve(integer_sequence<unsigned, I...>) { (sieve_one<I + 1>(), ...); }
template <unsigned... I> static void all_cx(integer_sequence<unsigned, I...>) { (cx_one<I + 1>(), ...); }
template <unsigned... I> static void all_mob(integer_sequence<unsigned, I...>) { (mob_one<I + 1>(), ...); }
MC_GROUP(simple_sieve) { mc::bound("SimpleSieve<N> for every N in 1..64 and N around every product of two small primes and wheel boundary up to 30030, constructed twice: every query in [0,N], every prime_list bound"); all_simple(make_integer_sequence<unsigned, 64>()); simple_one<119>(); simple_one<120>(); simple_one<121>(); simple_one<168>(); simple_one<169>(); simple_one<898>(); simple_one<899>(); simple_one<960>(); simple_one<961>(); simple_one<3599>(); simple_one<3720>(); simple_one<3721>(); simple_one<10000>(); simple_one<30030>(); simple_one<100489>(); simple_one<1000000>(); }
MC_GROUP(sieve) { mc::bound("Sieve<N> for every N in 1..64 and boundary N up to 1e5, constructed twice: is_prime, prime_factor, factorize, divisors of every n in range"); all_sieve(make_integer_sequence<unsigned, 64>()); sieve_one<119>(); sieve_one<120>(); sieve_one<121>(); sieve_one<168>(); sieve_one<169>(); sieve_one<898>(); sieve_one<899>(); sieve_one<960>(); sieve_one<961>(); sieve_one<3599>(); sieve_one<3720>(); sieve_one<3721>(); sieve_one<10000>(); sieve_one<30030>(); sieve_one<100489>(); }
MC_GROUP(constexpr_sieves) { mc::bound("compile-time sieves for every N in 1..48, 121, 899, 961, 5000"); all_cx(make_integer_sequence<unsigned, 48>()); cx_one<121>(); cx_one<899>(); cx_one<961>(); cx_one<5000>(); }
MC_GROUP(mobius_tables) { mc::bound("MobiusFunction<N> for every N in 1..48, 1000, 50000"); all_mob(make_integer_sequence<unsigned, 48>()); mob_one<1000>(); mob_one<50000>(); }
MC_GROUP(linear_sieve) { mc::bound("LinearSieve(n) for every n in 0..400 and n = 1e5: primes, least prime factors, factorizations"); auto one = [&](int n) { MC_CASE(n); LinearSieve s(n); MC_EQ(s.get_prime_list(), primes_upto(n), "LinearSieve " << n); MC_EQ(s.prime_num(), (int)primes_upto(n).size(), "LinearSieve::prime_num " << n); MC_EQ((int)s.get_min_prime_factor().size(), n + 1, "size"); for (int i = 1; i <= n; ++i) { if (i >= 2) MC_EQ(s.get_min_prime_factor()[i], spf[i], "LinearSieve mpf " << i); MC_EQ(s.factorize(i), fac(i), "LinearSieve factorize " << i); } mc::step(n); }; for (int n = 0; n <= 400; ++n) one(n); one(100000); }
// ---- number/util.hpp tables and sums
MC_GROUP(util_tables) { mc::bound("divisors_table / totient_table for every n in 0..400; totient_table(100000)"); for (int n = 0; n <= 400; ++n) { MC_CASE(n); auto d = divisors_table(n); auto t = totient_table(n); MC_EQ((int)d.size(), n + 1, "divisors_table size"); MC_EQ((int)t.size(), n + 1, "totient_table size"); for (int i = 1; i <= n; ++i) { MC_EQ(sorted(d[i]), divs(i), "divisors_table " << n << " at " << i); MC_EQ(t[i], phi(i), "totient_table " << n << " at " << i); mc::step(); } } auto t = totient_table(100000); for (int i = 1; i <= 100000; ++i) MC_EQ(t[i], phi(i), "totient_table at " << i); }
MC_GROUP(sums) {
    mc::bound("SumOfTotientFunction / SumOfMobiusFunction for every n in 0..1500 (thorough 0..6000) and windows around 1e4..1e6, every denominator with a distinct quotient; long long and unsigned arithmetic");
    vector<ll> P(LIM + 1), M(LIM + 1); for (int i = 1; i <= LIM; ++i) P[i] = P[i - 1] + phi(i), M[i] = M[i - 1] + mu(i);
    auto one = [&](u64 n) { MC_CASE((ll)n); SumOfTotientFunction<ll> a(n); SumOfMobiusFunction<ll> b(n); SumOfTotientFunction<unsigned> c(n); SumOfMobiusFunction<unsigned> d(n); MC_EQ(a(), P[n], "sum of totient " << n); MC_EQ(b(), M[n], "Mertens " << n); for (u64 l = 1; l <= n + 1;) { u64 q = n / l; u64 r = q ? n / q : l; for (u64 x : { l, r }) { MC_EQ(a(x), P[q], "SumOfTotientFunction(" << n << ")(" << x << ")"); MC_EQ(b(x), M[q], "SumOfMobiusFunction(" << n << ")(" << x << ")"); MC_EQ(c(x), (unsigned)P[q], "SumOfTotientFunction<unsigned>(" << n << ")(" << x << ")"); MC_EQ(d(x), (unsigned)M[q], "SumOfMobiusFunction<unsigned>(" << n << ")(" << x << ")"); mc::step(4); } l = r + 1; } };
    for (int n = 0; n <= mc::T(1500, 6000); ++n) one(n); for (u64 b : { 9999, 10000, 16384, 65535, 99999, 262144, 999999, 1000000, 1048576 }) one(b);
    SumOfTotientFunction<ll> a; SumOfMobiusFunction<ll> b; MC_EQ(a(), 1LL, "default"); MC_EQ(b(), 1LL, "default");
    MC_EQ(SumOfTotientFunction<ll>(100000000)(), 3039635516365908LL, "sum of totient 1e8 (published value)"); MC_EQ(SumOfMobiusFunction<ll>(1000000000)(), -222LL, "Mertens 1e9 (published value)");
}
MC_GROUP(square_free) { mc::bound("count_square_free(n) for every n in -3..30000 (thorough: 2^20), every k^2 +-1 up to 2^20, and published values at powers of ten"); ll c = 0; vector<ll> S(LIM + 1); vector<int> MU(LIM + 1); for (int i = 1; i <= LIM; ++i) MU[i] = mu(i), S[i] = c += MU[i] != 0; auto one = [&](ll n) { MC_CASE(n); MC_EQ(count_square_free(n), n <= 0 ? 0LL : S[n], "count_square_free(" << n << ")"); mc::step(); }; for (int n = -3; n <= mc::T(30000, LIM); ++n) one(n); for (ll k = 170; k < 1024; ++k) for (int d = -1; d <= 1; ++d) one(k * k + d); one(LIM);
    struct { ll n, v; } pub[] = { { 10000000LL, 6079291 }, { 100000000LL, 60792694 }, { 1000000000LL, 607927124 }, { 10000000000LL, 6079270942LL }, { 100000000000LL, 60792710280LL }, { 1000000000000LL, 607927102274LL } }; for (auto& x : pub) MC_EQ(count_square_free(x.n), x.v, "count_square_free(" << x.n << ") (published)");
    auto simple = [&](ll n) { ll r = n; int D = 1; while ((ll)(D + 1) * (D + 1) <= n) ++D; r = 0; for (int i = 1; i <= D; ++i) r += MU[i] * (n / ((ll)i * i)); return r; }; for (ll b : { 1LL << 30, 1LL << 31, 1LL << 32, (1LL << 40) - (1LL << 22), 999999999989LL }) for (ll d = -mc::T(3, 40); d <= mc::T(3, 40); ++d) { MC_CASE(b, d); MC_EQ(count_square_free(b + d), simple(b + d), "count_square_free(" << b + d << ")"); mc::step(); } }
MC_GROUP(sums_beyond_32_bits) {
    mc::bound("SumOfTotientFunction / SumOfMobiusFunction for n in {2^32-1, 2^32, 2^32+1, 5*10^9+7, 10^10} (thorough: 2*10^10, 10^11), modulo 2^64: every denominator with a distinct quotient, against a memoised divisor-sum recursion; Mertens(10^10); count_square_free at 10^13..10^18 (published values)");
    const int B = mc::T(6000000, 25000000); vector<u64> P(B + 1); vector<int> M(B + 1); { vector<int> ph(B + 1), mu(B + 1, 1), lp(B + 1); vector<int> pr; ph[1] = 1; for (int i = 2; i <= B; ++i) { if (!lp[i]) { lp[i] = i; pr.push_back(i); ph[i] = i - 1; mu[i] = -1; } for (int p : pr) { if (p > lp[i] || (ll)p * i > B) break; lp[p * i] = p; ph[p * i] = ph[i] * (p == lp[i] ? p : p - 1); mu[p * i] = p == lp[i] ? 0 : -mu[i]; } } for (int i = 1; i <= B; ++i) P[i] = P[i - 1] + ph[i], M[i] = M[i - 1] + mu[i]; }
    vector<u64> ns{ (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, 5000000007ULL, 10000000000ULL }; if (mc::T(0, 1)) { ns.push_back(20000000000ULL); ns.push_back(100000000000ULL); }
    for (u64 n : ns) { MC_CASE((ll)n); int L = n / B + 1; vector<u64> BP(L + 1); vector<ll> BM(L + 1); for (int d = L; d >= 1; --d) { u64 x = n / d; if (x <= (u64)B) { BP[d] = P[x]; BM[d] = M[x]; continue; } u64 s = (u64)((unsigned __int128)x * (x + 1) / 2); ll m = 1; for (u64 l = 2; l <= x;) { u64 q = x / l, r = x / q; s -= (r - l + 1) * (q <= (u64)B ? P[q] : BP[d * l]); m -= (ll)(r - l + 1) * (q <= (u64)B ? M[q] : BM[d * l]); l = r + 1; } BP[d] = s; BM[d] = m; }
        SumOfTotientFunction<u64> a(n); SumOfMobiusFunction<ll> b(n); SumOfMobiusFunction<unsigned> c(n); MC_EQ(a(), BP[1], "sum of totient " << n); MC_EQ(b(), BM[1], "sum of mobius " << n);
        u64 cnt = 0; for (u64 l = 1; l <= n;) { u64 q = n / l, r = n / q; u64 ws = q <= (u64)B ? P[q] : BP[l]; ll wm = q <= (u64)B ? M[q] : BM[l]; MC_EQ(a(l), ws, "sum of totient " << n << "/" << l); MC_EQ(a(r), ws, "sum of totient " << n << "/" << r); MC_EQ(b(l), wm, "mobius " << n << "/" << l); MC_EQ(b(r), wm, "mobius"); MC_EQ(c(r), (unsigned)wm, "mobius, unsigned"); l = r + 1; ++cnt; mc::step(); } MC_EQ(a(n + 1), (u64)0, "beyond n"); }
    MC_EQ(SumOfMobiusFunction<ll>(10000000000ULL)(), -33722LL, "Mertens 1e10 (published value)");
    struct { ll n, v; } pub[] = { { 10000000000000LL, 6079271018294LL }, { 100000000000000LL, 60792710185947LL }, { 1000000000000000LL, 607927101854103LL }, { 10000000000000000LL, 6079271018540405LL }, { 100000000000000000LL, 60792710185403794LL }, { 1000000000000000000LL, 607927101854022750LL } }; for (auto& x : pub) { MC_CASE(x.n); MC_EQ(count_square_free(x.n), x.v, "square-free up to " << x.n); mc::step(); }
}
template <unsigned N> static void cx_run() { MC_CASE(N); auto a = make_unique<SimpleSieveConstexpr<N>>(); auto b = make_unique<SieveConstexpr<N>>(); vector<char> c(N + 1, 1); vector<int> lp(N + 1); for (unsigned i = 2; i <= N; ++i) if (!lp[i]) for (unsigned j = i; j <= N; j += i) if (!lp[j]) lp[j] = i; for (unsigned i = 0; i <= N; ++i) { bool pr = i >= 2 && lp[i] == (int)i; MC_EQ(a->is_prime(i), pr, "SimpleSieveConstexpr<" << N << ">(" << i << ")"); MC_EQ(b->is_prime(i), pr, "SieveConstexpr<" << N << ">(" << i << ")"); if (i >= 2) { int f = b->prime_factor(i); MC_CHECK(f >= 2 && lp[f] == f && i % f == 0, "prime_factor(" << i << ")"); } } mc::step(N); }
MC_GROUP(constexpr_sieves_at_run_time) { mc::bound("the compile-time sieves constructed at run time for N = 30000, 361201, 400009 and 1000003: every query"); cx_run<30000>(); cx_run<361201>(); cx_run<400009>(); cx_run<1000003>(); }
MC_MAIN
