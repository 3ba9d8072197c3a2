#pragma once
#include "internal_math.hpp"
namespace atcoder {
    namespace internal {
        struct modint_base {}; struct static_modint_base : modint_base {};
        template <class T> using is_modint = std::is_base_of<modint_base, T>;
        template <class T> using is_modint_t = std::enable_if_t<is_modint<T>::value>;
    }
#define ACL_MODINT_BODY(M) \
        int_v_(M) mint& operator++() { _v++; if (_v == umod()) _v = 0; return *this; } mint& operator--() { if (_v == 0) _v = umod(); _v--; return *this; } \
        mint operator++(int) { mint r = *this; ++*this; return r; } mint operator--(int) { mint r = *this; --*this; return r; } \
        mint& operator-=(const mint& o) { _v += umod() - o._v; if (_v >= umod()) _v -= umod(); return *this; } \
        mint& operator*=(const mint& o) { _v = (unsigned int)((unsigned long long)_v * o._v % umod()); return *this; } \
        mint& operator/=(const mint& o) { return *this = *this * o.inv(); } mint operator+() const { return *this; } mint operator-() const { return mint() - *this; } \
        mint pow(long long n) const { assert(0 <= n); mint x = *this, r = 1; while (n) { if (n & 1) r *= x; x *= x; n >>= 1; } return r; } \
        friend mint operator+(const mint& l, const mint& r) { return mint(l) += r; } friend mint operator-(const mint& l, const mint& r) { return mint(l) -= r; } \
        friend mint operator*(const mint& l, const mint& r) { return mint(l) *= r; } friend mint operator/(const mint& l, const mint& r) { return mint(l) /= r; } \
        friend bool operator==(const mint& l, const mint& r) { return l._v == r._v; } friend bool operator!=(const mint& l, const mint& r) { return l._v != r._v; }
#define int_v_(M)
    template <int m, std::enable_if_t<(1 <= m)>* = nullptr> struct static_modint : internal::static_modint_base {
        using mint = static_modint;
        static constexpr int mod() { return m; }
        static mint raw(int v) { mint x; x._v = v; return x; }
        static_modint() : _v(0) {}
        template <class T, std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value || std::is_same<T, __int128>::value>* = nullptr>
        static_modint(T v) { long long x = (long long)(v % (long long)(umod())); if (x < 0) x += umod(); _v = (unsigned int)(x); }
        template <class T, std::enable_if_t<std::is_integral<T>::value && std::is_unsigned<T>::value && !std::is_same<T, bool>::value || std::is_same<T, unsigned __int128>::value>* = nullptr>
        static_modint(T v) { _v = (unsigned int)(v % umod()); }
        static_modint(bool v) { _v = ((unsigned int)(v) % umod()); }
        unsigned int val() const { return _v; }
        mint& operator+=(const mint& o) { _v += o._v; if (_v >= umod()) _v -= umod(); return *this; }
        ACL_MODINT_BODY(0)
        mint inv() const { auto eg = internal::inv_gcd(_v, m); assert(eg.first == 1); return eg.second; }
    private:
        unsigned int _v; static constexpr unsigned int umod() { return m; }
    };
    template <int id> struct dynamic_modint : internal::modint_base {
        using mint = dynamic_modint;
        static int mod() { return (int)umod(); }
        static void set_mod(int m) { assert(1 <= m); m_() = m; }
        static mint raw(int v) { mint x; x._v = v; return x; }
        dynamic_modint() : _v(0) {}
        template <class T, std::enable_if_t<std::is_integral<T>::value && std::is_signed<T>::value>* = nullptr>
        dynamic_modint(T v) { long long x = (long long)(v % (long long)(mod())); if (x < 0) x += mod(); _v = (unsigned int)(x); }
        template <class T, std::enable_if_t<std::is_integral<T>::value && std::is_unsigned<T>::value && !std::is_same<T, bool>::value>* = nullptr>
        dynamic_modint(T v) { _v = (unsigned int)(v % mod()); }
        dynamic_modint(bool v) { _v = ((unsigned int)(v) % mod()); }
        unsigned int val() const { return _v; }
        mint& operator+=(const mint& o) { _v += o._v; if (_v >= umod()) _v -= umod(); return *this; }
        ACL_MODINT_BODY(0)
        mint inv() const { auto eg = internal::inv_gcd(_v, mod()); assert(eg.first == 1); return eg.second; }
    private:
        unsigned int _v; static unsigned int& m_() { static unsigned int m = 998244353; return m; } static unsigned int umod() { return m_(); }
    };
    using modint998244353 = static_modint<998244353>; using modint1000000007 = static_modint<1000000007>; using modint = dynamic_modint<-1>;
    namespace internal {
        template <class T> using is_static_modint = std::is_base_of<static_modint_base, T>;
        template <class T> using is_static_modint_t = std::enable_if_t<is_static_modint<T>::value>;
        template <class> struct is_dynamic_modint : std::false_type {};
        template <int id> struct is_dynamic_modint<dynamic_modint<id>> : std::true_type {};
        template <class T> using is_dynamic_modint_t = std::enable_if_t<is_dynamic_modint<T>::value>;
        template <class T> using is_integral = std::is_integral<T>;
    }
}
