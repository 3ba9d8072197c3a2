#pragma once
#include "internal_math.hpp"
namespace atcoder {
    template <class T> std::vector<int> suffix_array(const std::vector<T>& s) { int n = s.size(); std::vector<int> a(n); std::iota(a.begin(), a.end(), 0); std::sort(a.begin(), a.end(), [&](int x, int y) { return std::lexicographical_compare(s.begin() + x, s.end(), s.begin() + y, s.end()); }); return a; }
    inline std::vector<int> suffix_array(const std::vector<int>& s, int upper) { return suffix_array<int>(s); }
    inline std::vector<int> suffix_array(const std::string& s) { std::vector<int> v(s.begin(), s.end()); return suffix_array<int>(v); }
    template <class T> std::vector<int> lcp_array(const std::vector<T>& s, const std::vector<int>& sa) { int n = s.size(); assert(n >= 1); std::vector<int> r(n - 1); for (int i = 0; i + 1 < n; ++i) { int x = sa[i], y = sa[i + 1], k = 0; while (x + k < n && y + k < n && s[x + k] == s[y + k]) ++k; r[i] = k; } return r; }
    inline std::vector<int> lcp_array(const std::string& s, const std::vector<int>& sa) { return lcp_array(std::vector<int>(s.begin(), s.end()), sa); }
    template <class T> std::vector<int> z_algorithm(const std::vector<T>& s) { int n = s.size(); std::vector<int> z(n); for (int i = 0; i < n; ++i) { int k = 0; while (i + k < n && s[k] == s[i + k]) ++k; z[i] = k; } return z; }
    inline std::vector<int> z_algorithm(const std::string& s) { return z_algorithm(std::vector<int>(s.begin(), s.end())); }
}
