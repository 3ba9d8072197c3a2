#pragma once
#include "modint.hpp"
namespace atcoder {
    namespace internal {
        template <class mint, is_static_modint_t<mint>* = nullptr> struct bf_tab {
            mint sum_e[30], sum_ie[30];
            bf_tab() {
                constexpr int g = primitive_root<mint::mod()>; mint es[30], ies[30]; int cnt2 = bsf(mint::mod() - 1);
                mint e = mint(g).pow((mint::mod() - 1) >> cnt2), ie = e.inv();
                for (int i = cnt2; i >= 2; i--) { es[i - 2] = e; ies[i - 2] = ie; e *= e; ie *= ie; }
                mint now = 1, inow = 1; for (int i = 0; i <= cnt2 - 2; i++) { sum_e[i] = es[i] * now; now *= ies[i]; sum_ie[i] = ies[i] * inow; inow *= es[i]; }
            }
            static const bf_tab& get() { static bf_tab t; return t; }
        };
        template <class mint, is_static_modint_t<mint>* = nullptr> void butterfly(std::vector<mint>& a) {
            int n = int(a.size()), h = ceil_pow2(n); auto& t = bf_tab<mint>::get();
            for (int ph = 1; ph <= h; ph++) { int w = 1 << (ph - 1), p = 1 << (h - ph); mint now = 1;
                for (int s = 0; s < w; s++) { int off = s << (h - ph + 1); for (int i = 0; i < p; i++) { auto l = a[i + off]; auto r = a[i + off + p] * now; a[i + off] = l + r; a[i + off + p] = l - r; } now *= t.sum_e[bsf(~(unsigned int)(s))]; } }
        }
        template <class mint, is_static_modint_t<mint>* = nullptr> void butterfly_inv(std::vector<mint>& a) {
            int n = int(a.size()), h = ceil_pow2(n); auto& t = bf_tab<mint>::get();
            for (int ph = h; ph >= 1; ph--) { int w = 1 << (ph - 1), p = 1 << (h - ph); mint inow = 1;
                for (int s = 0; s < w; s++) { int off = s << (h - ph + 1); for (int i = 0; i < p; i++) { auto l = a[i + off]; auto r = a[i + off + p]; a[i + off] = l + r; a[i + off + p] = (l - r) * inow; } inow *= t.sum_ie[bsf(~(unsigned int)(s))]; } }
        }
        template <class mint> std::vector<mint> convolution_plain(const std::vector<mint>& a, const std::vector<mint>& b) {
            std::vector<mint> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c;
        }
    }
    template <class mint, internal::is_static_modint_t<mint>* = nullptr> std::vector<mint> convolution(const std::vector<mint>& a, const std::vector<mint>& b) {
        int n = int(a.size()), m = int(b.size()); if (!n || !m) return {};
        if (std::min(n, m) <= 60) return internal::convolution_plain(a, b);
        int z = 1; while (z < n + m - 1) z *= 2; assert((mint::mod() - 1) % z == 0);
        auto x = a, y = b; x.resize(z); y.resize(z); internal::butterfly(x); internal::butterfly(y); for (int i = 0; i < z; ++i) x[i] *= y[i]; internal::butterfly_inv(x); x.resize(n + m - 1);
        mint iz = mint(z).inv(); for (auto& v : x) v *= iz; return x;
    }
    template <unsigned int mod = 998244353, class T, std::enable_if_t<std::is_integral<T>::value>* = nullptr> std::vector<T> convolution(const std::vector<T>& a, const std::vector<T>& b) {
        using mint = static_modint<mod>; std::vector<mint> x(a.begin(), a.end()), y(b.begin(), b.end()); auto z = convolution(x, y); std::vector<T> c(z.size()); for (size_t i = 0; i < z.size(); ++i) c[i] = z[i].val(); return c;
    }
    inline std::vector<long long> convolution_ll(const std::vector<long long>& a, const std::vector<long long>& b) {
        if (a.empty() || b.empty()) return {}; std::vector<long long> c(a.size() + b.size() - 1);
        for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] = (long long)((unsigned long long)c[i + j] + (unsigned long long)a[i] * (unsigned long long)b[j]); return c;
    }
}
