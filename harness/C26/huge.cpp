// mc: flags='-O2'
// Convolutions at the sizes where the transform length limits switch the algorithm.
#include "mc.hpp"
#include <atcoder/convolution>
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/convolution_large.hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
using namespace suisen; using ull = unsigned long long;
MC_GROUP(word_products) {
    mc::bound("convolution_mod_2_64 with result length 2^22+1 (thorough also 2^22) (last length of the five-modulus and first of the six-modulus path), 61 x rest, values over all 64 bits: every coefficient");
    for (int L : { 1 << 22, (1 << 22) + 1 }) { if (L == 1 << 22 && !mc::T(0, 1)) continue; MC_CASE(L); std::vector<ull> a(61), b(L - 60); for (int i = 0; i < 61; ++i) a[i] = ~0ull - i * 7; for (size_t i = 0; i < b.size(); ++i) b[i] = i * 0x9e3779b97f4a7c15ULL; auto c = convolution_mod_2_64(a, b); MC_EQ((int)c.size(), L, "length"); for (int k = 0; k < L; ++k) { ull s = 0; for (int i = 0; i < 61; ++i) if (k - i >= 0 && k - i < (int)b.size()) s += a[i] * b[k - i]; MC_EQ(c[k], s, "coefficient " << k); } mc::step(); }
}
MC_MAIN
