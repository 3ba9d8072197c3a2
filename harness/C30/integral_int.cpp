// mc: flags='-O1'
// The units of integral_big.cpp with 32-bit coordinates and 64-bit products.
#define COORDINATE_TYPE int
#define MULTIPLIED_TYPE long long
#include "integral_big.cpp"
