#include "common/src/bit_manip.cpp"
#include <rofl/common/morton_sort.h>
namespace rofl {
#define INST(T)                                                                      \
    template int intervalPow2Int<T>(const T&, const T&, T&, T&, T&);                 \
    template bool mortonCmpInt<T, 1>(const T*, const T*);                            \
    template bool mortonCmpInt<T, 2>(const T*, const T*);                            \
    template bool mortonCmpInt<T, 3>(const T*, const T*);                            \
    template int mortonDistanceInt<T, 2>(const T*, const T*);                        \
    template int mortonDistanceInt<T, 3>(const T*, const T*);                        \
    template void mortonSplitInt<T, 2>(const T*, const T*, T*, T*, T*);              \
    template void mortonSplitInt<T, 3>(const T*, const T*, T*, T*, T*);              \
    template struct MortonTraits<T, 2>;                                              \
    template struct MortonTraits<T, 3>;                                              \
    template bool msb<T>(const T&, const T&);
INST(int8_t) INST(uint8_t) INST(int16_t) INST(uint16_t)
INST(int32_t) INST(uint32_t) INST(int64_t) INST(uint64_t)
}
