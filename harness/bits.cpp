// the real sources, compiled from /repo's working tree
#include "common/src/bit_manip.cpp"
#include <rofl/common/numeric_traits.h>
namespace rofl {
#define INST(T)                                   \
    template T nlz<T>(const T&);                  \
    template T log2Mod<T>(const T&);              \
    template T floorPow2<T>(const T&);            \
    template T ceilPow2<T>(const T&);
INST(int8_t) INST(uint8_t) INST(int16_t) INST(uint16_t)
INST(int32_t) INST(uint32_t) INST(int64_t) INST(uint64_t)
void rvc_use_traits(float f, double d, int32_t& m, int32_t& e, int64_t& ml, int64_t& el, bool& s) {
    FloatTraits<float>::decompose(f, m, e, s);
    FloatTraits<double>::decompose(d, ml, el, s);
    FloatTraits<float>::compose(m, e, s);
    FloatTraits<double>::compose(ml, el, s);
    FloatTraits<float>::toInt(f);
    FloatTraits<double>::toInt(d);
    FloatTraits<float>::dividePow2(f, e);
    FloatTraits<double>::dividePow2(d, el);
}
}
namespace rofl {
// published constants of the floating point traits, read back through functions
#define CONSTS(T, N)                                                                      \
    typename FloatTraits<T>::UnsignedType rvc_mantissa_mask_##N() { return FloatTraits<T>::MANTISSA_MASK; } \
    typename FloatTraits<T>::UnsignedType rvc_exponent_mask_##N() { return FloatTraits<T>::EXPONENT_MASK; } \
    typename FloatTraits<T>::UnsignedType rvc_sign_mask_##N() { return FloatTraits<T>::SIGN_MASK; }         \
    typename FloatTraits<T>::UnsignedType rvc_implicit_##N() { return FloatTraits<T>::MANTISSA_IMPLICIT_BIT; } \
    typename FloatTraits<T>::IntegerType rvc_exp_min_##N() { return FloatTraits<T>::EXPONENT_MIN; }         \
    typename FloatTraits<T>::IntegerType rvc_exp_max_##N() { return FloatTraits<T>::EXPONENT_MAX; }         \
    int rvc_mbits_##N() { return FloatTraits<T>::MANTISSA_BITS; }                         \
    int rvc_ebits_##N() { return FloatTraits<T>::EXPONENT_BITS; }                         \
    int rvc_bits_##N() { return FloatTraits<T>::BIT_NUM; }
CONSTS(float, f) CONSTS(double, d)
}
