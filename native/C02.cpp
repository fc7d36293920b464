#include "rvc_native.h"
#include "common/src/bit_manip.cpp"
#include <rofl/common/numeric_traits.h>
using namespace rofl;
template <typename F, typename U, typename I, int MB, int EB, int BIAS, typename G, typename S>
void one(U bits, G get, S set) {
    F f;
    memcpy(&f, &bits, sizeof f);
    CASE("%s bits=0x%llx", sizeof(F) == 4 ? "float" : "double", (unsigned long long)bits);
    I M = (I)(bits & (((U)1 << MB) - 1)), E = (I)((bits >> MB) & (((U)1 << EB) - 1)) - BIAS;
    bool s = bits >> (MB + EB);
    for (int k = 0; k < 2; ++k) {
        I m = -7, e = -7;
        bool sg = !s;
        F g = f;
        if (k) FloatTraits<F>::decompose(g, m, e, sg); else get(g, m, e, sg);
        CHECK(m == M, "mantissa %lld", (long long)m);
        CHECK(e == E, "exponent %lld", (long long)e);
        CHECK(sg == s, "sign");
        F r = k ? FloatTraits<F>::compose(M, E, s) : set(M, E, s);
        U rb;
        memcpy(&rb, &r, sizeof r);
        CHECK(rb == bits, "composed 0x%llx", (unsigned long long)rb);
    }
}
static void f1(uint32_t b) {
    // signalling NaNs are not carried through by-value float returns on every ABI: skip none on SSE
    one<float, uint32_t, int32_t, 23, 8, 127>(b, [](float f, int32_t& m, int32_t& e, bool& s) { getMantissaExpSignF(f, m, e, s); },
        [](int32_t m, int32_t e, bool s) { return setMantissaExpSignF(m, e, s); });
}
static void d1(uint64_t b) {
    one<double, uint64_t, int64_t, 52, 11, 1023>(b, [](double f, int64_t& m, int64_t& e, bool& s) { getMantissaExpSignD(f, m, e, s); },
        [](int64_t m, int64_t e, bool s) { return setMantissaExpSignD(m, e, s); });
}
void search() {
    CASE("constants");
    using A = FloatTraits<float>; using B = FloatTraits<double>;
    CHECK((uint32_t)A::MANTISSA_MASK == 0x007fffffu && (uint32_t)A::EXPONENT_MASK == 0x7f800000u && (uint32_t)A::SIGN_MASK == 0x80000000u, "float masks");
    CHECK((uint64_t)B::MANTISSA_MASK == 0x000fffffffffffffull && (uint64_t)B::EXPONENT_MASK == 0x7ff0000000000000ull && (uint64_t)B::SIGN_MASK == 0x8000000000000000ull, "double masks");
    CHECK((int64_t)A::MANTISSA_IMPLICIT_BIT == (1 << 23) && (int64_t)B::MANTISSA_IMPLICIT_BIT == (1ll << 52), "implicit bit");
    CHECK((int64_t)A::EXPONENT_MIN == -127 && (int64_t)A::EXPONENT_MAX == 128 && (int64_t)B::EXPONENT_MIN == -1023 && (int64_t)B::EXPONENT_MAX == 1024, "exponent range");
    for (auto& h : hints_) {
        uint64_t x, m, e;
        if (hint(h, "bits", x)) { f1(x); d1(x); }
        if (hint(h, "m", m) && hint(h, "e", e)) {
            bool s = h["s"] == "True";
            f1(((uint32_t)s << 31) | (((uint32_t)(e + 127) & 255) << 23) | ((uint32_t)m & 0x7fffff));
            d1(((uint64_t)s << 63) | (((uint64_t)(e + 1023) & 2047) << 52) | (m & 0xfffffffffffffull));
        }
    }
    for (int s = 0; s < 2; ++s) {
        for (uint32_t e = 0; e < 256; ++e) for (int k = 0; k < 200; ++k) f1(((uint32_t)s << 31) | (e << 23) | (rint<uint32_t>() & 0x7fffff));
        for (uint64_t e = 0; e < 2048; ++e) for (int k = 0; k < 50; ++k) d1(((uint64_t)s << 63) | (e << 52) | (rint<uint64_t>() & 0xfffffffffffffull));
    }
    while (time_left()) for (int i = 0; i < 1000; ++i) { f1(rint<uint32_t>()); d1(rint<uint64_t>()); }
}
