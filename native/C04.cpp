#include "rvc_native.h"
#include "common/src/bit_manip.cpp"
#include <rofl/common/morton_sort.h>
template <typename I, int D> bool zless(const I* a, const I* b) {
    using U = typename std::make_unsigned<I>::type;
    const int w = 8 * sizeof(I);
    U f = std::is_signed<I>::value ? (U)((U)1 << (w - 1)) : 0;
    for (int k = w - 1; k >= 0; --k)
        for (int d = 0; d < D; ++d) {
            int x = (((U)a[d] ^ f) >> k) & 1, y = (((U)b[d] ^ f) >> k) & 1;
            if (x != y) return x < y;
        }
    return false;
}
template <typename I, int D> void one(const I* a, const I* b) {
    std::string s;
    for (int d = 0; d < D; ++d) s += " " + std::to_string((long long)a[d]);
    s += " |";
    for (int d = 0; d < D; ++d) s += " " + std::to_string((long long)b[d]);
    CASE("%sint%zu dim %d:%s", std::is_signed<I>::value ? "" : "u", 8 * sizeof(I), D, s.c_str());
    bool z = zless<I, D>(a, b);
    CHECK((rofl::mortonCmpInt<I, D>(a, b)) == z, "mortonCmpInt");
    CHECK((rofl::MortonTraits<I, D>::compare(a, b)) == z, "compare");
    using U = typename std::make_unsigned<I>::type;
    U x = (U)a[0], y = (U)b[0];
    int lx = -1, ly = -1;
    for (int k = 0; k < (int)(8 * sizeof(I)); ++k) { if ((x >> k) & 1) lx = k; if ((y >> k) & 1) ly = k; }
    CHECK(rofl::msb<U>(x, y) == (lx < ly), "msb");
}
template <typename I> void rnd1() {
    I a[3], b[3];
    for (int d = 0; d < 3; ++d) { a[d] = rint<I>(); b[d] = rnd() % 3 == 0 ? a[d] : rnd() % 2 ? (I)(a[d] ^ rint<I>()) : rint<I>(); }
    one<I, 1>(a, b); one<I, 2>(a, b); one<I, 3>(a, b); one<I, 3>(a, a);
}
template <typename I> void hint1(std::map<std::string, std::string>& h) {
    I a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
    for (int d = 0; d < 3; ++d) {
        uint64_t v;
        char k[8];
        snprintf(k, 8, "a%d", d); if (hint(h, k, v)) a[d] = (I)v;
        snprintf(k, 8, "b%d", d); if (hint(h, k, v)) b[d] = (I)v;
    }
    one<I, 1>(a, b); one<I, 2>(a, b); one<I, 3>(a, b);
}
void search() {
#define ALL(F) F(int8_t) F(uint8_t) F(int16_t) F(uint16_t) F(int32_t) F(uint32_t) F(int64_t) F(uint64_t)
    for (auto& h : hints_) {
#define H(T) hint1<T>(h);
        ALL(H)
    }
    for (int i = 0; i < 65536; ++i) { int8_t a[1] = {(int8_t)i}, b[1] = {(int8_t)(i >> 8)}; one<int8_t, 1>(a, b); uint8_t c[1] = {(uint8_t)i}, e[1] = {(uint8_t)(i >> 8)}; one<uint8_t, 1>(c, e); }
    while (time_left()) for (int i = 0; i < 300; ++i) {
#define R(T) rnd1<T>();
        ALL(R)
    }
}
