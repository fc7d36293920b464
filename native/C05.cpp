#include "rvc_native.h"
#include "common/src/bit_manip.cpp"
#include <rofl/common/morton_sort.h>
template <typename I> int cell_(I a, I b, I& lo, I& mi, I& up) {
    // grow aligned cells until one holds both values
    __int128 off = std::is_signed<I>::value ? (__int128)1 << (8 * sizeof(I) - 1) : 0;
    __int128 A = (__int128)a + off, B = (__int128)b + off;
    for (int L = 0;; ++L) {
        __int128 sz = (__int128)1 << L, l = A / sz * sz;
        if (B >= l && B < l + sz) { lo = (I)(l - off); up = (I)(l + sz - 1 - off); mi = (I)(l + (L ? sz / 2 : 0) - off); return L; }
    }
}
template <typename I, int D> void one(const I* a, const I* b) {
    std::string s;
    for (int d = 0; d < D; ++d) s += " " + std::to_string((long long)a[d]);
    s += " |";
    for (int d = 0; d < D; ++d) s += " " + std::to_string((long long)b[d]);
    CASE("%sint%zu dim %d:%s", std::is_signed<I>::value ? "" : "u", 8 * sizeof(I), D, s.c_str());
    I lo[D], mi[D], up[D], l[D], m[D], u[D];
    int best = 0, lv[D];
    for (int d = 0; d < D; ++d) {
        lv[d] = cell_(a[d], b[d], lo[d], mi[d], up[d]);
        int r = rofl::intervalPow2Int<I>(a[d], b[d], l[d], m[d], u[d]);
        CHECK(r == lv[d] && l[d] == lo[d] && m[d] == mi[d] && u[d] == up[d], "intervalPow2Int dim %d: level %d low %lld mid %lld upp %lld", d, r, (long long)l[d], (long long)m[d], (long long)u[d]);
        if (lv[d] > lv[best]) best = d;
    }
    CHECK((rofl::mortonDistanceInt<I, D>(a, b)) == lv[best], "mortonDistanceInt");
    CHECK((rofl::MortonTraits<I, D>::distance(a, b)) == lv[best], "distance");
    for (int k = 0; k < 2; ++k) {
        if (k) rofl::mortonSplitInt<I, D>(a, b, l, m, u); else rofl::MortonTraits<I, D>::split(a, b, l, m, u);
        for (int d = 0; d < D; ++d)
            CHECK(l[d] == lo[d] && u[d] == up[d] && m[d] == (d == best ? mi[d] : lo[d]), "split dim %d: %lld %lld %lld", d, (long long)l[d], (long long)m[d], (long long)u[d]);
    }
}
template <typename I> void rnd1() {
    I a[3], b[3];
    for (int d = 0; d < 3; ++d) { a[d] = rint<I>(); b[d] = rnd() % 3 == 0 ? a[d] : rnd() % 2 ? (I)(a[d] ^ rint<I>()) : rint<I>(); }
    one<I, 2>(a, b); one<I, 3>(a, b); one<I, 3>(a, a);
}
template <typename I> void hint1(std::map<std::string, std::string>& h) {
    I a[3] = {0, 0, 0}, b[3] = {0, 0, 0};
    for (int d = 0; d < 3; ++d) {
        uint64_t v;
        char k[8];
        snprintf(k, 8, "a%d", d); if (hint(h, k, v)) a[d] = (I)v;
        snprintf(k, 8, "b%d", d); if (hint(h, k, v)) b[d] = (I)v;
    }
    one<I, 2>(a, b); one<I, 3>(a, b);
}
void search() {
#define ALL(F) F(int8_t) F(uint8_t) F(int16_t) F(uint16_t) F(int32_t) F(uint32_t) F(int64_t) F(uint64_t)
    for (auto& h : hints_) {
#define H(T) hint1<T>(h);
        ALL(H)
    }
    while (time_left()) for (int i = 0; i < 100; ++i) {
#define R(T) rnd1<T>();
        ALL(R)
    }
}
