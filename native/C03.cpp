#include "rvc_native.h"
#include "common/src/bit_manip.cpp"
#include <rofl/common/numeric_traits.h>
template <typename I> void one(I x) {
    using U = typename std::make_unsigned<I>::type;
    const bool sg = std::is_signed<I>::value;
    const int w = 8 * sizeof(I);
    CASE("%sint%d_t x=%lld", sg ? "" : "u", w, (long long)x);
    if (sg && w >= 32 && x == std::numeric_limits<I>::min()) return;
    U u = (U)x;
    int n = 0;
    for (int b = w - 1; b >= 0 && !((u >> b) & 1); --b) ++n;
    CHECK((long long)rofl::nlz<I>(x) == n, "nlz %lld", (long long)rofl::nlz<I>(x));
    bool neg = x < 0;
    __int128 mag = neg ? -(__int128)x : (__int128)x, p = 1;
    int lg = 0;
    while (p * 2 <= mag) { p *= 2; ++lg; }
    if (x != 0) CHECK((long long)rofl::log2Mod<I>(x) == lg, "log2Mod %lld", (long long)rofl::log2Mod<I>(x));
    __int128 up = p == mag ? p : 2 * p;
    __int128 fl = x == 0 ? 0 : neg ? -up : p, ce = x == 0 ? 0 : neg ? -p : up;
    if (fl >= (__int128)std::numeric_limits<I>::min()) CHECK((__int128)rofl::floorPow2<I>(x) == fl, "floorPow2 %lld", (long long)rofl::floorPow2<I>(x));
    if (ce <= (__int128)std::numeric_limits<I>::max()) CHECK((__int128)rofl::ceilPow2<I>(x) == ce, "ceilPow2 %lld", (long long)rofl::ceilPow2<I>(x));
}
static void all(uint64_t x) {
    one<int8_t>(x); one<uint8_t>(x); one<int16_t>(x); one<uint16_t>(x); one<int32_t>(x); one<uint32_t>(x); one<int64_t>(x); one<uint64_t>(x);
}
void search() {
    for (auto& h : hints_) { uint64_t x; if (hint(h, "x", x)) all(x); }
    for (int i = 0; i < 256; ++i) { one<int8_t>(i); one<uint8_t>(i); }
    for (int i = 0; i < 65536; ++i) { one<int16_t>(i); one<uint16_t>(i); }
    while (time_left()) for (int i = 0; i < 1000; ++i) { all(rint<uint64_t>()); all(rint<uint32_t>()); }
}
