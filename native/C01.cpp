#include "rvc_native.h"
#include "common/src/bit_manip.cpp"
template <typename U> int onlz(U x) { int n = 0; for (int b = 8 * sizeof(U) - 1; b >= 0 && !((x >> b) & 1); --b) ++n; return n; }
template <typename U, typename N, typename FL, typename CL> void one(U x, N nlz, FL fl, CL cl) {
    CASE("width %zu x=%llu", 8 * sizeof(U), (unsigned long long)x);
    int w = 8 * sizeof(U), n = onlz(x);
    CHECK((int)nlz(x) == n, "nlz returned %d", (int)nlz(x));
    U f = x ? (U)((U)1 << (w - 1 - n)) : 0;
    CHECK(fl(x) == f, "flp2 returned %llu", (unsigned long long)fl(x));
    if (x <= (U)((U)1 << (w - 1))) {
        U c = f == x ? x : (U)(f << 1);
        CHECK(cl(x) == c, "clp2 returned %llu", (unsigned long long)cl(x));
    }
}
using namespace rofl;
void search() {
    for (auto& h : hints_) {
        uint64_t x;
        if (hint(h, "x", x)) {
            one<uint8_t>(x, nlz8, flp2u8, clp2u8);
            one<uint16_t>(x, nlz16, flp2u16, clp2u16);
            one<uint32_t>(x, nlz32, flp2u32, clp2u32);
            one<uint64_t>(x, nlz64, flp2u64, clp2u64);
        }
    }
    for (int x = 0; x < 256; ++x) one<uint8_t>(x, nlz8, flp2u8, clp2u8);
    for (int x = 0; x < 65536; ++x) one<uint16_t>(x, nlz16, flp2u16, clp2u16);
    while (time_left())
        for (int i = 0; i < 1000; ++i) {
            one<uint32_t>(rint<uint32_t>(), nlz32, flp2u32, clp2u32);
            one<uint64_t>(rint<uint64_t>(), nlz64, flp2u64, clp2u64);
        }
}
