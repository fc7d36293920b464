#include "rvc_native.h"
#include "common/src/functions.cpp"
using namespace rofl;
static double arg(double r) {
    switch (rnd() % 5) {
        case 0: return std::min(r, std::max(-r, M_PI / 4 * (double)rndr(-200, 200)));
        case 1: return std::min(r, std::max(-r, M_PI / 4 * (double)rndr(-40, 40) + (rndu() - 0.5) * 1e-3));
        case 2: return (rndu() - 0.5) * 14;
        default: return (rndu() - 0.5) * 2 * r;
    }
}
static double comp() { int k = rnd() % 8; return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : k == 3 ? (double)rndr(-4, 4) : (rndu() - 0.5) * std::pow(10.0, (double)rndr(-6, 6)); }
void search() {
    for (auto& m : hints_) { double x = 0, y = 0; if (hintd(m, "x", x) && hintd(m, "y", y) && (x || y)) { CASE("fastAtan2(%.17g, %.17g)", x, y); CHECK(fabs(fastAtan2(x, y) - atan2(y, x)) <= 1.7e-5, "error"); } }
    while (time_left()) {
        watch(30);
        for (int q = 0; q < 3000; ++q) {
            double x = arg(rnd() % 2 ? 1e6 : 100), c, s;
            CASE("fastCosSin(%.17g)", x);
            fastCosSin(x, c, s);
            CHECK(fabs(c - cos(x)) <= 0.0012, "cosine %.9g, expected %.9g", c, cos(x));
            CHECK(fabs(s - sin(x)) <= 0.0012, "sine %.9g, expected %.9g", s, sin(x));
            float xf = (float)arg(500), cf, sf;
            CASE("fastCosSinf(%.9g)", xf);
            fastCosSinf(xf, cf, sf);
            CHECK(fabs(cf - cos((double)xf)) <= 0.00125, "cosine %.9g, expected %.9g", cf, cos((double)xf));
            CHECK(fabs(sf - sin((double)xf)) <= 0.00125, "sine %.9g, expected %.9g", sf, sin((double)xf));
            double z = rnd() % 9 == 0 ? (double)rndr(-1, 1) : rndu() * 2 - 1;
            CASE("fastAtan(%.17g)", z);
            CHECK(fabs(fastAtan(z) - atan(z)) <= 1.5e-5, "%.9g, expected %.9g", fastAtan(z), atan(z));
            CASE("fastAtanf(%.9g)", (float)z);
            CHECK(fabs(fastAtanf((float)z) - atan((double)(float)z)) <= 1.6e-5, "%.9g, expected %.9g", fastAtanf((float)z), atan((double)(float)z));
            double a = comp(), b = rnd() % 6 ? comp() : rnd() % 2 ? a : -a;
            if (a == 0 && b == 0) continue;
            CASE("fastAtan2(%.17g, %.17g)", a, b);
            CHECK(fabs(fastAtan2(a, b) - atan2(b, a)) <= 1.6e-5, "%.9g, expected %.9g", fastAtan2(a, b), atan2(b, a));
            float af = (float)a, bf = (float)b;
            CASE("fastAtan2f(%.9g, %.9g)", af, bf);
            CHECK(fabs(fastAtan2f(af, bf) - atan2((double)bf, (double)af)) <= 1.75e-5, "%.9g, expected %.9g", fastAtan2f(af, bf), atan2((double)bf, (double)af));
        }
    }
}
