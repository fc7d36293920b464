#include "rvc_native.h"
#define K_2PI K_2PI_common   // both headers declare rofl::K_2PI
#include "common/src/functions.cpp"
#undef K_2PI
#include "geometry/src/base_geometry2.cpp"
using namespace rofl;
template <typename T> static T angle() {
    T p = (T)(M_PI / 2), x;
    switch (rnd() % 8) {
        case 0: return (T)rndr(-40, 40) * p;
        case 1: x = (T)rndr(-40, 40) * p; for (int i = rnd() % 4; i >= 0; --i) x = std::nextafter(x, (T)(rnd() % 2 ? 1e9 : -1e9)); return x;
        case 2: return (T)((rnd() % 2 ? 1 : -1) * std::pow(10.0, -(double)(rnd() % 36)));
        case 3: return (T)((rndu() - 0.5) * 1e6);
        case 4: return (T)((rndu() - 0.5) * std::pow(10.0, (double)(rnd() % 30)));
        default: return (T)((rndu() - 0.5) * 40);
    }
}
template <typename T> static void norm(T x, T r, T per, const char* nm) {
    CASE("%s(%.17g)", nm, (double)x);
    CHECK(r >= 0 && r < per, "result %.17g is not within [0, %.17g)", (double)r, (double)per);
    if (std::fabs(x) > 1e4) return;
    double d = ((double)x - (double)r) / (double)per, eps = 16 * std::numeric_limits<T>::epsilon() * (std::fabs((double)x) + 7);
    CHECK(std::fabs(d - std::round(d)) <= eps, "result %.17g is another angle", (double)r);
}
static double mod(double x) { double p = K_2PI; double r = std::fmod(x, p); return r < 0 ? r + p : r; }
void search() {
    while (time_left()) {
        watch(30);
        for (int q = 0; q < 2000; ++q) {
            double x = angle<double>();
            norm(x, normalize360(x), 2 * M_PI, "normalize360");
            norm(x, normalize180(x), M_PI, "normalize180");
            float f = angle<float>();
            norm(f, normalizeAngle2Pi(f), (float)(2 * M_PI), "normalizeAngle2Pi");
            float a = (float)((rndu() - 0.5) * 30), b = (float)((rndu() - 0.5) * 30), e = (float)((rndu() - 0.5) * 30);
            if (rnd() % 3 == 0) { a = (float)rndr(-16, 16) / 4; b = (float)rndr(-16, 16) / 4; e = (float)rndr(-16, 16) / 4; }
            CASE("insideAngleInterval(%.9g, %.9g, %.9g)", a, b, e);
            double u = mod((double)a - b), v = mod((double)e - b), tol = 1e-4;
            bool edge = std::fabs(u - v) < tol || u < tol || v < tol || K_2PI - u < tol || K_2PI - v < tol;
            bool r1 = insideAngleInterval(a, b, e), r2 = insideAngleInterval(a, AngleInterval(b, e)), r3 = insideAngleIntervalEq(a, b, e);
            CHECK(r1 == r2, "the two overloads differ");
            CHECK(!r1 || r3, "inside the open but not the closed interval");
            if (!edge) { CHECK(r1 == (u < v), "returned %d", r1); CHECK(r3 == (u <= v), "Eq returned %d", r3); }
            if (a == b) { CHECK(insideAngleIntervalEq(a, b, e), "the begin of the interval is not inside (Eq)"); if (v > tol && K_2PI - v > tol) CHECK(r1, "the begin of the interval is not inside"); }
            int px = (int)rndr(-9, 9), py = (int)rndr(-9, 9), bx = (int)rndr(-9, 9), by = (int)rndr(-9, 9), ex = (int)rndr(-9, 9), ey = (int)rndr(-9, 9);
            if ((px || py) && (bx || by) && (ex || ey)) {
                CASE("insideAngleInterval(%d, %d, (%d, %d), (%d, %d))", px, py, bx, by, ex, ey);
                bool onb = bx * py == by * px && bx * px + by * py > 0, one = ex * py == ey * px && ex * px + ey * py > 0, none = bx * ey == by * ex && bx * ex + by * ey > 0;
                double ub = mod(std::atan2(py, px) - std::atan2(by, bx)), ue = mod(std::atan2(ey, ex) - std::atan2(by, bx));
                bool r = insideAngleInterval((float)px, (float)py, Vector2(bx, by), Vector2(ex, ey));
                if (!onb && !one) CHECK(r == (!none && ub < ue), "returned %d", r);
            }
            CASE("insideAngleInterval(%.9g, %.9g, %.9g)", a, b, e);
            if (a == e) { CHECK(!r1, "the end is inside"); CHECK(r3, "the end is not inside (Eq)"); }
        }
    }
}
