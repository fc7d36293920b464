#include "rvc_native.h"
#include "geometry/src/base_geometry2.cpp"
using namespace rofl;
static float co() { return rnd() % 3 ? (float)rndr(-50, 50) : (float)((rndu() - 0.5) * 200); }
void search() {
    while (time_left()) {
        watch(30);
        for (int q = 0; q < 2000; ++q) {
            Vector2 a(co(), co()), b(co(), co()), c(co(), co());
            if (rnd() % 4 == 0) b = a;
            if (rnd() % 4 == 0) c = 2 * b - a;
            CASE("ccw((%.9g,%.9g),(%.9g,%.9g),(%.9g,%.9g))", a(0), a(1), b(0), b(1), c(0), c(1));
            double e = (double)a(0) * ((double)b(1) - c(1)) + (double)b(0) * ((double)c(1) - a(1)) + (double)c(0) * ((double)a(1) - b(1));
            float r = ccw(a, b, c);
            CHECK(fabs(r - e) <= 1e-6 * 6e4, "returned %.9g, twice the signed area is %.9g", r, e);
            float x = co(), y = co(), t = (float)((rndu() - 0.5) * 20);
            if (rnd() % 5 == 0) t = (float)(M_PI / 2 * (double)rndr(-4, 4));
            CASE("poseToIsometry2(%.9g, %.9g, %.9g)", x, y, t);
            Transform2 T, U;
            T.matrix().setConstant(rnd() % 2 ? 7 : -3);
            poseToIsometry2(x, y, t, T);
            U.matrix().setConstant(5);
            poseToIsometry2(Vector3(x, y, t), U);
            double m[9] = {cos((double)t), -sin((double)t), x, sin((double)t), cos((double)t), y, 0, 0, 1};
            for (int i = 0; i < 9; ++i) {
                CHECK(fabs(T.matrix()(i / 3, i % 3) - m[i]) <= 1e-4, "entry (%d,%d) is %.9g, expected %.9g", i / 3, i % 3, T.matrix()(i / 3, i % 3), m[i]);
                CHECK(T.matrix()(i / 3, i % 3) == U.matrix()(i / 3, i % 3), "overloads differ at (%d,%d)", i / 3, i % 3);
            }
        }
    }
}
