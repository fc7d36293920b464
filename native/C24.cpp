#include "rvc_native.h"
#include "geometry/src/gis.cpp"
using namespace rofl;
static double deg(double m) { int k = rnd() % 6; return k == 0 ? (double)rndr(-9, 9) / 9.0 * m : k == 1 ? (double)rndr(-6, 6) / 6.0 * m : (rndu() * 2 - 1) * m; }
void search() {
    const double A = 6378137.0, E2 = 0.00669437999014, D = M_PI / 180;
    while (time_left()) {
        watch(30);
        for (int q = 0; q < 3000; ++q) {
            float lat = (float)deg(90), lon = (float)deg(180), alt = rnd() % 3 ? 0.0f : (float)(rndu() * 10000);
            double s = sin(lat * D), c = cos(lat * D), w = sqrt(1 - E2 * s * s);
            CASE("meterPerDegLon(%.9g)", lat);
            CHECK(fabs(meterPerDegLon(lat) - D * A * c / w) <= 3.1, "%.9g m, on the ellipsoid %.9g m", meterPerDegLon(lat), D * A * c / w);
            CASE("meterPerDegLat(%.9g)", lat);
            CHECK(fabs(meterPerDegLat(lat) - D * A * (1 - E2) / (w * w * w)) <= 10.1, "%.9g m, on the ellipsoid %.9g m", meterPerDegLat(lat), D * A * (1 - E2) / (w * w * w));
            CASE("convertLatLonAltToECEF(%.9g, %.9g, %.9g)", lat, lon, alt);
            float x, y, z;
            convertLatLonAltToECEF(lat, lon, alt, x, y, z);
            double N = A / w, ex = (N + alt) * c * cos(lon * D), ey = (N + alt) * c * sin(lon * D), ez = ((1 - E2) * N + alt) * s;
            CHECK(fabs(x - ex) <= 6 && fabs(y - ey) <= 6 && fabs(z - ez) <= 6, "(%.9g, %.9g, %.9g), expected (%.9g, %.9g, %.9g)", x, y, z, ex, ey, ez);
            float la0 = (float)deg(85), lo0 = (float)deg(180), sp = rnd() % 3 ? 1.0f : 60.0f, la = la0 + sp * (float)(rndu() - 0.5), lo = lo0 + sp * (float)(rndu() - 0.5);
            CASE("local coordinates of (%.9g, %.9g) with origin (%.9g, %.9g)", la, lo, la0, lo0);
            convertLatLonToLocalXY(la0, lo0, la, lo, x, y);
            double s0 = sin(la0 * D), c0 = cos(la0 * D), w0 = sqrt(1 - E2 * s0 * s0);
            double xx = ((double)lo - lo0) * D * A * c0 / w0, yy = ((double)la - la0) * D * A * (1 - E2) / (w0 * w0 * w0);
            CHECK(fabs(x - xx) <= 4 * sp && fabs(y - yy) <= 11 * sp, "(%.9g, %.9g) m, expected about (%.9g, %.9g) m", x, y, xx, yy);
            float la2, lo2;
            convertLocalXYToLatLon(la0, lo0, x, y, la2, lo2);
            CHECK(fabs(la2 - la) <= 2e-4 && fabs(lo2 - lo) <= 2e-4, "round trip returns (%.9g, %.9g)", la2, lo2);
        }
    }
}
