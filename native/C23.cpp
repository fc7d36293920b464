#include "rvc_native.h"
#include <rofl/geometry/hough_plane_detector.h>
#include "geometry/src/hough_plane_detector.cpp"
#include "common/src/profiler.cpp"
using namespace rofl;
using HPD = HoughPlaneDetector;
static void one() {
    int tn = rndr(1, 5), fn = rndr(1, 10), rn = rndr(1, 8), np = rndr(0, 6), mode = rnd() % 2;
    bool exact = rnd() % 2;
    float rr = exact ? 0.5f : (float)(0.05 + rndu()), tm = 0, fm = 0, rm, tr, fr;
    HPD d;
    char buf[1500];
    bool used = rnd() % 3 == 0;
    CASE("detector init and insert");
    if (used) {
        d.init(tn, fn, rn, rr);
        VectorVector3 some(3, Vector3(0.1f, 0.2f, 0.1f));
        d.insert(some);
    }
    if (mode) {
        d.init(tn, fn, rn, rr);
        rm = -(rn / 2) * rr, tr = M_PI / 2 / tn, fr = 2 * M_PI / fn;
    } else {
        rm = exact ? rndr(-6, 6) * 0.5f : (float)(4 * rndu() - 2);
        if (rnd() % 2) tm = (float)(rndu() - 0.5), fm = (float)(2 * rndu());
        tr = (float)(0.1 + rndu()), fr = (float)(0.1 + rndu());
        Vector3 mn, rs;
        mn << tm, fm, rm;
        rs << tr, fr, rr;
        HPD::Indices3 n3 = {tn, fn, rn};
        d.init(n3, mn, rs);
    }
    int len = snprintf(buf, sizeof buf, "%s bins %d %d %d min %.9g %.9g %.9g res %.9g %.9g %.9g points", mode ? "default ranges" : "ranges", tn, fn, rn, tm, fm, rm, tr, fr, rr);
    VectorVector3 pts, pts2;
    for (int i = 0; i < np; ++i) {
        Vector3 p;
        for (int j = 0; j < 3; ++j) p(j) = exact ? rndr(-16, 16) * 0.25f : (float)(8 * rndu() - 4);
        pts.push_back(p);
        len += snprintf(buf + len, sizeof buf - len, " (%.9g %.9g %.9g)", p(0), p(1), p(2));
    }
    int first = np ? (int)rndr(0, np) : 0;  // inserted in two calls
    bool range = rnd() % 3 == 0;
    CASE("%s, %s", buf, range ? "range" : first < np && first > 0 ? "two inserts" : "one insert");
    if (used) strcat(cur_, ", initialised a second time");
    for (int t = 0; t < tn; ++t) for (int f = 0; f < fn; ++f) {
        CHECK(d.getHoughSpectrum(t, f) == 0, "spectrum %d %d after init", t, f);
        for (int r = 0; r < rn; ++r) CHECK(d.getHoughTransform(t, f, r) == 0, "bin %d %d %d after init", t, f, r);
    }
    CHECK(d.getThetaNum() == tn && d.getPhiNum() == fn && d.getRhoNum() == rn, "numbers of bins");
    auto near_ = [](double a, double b) { return std::fabs(a - b) < 1e-5; };
    CHECK(near_(d.getThetaMin(), tm) && near_(d.getPhiMin(), fm) && near_(d.getRhoMin(), rm) && near_(d.getThetaRes(), tr) && near_(d.getPhiRes(), fr) && near_(d.getRhoRes(), rr), "parameters");
    if (range) {
        d.insert(pts);
        d.insert(pts.begin(), pts.end(), [](const Vector3& v) -> Vector3 { return v; });
    } else {
        VectorVector3 a(pts.begin(), pts.begin() + first), b(pts.begin() + first, pts.end());
        if (first) d.insert(a);
        if (first < np || !first) d.insert(b);
    }
    for (int t = 0; t < tn; ++t) for (int f = 0; f < fn; ++f) {
        double th = tm + (double)tr * t, ph = fm + (double)fr * f;
        Vector3 n = d.getNormal(t, f), n2 = d.getNormal({t, f});
        CHECK(n == n2, "getNormal overloads differ");
        CHECK(near_(n(0), cos(th) * cos(ph)) && near_(n(1), cos(th) * sin(ph)) && near_(n(2), sin(th)), "normal of direction %d %d is (%.9g %.9g %.9g)", t, f, n(0), n(1), n(2));
        bool ex = exact && n(0) == 1 && n(1) == 0 && n(2) == 0;
        size_t sq = 0;
        for (int r = 0; r < rn; ++r) {
            size_t lo = 0, hi = 0, c = d.getHoughTransform(t, f, r);
            HPD::Indices3 ix = {t, f, r};
            CHECK(c == d.getHoughTransform(ix), "getHoughTransform overloads differ");
            for (auto& p : pts) {
                double x = ((double)n(0) * p(0) + (double)n(1) * p(1) + (double)n(2) * p(2) - (double)d.getRhoMin()) / d.getRhoRes(), e = ex ? 0 : 1e-3;
                lo += x >= r + e && x < r + 1 - e;
                hi += x >= r - e && x < r + 1 + e;
            }
            CHECK(lo <= c && c <= hi, "bin %d %d %d counts %zu points, expected %zu..%zu", t, f, r, c, lo, hi);
            sq += c * c;
            HPD::PlaneParam q = d.getPlaneParam(t, f, r), q2 = d.getPlaneParam(ix);
            for (int i = 0; i < 4; ++i) CHECK(near_(q(i), i < 3 ? n(i) : -(rm + (double)rr * r)) && near_(q2(i), q(i)), "plane of bin %d %d %d: (%.9g %.9g %.9g %.9g) and (%.9g %.9g %.9g %.9g)", t, f, r, q(0), q(1), q(2), q(3), q2(0), q2(1), q2(2), q2(3));
        }
        HPD::Indices2 i2 = {t, f};
        CHECK(d.getHoughSpectrum(t, f) == sq && d.getHoughSpectrum(i2) == sq, "spectrum of direction %d %d is %zu, expected %zu", t, f, d.getHoughSpectrum(t, f), sq);
    }
    d.setZero();
    for (int t = 0; t < tn; ++t) for (int f = 0; f < fn; ++f) {
        CHECK(d.getHoughSpectrum(t, f) == 0, "spectrum %d %d after setZero", t, f);
        for (int r = 0; r < rn; ++r) CHECK(d.getHoughTransform(t, f, r) == 0, "bin %d %d %d after setZero", t, f, r);
    }
}
void search() {
    std::cout.setstate(std::ios_base::failbit);
    while (time_left()) { watch(30); for (int k = 0; k < 50; ++k) one(); }
}
