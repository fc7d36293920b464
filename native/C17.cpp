#include "rvc_native.h"
#include "common/src/functions.cpp"
using namespace rofl;
static const double P = M_PI;
static double ang(double r) {
    switch (rnd() % 6) {
        case 0: return P * (double)rndr(-8, 8) / 2;
        case 1: return P * (double)rndr(-8, 8) / 2 + (rndu() - 0.5) * 1e-3;
        case 2: return 0.0;
        case 3: return P * (double)rndr(-20, 20) / 6;
        default: return (rndu() - 0.5) * 2 * r;
    }
}
static double coef() { int k = rnd() % 8; return k == 0 ? 0.0 : k == 1 ? -1.0 : k == 2 ? (double)rndr(-3, 3) : (rndu() - 0.5) * 4; }
static void lucos(double a, double b) {
    CASE("findLUCos(%.17g, %.17g)", a, b);
    double mn = 5, mx = -5;
    findLUCos(a, b, mn, mx);
    double l = std::min(a, b), h = std::max(a, b), emn = std::min(cos(l), cos(h)), emx = std::max(cos(l), cos(h)), tol = 1e-9 + 1e-14 * (fabs(a) + fabs(b));
    double kl = floor(l / P), kh = ceil(h / P);
    if (kh - kl < 20) { for (double k = kl; k <= kh; ++k) if (l <= k * P && k * P <= h) { double c = fmod(fabs(k), 2) == 0 ? 1 : -1; emn = std::min(emn, c); emx = std::max(emx, c); } }
    else { emn = -1; emx = 1; }
    CHECK(fabs(mn - emn) <= tol, "lower bound %.17g, minimum %.17g", mn, emn);
    CHECK(fabs(mx - emx) <= tol, "upper bound %.17g, maximum %.17g", mx, emx);
}
void search() {
    for (auto& m : hints_) { double a = 0, b = 0; if (hintd(m, "a", a) && hintd(m, "b", b)) lucos(a, b); }
    while (time_left()) {
        watch(30);
        for (int q = 0; q < 200; ++q) {
            double a = ang(30), b = rnd() % 3 ? ang(30) : a + (rndu() - 0.3) * 7;
            lucos(a, b);
            if (rnd() % 50 == 0) lucos((rndu() - 0.5) * 1e5, (rndu() - 0.5) * 1e5);
        }
        int n = rnd() % 16 == 0 ? 60 : (int)rndr(1, 6);
        std::vector<double> c;
        std::string cs;
        for (int i = 0; i < 2 * n; ++i) { c.push_back(coef()); if (rnd() % 3 == 0) c.back() = 0; char s[40]; snprintf(s, 40, "%.6g ", c.back()); cs += s; }
        double x = ang(10);
        CASE("evaluateFourier(coeffs={%.2000s}, %.17g)", cs.c_str(), x);
        std::vector<double> c0 = c;
        double v = evaluateFourier(c, x), e = 0, mag = 1;
        for (int k = 0; k < n; ++k) { e += c[2 * k] * cos(k * x) + c[2 * k + 1] * sin(k * x); mag += fabs(c[2 * k]) + fabs(c[2 * k + 1]); }
        CHECK(fabs(v - e) <= 1e-9 * mag, "value %.17g, the series is %.17g", v, e);
        double t0 = ang(6), t1 = rnd() % 3 ? t0 + (rndu() - 0.3) * 2 : ang(6), lo = 1e9, hi = -1e9;
        CASE("findLUFourier(coeffs={%.2000s}, %.17g, %.17g)", cs.c_str(), t0, t1);
        findLUFourier(c, t0, t1, lo, hi);
        for (int j = 0; j <= 300; ++j) {
            double t = j == 300 ? t1 : t0 + (t1 - t0) * j / 300.0, s = 0;
            for (int k = 0; k < n; ++k) s += c[2 * k] * cos(2 * k * t) + c[2 * k + 1] * sin(2 * k * t);
            CHECK(lo <= s + 1e-9 * mag && s <= hi + 1e-9 * mag, "value %.17g at %.17g is outside [%.17g, %.17g]", s, t, lo, hi);
        }
        CHECK(c == c0, "coefficients changed");
    }
}
