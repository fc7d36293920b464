#include "rvc_native.h"
#include <rofl/geometry/box_registration.h>
#include "../native/box_cut.h"
using namespace rofl;
template <typename S, int D> static void one(const char* nm) {
    BoxRegistration<S, D> box;
    typename BoxRegistration<S, D>::Point q, n, dim;
    double h[3], s = 0, best = 1e300;
    bool small = rnd() % 2;
    char buf[256];
    int len = snprintf(buf, sizeof buf, "%s dim (", nm);
    for (int i = 0; i < D; ++i) { dim(i) = small ? (S)rndr(0, 6) : (S)(rndu() * 10); h[i] = 0.5 * (double)dim(i); len += snprintf(buf + len, sizeof buf - len, "%.9g ", (double)dim(i)); }
    len += snprintf(buf + len, sizeof buf - len, ") query (");
    for (int i = 0; i < D; ++i) { q(i) = small ? (S)(rndr(-16, 16) / 4.0) : (S)((rndu() - 0.5) * 14); len += snprintf(buf + len, sizeof buf - len, "%.9g ", (double)q(i)); n(i) = (S)77; }
    CASE("%s)", buf);
    box.setDimension(dim);
    box.associate(q, n);
    // oracle: nearest point of each of the 2 D faces
    for (int f = 0; f < D; ++f) for (int sg = -1; sg <= 1; sg += 2) {
        double d2 = 0;
        for (int i = 0; i < D; ++i) { double p = i == f ? sg * h[i] : std::min(std::max((double)q(i), -h[i]), h[i]); d2 += (p - q(i)) * (p - q(i)); }
        best = std::min(best, d2);
    }
    double eps = sizeof(S) == 4 ? 1e-5 : 1e-12;
    bool on = false, in = true;
    for (int i = 0; i < D; ++i) { s += ((double)n(i) - q(i)) * ((double)n(i) - q(i)); on = on || std::fabs(std::fabs((double)n(i)) - h[i]) <= eps; in = in && std::fabs((double)n(i)) <= h[i] + eps; }
    CHECK(in, "the result is not in the box");
    CHECK(on, "the result is not on the surface");
    CHECK(std::sqrt(s) <= std::sqrt(best) + 4 * eps, "distance %.9g, the nearest surface point is at %.9g", std::sqrt(s), std::sqrt(best));
}
void search() {
    std::cout.setstate(std::ios_base::failbit);  // setDimension prints
    while (time_left()) {
        watch(30);
        for (int k = 0; k < 2000; ++k) { one<float, 2>("float 2"); one<double, 2>("double 2"); one<float, 3>("float 3"); one<double, 3>("double 3"); }
    }
}
