#include "rvc_native.h"
#include <array>
#include <rofl/common/vector_array.h>
using namespace rofl;
// oracle: the operation on each component, by plain arithmetic
template <typename T, size_t D> static void one(const char* nm) {
    using V = VectorArray<T, D>;
    T a[D], b[D], s = (T)rndr(-9, 9);
    V x, y;
    std::string h = nm;
    for (size_t d = 0; d < D; ++d) {
        a[d] = (T)rndr(-20, 20); b[d] = (T)rndr(-20, 20);
        if (b[d] == 0) b[d] = 3;
        x(d) = a[d]; y[d] = b[d];
        h += " (" + std::to_string(a[d]) + ", " + std::to_string(b[d]) + ")";
    }
    h += " scalar " + std::to_string(s);
    size_t e = rnd() % D;
    CASE("%s", h.c_str());
    const V cx(x), cy(y);
    V add = cx + cy, sub = cx - cy, mul = cx * cy, div = cx / cy, sc = cx * s, ia(x), im(x), is(x), sa(x), sm(x), se(x), ra(x), rm(x), rs(x), as;
    ia += cy; im *= cy; is *= s; sa += sa; sm *= sm; se *= se(e);
    V &qa = (ra += cy), &qm = (rm *= cy), &qs = (rs *= s);
    qa += cy; qm *= cy; qs *= s;
    as = cx;
    for (size_t d = 0; d < D; ++d) {
        CHECK(cx(d) == a[d] && cy[d] == b[d] && as(d) == a[d], "component %zu: an operand or a copy differs", d);
        CHECK(add(d) == a[d] + b[d], "+: component %zu", d);
        CHECK(sub(d) == a[d] - b[d], "-: component %zu", d);
        CHECK(mul(d) == a[d] * b[d], "*: component %zu", d);
        CHECK(div(d) == a[d] / b[d], "/: component %zu", d);
        CHECK(sc(d) == a[d] * s, "scalar *: component %zu", d);
        CHECK(ia(d) == a[d] + b[d] && ra(d) == a[d] + b[d] + b[d], "+=: component %zu", d);
        CHECK(im(d) == a[d] * b[d] && rm(d) == a[d] * b[d] * b[d], "*=: component %zu", d);
        CHECK(is(d) == a[d] * s && rs(d) == a[d] * s * s, "scalar *=: component %zu", d);
        CHECK(sa(d) == a[d] + a[d] && sm(d) == a[d] * a[d], "v += v or v *= v: component %zu", d);
        CHECK(se(d) == a[d] * a[e], "v *= v(%zu): component %zu", e, d);
    }
}
void search() {
    while (time_left()) {
        watch(30);
        for (int k = 0; k < 500; ++k) {
            one<int, 1>("int 1D"); one<int, 2>("int 2D"); one<int, 3>("int 3D"); one<double, 1>("double 1D"); one<double, 2>("double 2D");
            one<double, 3>("double 3D"); one<double, 4>("double 4D"); one<float, 2>("float 2D"); one<long, 5>("long 5D");
        }
    }
}
