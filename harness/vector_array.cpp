// VectorArray: the real header, instantiated for int and double components in 1 to 4 dimensions
#include <cstddef>
#include <cstdlib>
#include "common/include/rofl/common/vector_array.h"
using namespace rofl;
#define INST(N, T, D) \
    using A##N = std::array<T, D>; using V##N = VectorArray<T, D>; \
    static void set_##N(V##N& v, const A##N& a) { for (size_t d = 0; d < D; ++d) v(d) = a[d]; } \
    static void get_##N(const V##N& v, A##N& a) { for (size_t d = 0; d < D; ++d) a[d] = v(d); } \
    void va_add_##N(const A##N& a, const A##N& b, A##N& o, A##N& p, A##N& q) { V##N x, y; set_##N(x, a); set_##N(y, b); get_##N(x + y, o); get_##N(x, p); get_##N(y, q); } \
    void va_sub_##N(const A##N& a, const A##N& b, A##N& o, A##N& p, A##N& q) { V##N x, y; set_##N(x, a); set_##N(y, b); get_##N(x - y, o); get_##N(x, p); get_##N(y, q); } \
    void va_mul_##N(const A##N& a, const A##N& b, A##N& o, A##N& p, A##N& q) { V##N x, y; set_##N(x, a); set_##N(y, b); get_##N(x * y, o); get_##N(x, p); get_##N(y, q); } \
    void va_div_##N(const A##N& a, const A##N& b, A##N& o, A##N& p, A##N& q) { V##N x, y; set_##N(x, a); set_##N(y, b); get_##N(x / y, o); get_##N(x, p); get_##N(y, q); } \
    void va_scale_##N(const A##N& a, const T& s, A##N& o, A##N& p) { V##N x; set_##N(x, a); get_##N(x * s, o); get_##N(x, p); } \
    void va_copy_##N(const A##N& a, A##N& o, A##N& p) { V##N x; set_##N(x, a); V##N y(x); get_##N(y, o); y = x; get_##N(y, p); } \
    void va_elem_##N(const A##N& a, size_t d, T& o, T& p) { V##N x; set_##N(x, a); const V##N& c = x; o = c(d); p = c[d]; } \
    void va_put_##N(const A##N& a, size_t d, const T& s, A##N& o) { V##N x; set_##N(x, a); x(d) = s; for (size_t k = 0; k < D; ++k) o[k] = x[k]; } \
    void va_iadd_##N(const A##N& a, const A##N& b, A##N& o, A##N& p, A##N& q) { V##N x, y; set_##N(x, a); set_##N(y, b); V##N& r = (x += y); get_##N(x, o); r += y; get_##N(x, p); get_##N(y, q); } \
    void va_imul_##N(const A##N& a, const A##N& b, A##N& o, A##N& p, A##N& q) { V##N x, y; set_##N(x, a); set_##N(y, b); V##N& r = (x *= y); get_##N(x, o); r *= y; get_##N(x, p); get_##N(y, q); } \
    void va_iscale_##N(const A##N& a, const T& s, A##N& o, A##N& p) { V##N x; set_##N(x, a); V##N& r = (x *= s); get_##N(x, o); r *= s; get_##N(x, p); } \
    void va_self_##N(const A##N& a, size_t d, A##N& o, A##N& p, A##N& q) { V##N x, y, z; set_##N(x, a); set_##N(y, a); set_##N(z, a); x += x; y *= y; z *= z(d); get_##N(x, o); get_##N(y, p); get_##N(z, q); }
INST(i1, int, 1) INST(i2, int, 2) INST(i3, int, 3)
INST(d1, double, 1) INST(d2, double, 2) INST(d3, double, 3) INST(d4, double, 4) INST(f2, float, 2)
