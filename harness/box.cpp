// box registration: the real header, instantiated as in box_registration.cpp
#include <iostream>
#include <rofl/geometry/box_registration.h>
#include "../native/box_cut.h"
using namespace rofl;
template <typename S, int D> static inline void assoc(const S* dim, const S* q, S* n) {
    BoxRegistration<S, D> box;
    typename BoxRegistration<S, D>::Point query, nearest, size;
    for (int i = 0; i < D; ++i) { size(i) = dim[i]; query(i) = q[i]; }
    box.setDimension(size);
    box.associate(query, nearest);
    for (int i = 0; i < D; ++i) n[i] = nearest(i);
}
void assoc2f(const float* dim, const float* q, float* n) { assoc<float, 2>(dim, q, n); }
void assoc3f(const float* dim, const float* q, float* n) { assoc<float, 3>(dim, q, n); }
void assoc2d(const double* dim, const double* q, double* n) { assoc<double, 2>(dim, q, n); }
void assoc3d(const double* dim, const double* q, double* n) { assoc<double, 3>(dim, q, n); }
