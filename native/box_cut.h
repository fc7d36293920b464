// the registration itself (SVD, eigenvectors) is not instantiated: it takes minutes to compile and is not under test here
namespace rofl {
#define CUT(S, D) \
    template <> void BoxRegistration<S, D>::computeTransform(const VectorPoint&, Transform&) {} \
    template <> void BoxRegistration<S, D>::estimateInitTranform(const VectorPoint&, Transform&) const {}
CUT(float, 2) CUT(float, 3) CUT(double, 2) CUT(double, 3)
}
