// Hough plane detector: the real source, compiled from /repo's working tree, and clients of it
#include "geometry/src/hough_plane_detector.cpp"
using namespace rofl;
using HPD = HoughPlaneDetector;
void hp_set(HPD& d, int tn, int fn, int rn, float tm, float fm, float rm, float tr, float fr, float rr) {
    d.thetaNum_ = tn; d.phiNum_ = fn; d.rhoNum_ = rn; d.thetaMin_ = tm; d.phiMin_ = fm; d.rhoMin_ = rm; d.thetaRes_ = tr; d.phiRes_ = fr; d.rhoRes_ = rr;
}
void hp_get(const HPD& d, int* n, float* v) {
    n[0] = d.getThetaNum(); n[1] = d.getPhiNum(); n[2] = d.getRhoNum();
    v[0] = d.getThetaMin(); v[1] = d.getPhiMin(); v[2] = d.getRhoMin(); v[3] = d.getThetaRes(); v[4] = d.getPhiRes(); v[5] = d.getRhoRes();
}
void hp_plane(const HPD& d, int a, int b, int c, float* out) { HPD::PlaneParam p = d.getPlaneParam(a, b, c); for (int i = 0; i < 4; ++i) out[i] = p(i); }
void hp_plane_idx(const HPD& d, int a, int b, int c, float* out) { HPD::Indices3 ix = {a, b, c}; HPD::PlaneParam p = d.getPlaneParam(ix); for (int i = 0; i < 4; ++i) out[i] = p(i); }
size_t hp_ht(const HPD& d, int a, int b, int c) { return d.getHoughTransform(a, b, c); }
size_t hp_ht_idx(const HPD& d, int a, int b, int c) { HPD::Indices3 ix = {a, b, c}; return d.getHoughTransform(ix); }
size_t hp_hs(const HPD& d, int a, int b) { return d.getHoughSpectrum(a, b); }
size_t hp_hs_idx(const HPD& d, int a, int b) { HPD::Indices2 ix = {a, b}; return d.getHoughSpectrum(ix); }
void hp_normal(const HPD& d, int a, int b, float* out) { const Vector3& n = d.getNormal(a, b); for (int i = 0; i < 3; ++i) out[i] = n(i); }
void hp_normal_idx(const HPD& d, int a, int b, float* out) { HPD::Indices2 ix = {a, b}; const Vector3& n = d.getNormal(ix); for (int i = 0; i < 3; ++i) out[i] = n(i); }
void hp_init(HPD& d, int tn, int fn, int rn, float rr) { d.init(tn, fn, rn, rr); }
void hp_init3(HPD& d, int tn, int fn, int rn, const Vector3& mn, const Vector3& res) { HPD::Indices3 ix = {tn, fn, rn}; d.init(ix, mn, res); }
struct Keep { const Vector3& operator()(const Vector3& v) const { return v; } };
void hp_insert_range(HPD& d, const Vector3* b, const Vector3* e) { d.insert(b, e, Keep()); }
