// basic planar geometry: the real translation unit
#include "geometry/src/base_geometry2.cpp"
using namespace rofl;
bool inside_interval(float a, float b, float e) { return insideAngleInterval(a, b, e); }
bool inside_interval_pair(float a, const AngleInterval& i) { return insideAngleInterval(a, i); }
bool inside_interval_eq(float a, float b, float e) { return insideAngleIntervalEq(a, b, e); }
bool inside_interval_vec(float x, float y, const Vector2& b, const Vector2& e) { return insideAngleInterval(x, y, b, e); }
float geom_ccw(const Vector2& a, const Vector2& b, const Vector2& c) { return ccw(a, b, c); }
void geom_pose(float x, float y, float t, float* out) { Transform2 T; poseToIsometry2(x, y, t, T); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) out[3 * r + c] = T.matrix()(r, c); }
void geom_pose3(const Vector3& p, float* out) { Transform2 T; poseToIsometry2(p, T); for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) out[3 * r + c] = T.matrix()(r, c); }
