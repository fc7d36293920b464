P = "common/src/profiler.cpp"
HP = '#include "common/src/profiler.cpp"\n#include <cstdio>\n#include <cmath>\n#include <sstream>\nusing namespace rofl;\nstatic bool stat(const char* l, double& a, double& v, double& mn, double& mx, double& n) { std::stringstream s; s.precision(17); Profiler::getProfiler().printStats(s); std::string x; while (s >> x >> a >> v >> mn >> mx >> n) if (x == l) return true; return false; }\n'
B = "geometry/include/rofl/geometry/box_registration.h"
HB = '#include <iostream>\n#include <rofl/geometry/box_registration.h>\nnamespace rofl {\ntemplate <> void BoxRegistration<float, 2>::computeTransform(const VectorPoint&, Transform&) {}\ntemplate <> void BoxRegistration<float, 2>::estimateInitTranform(const VectorPoint&, Transform&) const {}\ntemplate <> void BoxRegistration<float, 3>::computeTransform(const VectorPoint&, Transform&) {}\ntemplate <> void BoxRegistration<float, 3>::estimateInitTranform(const VectorPoint&, Transform&) const {}\n}\nusing namespace rofl;\n'
H = "geometry/src/hough_plane_detector.cpp"
HH = '#include "geometry/src/hough_plane_detector.cpp"\n#include "common/src/profiler.cpp"\n#include <cstdio>\nusing namespace rofl;\n'
SEEDS = [
 dict(id="C23-stale-spectrum", property="C23", needs="two inserts on one detector", breaks="the spectrum adds the squares of the counts to its previous value, so a second insert counts the first one's again",
      edits=[(H, "                hsVal = 0;\n", "")],
      demo=HH + 'int main(){ std::cout.setstate(std::ios_base::failbit); HoughPlaneDetector d(2,8,9,0.5f); VectorVector3 p(1,Vector3(0.1f,0.1f,0.1f)); d.insert(p); d.insert(p); size_t q=0; for(int r=0;r<9;++r) q+=d.getHoughTransform(0,0,r)*d.getHoughTransform(0,0,r); return d.getHoughSpectrum(0,0)==q ? 0 : 1; }\n'),
 dict(id="C23-offset-odd", property="C23", needs="default ranges with an odd number of distance bins", breaks="the distances are centred on a bin instead of on a bin border",
      edits=[(H, "paramMin << 0.0, 0.0, -(rhoNum / 2) * rhoRes;", "paramMin << 0.0, 0.0, -(0.5 * rhoNum) * rhoRes;")],
      demo=HH + 'int main(){ std::cout.setstate(std::ios_base::failbit); HoughPlaneDetector d(2,8,9,0.5f); HoughPlaneDetector::Indices3 i={0,0,4}; return std::fabs(d.getRhoMin()+2)<1e-6 && std::fabs(d.getPlaneParam(i)(3))<1e-6 ? 0 : 1; }\n'),
 dict(id="C23-last-bin", property="C23", needs="a point in the last distance bin", breaks="the last bin stays empty",
      edits=[(H, "indicesAngle[2] < rhoNum_) {", "indicesAngle[2] + 1 < rhoNum_) {")],
      demo=HH + 'int main(){ std::cout.setstate(std::ios_base::failbit); HoughPlaneDetector d(1,8,4,0.5f); VectorVector3 p(1,Vector3(0.75f,0,0)); d.insert(p); return d.getHoughTransform(0,0,3)==1 ? 0 : 1; }\n'),

 dict(id="C20-min-else-max", property="C20", needs="a maximum that is the second time recorded under its label", breaks="the second time recorded under a label never becomes its maximum",
      edits=[(P, "if (time > it->second.timeMax) {", "if (time > it->second.timeMax && it->second.count > 1) {")],
      demo=HP + 'int main(){ Profiler& p=Profiler::getProfiler(); p.updateStat("a",1); p.updateStat("a",5); p.updateStat("a",2); double a,v,mn,mx,n; return stat("a",a,v,mn,mx,n) && mx==5 ? 0 : 1; }\n'),
 dict(id="C20-short-times", property="C20", needs="a time of exactly 0 recorded under a known label", breaks="times of 0 are not counted after the first",
      edits=[(P, "it->second.count++;", "if (time != 0.0) {\n                it->second.count++;\n            }")],
      demo=HP + 'int main(){ Profiler& p=Profiler::getProfiler(); p.updateStat("a",1); p.updateStat("a",0); double a,v,mn,mx,n; return stat("a",a,v,mn,mx,n) && n==2 ? 0 : 1; }\n'),
 dict(id="C22-tie-sign", property="C22", needs="a query inside the box with a coordinate between -half a unit and 0, nearest in that dimension", breaks="the face on the wrong side is taken",
      edits=[(B, "if (query(d) < 0.0) {", "if (query(d) < -0.5) {")],
      demo=HB + 'int main(){ std::cout.setstate(std::ios_base::failbit); BoxRegistration2f b; b.setDimension(BoxRegistration2f::Point(2,20)); BoxRegistration2f::Point n; b.associate(BoxRegistration2f::Point(-0.3f,0),n); return std::fabs(n(0)+1)<1e-5 ? 0 : 1; }\n'),
 dict(id="C22-first-dim", property="C22", needs="a query inside the box that is nearer to a face of a later dimension, after a nearer one of an earlier dimension", breaks="every later dimension nearer than the first replaces the nearest so far",
      edits=[(B, "                    distNearest = dist;\n                    dimNearest = d;", "                    if (dimNearest < 0) {\n                        distNearest = dist;\n                    }\n                    dimNearest = d;")],
      demo=HB + 'int main(){ std::cout.setstate(std::ios_base::failbit); BoxRegistration3f b; b.setDimension(BoxRegistration3f::Point(10,2,6)); BoxRegistration3f::Point n; b.associate(BoxRegistration3f::Point(0,0,0),n); return n(0)==0 && n(2)==0 && std::fabs(n(1))==1 ? 0 : 1; }\n'),
]
