F = "common/src/functions.cpp"
HF = '#include <rofl/common/functions.h>\n#include <cstdio>\n#include <cmath>\n#include <vector>\nusing namespace rofl;\n'
B = "geometry/src/base_geometry2.cpp"
HB = '#include "geometry/src/base_geometry2.cpp"\n#include <cstdio>\nusing namespace rofl;\n'
S = "geometry/src/gis.cpp"
HS = '#include "geometry/src/gis.cpp"\n#include <cstdio>\n#include <cmath>\nusing namespace rofl;\n'
HC = '#include "common/src/functions.cpp"\n#include <cstdio>\n#include <cmath>\n#include <vector>\nusing namespace rofl;\n'
SEEDS = [
 dict(id="C17-period-test", property="C17", needs="an interval between one and one and a quarter periods long", breaks="intervals longer than a period are reduced as if they were shorter, so the extrema inside are missed",
      edits=[(F, "if (b - a >= 2.0 * M_PI) {", "if (b - a >= 2.5 * M_PI) {")],
      demo=HC + 'int main(){ double l,u; findLUCos(0.5, 0.5+2*M_PI+0.3, l, u); return l<=-0.999 && u>=0.999 ? 0 : 1; }\n'),
 dict(id="C17-phase-atan", property="C17", needs="a Fourier term with a negative cosine coefficient", breaks="the phase of a term is taken from atan of the ratio, half a turn off when the cosine coefficient is negative",
      edits=[(F, "phase = atan2(coeffs[2 * k + 1], coeffs[2 * k]);", "phase = (coeffs[2 * k] != 0.0 ? atan(coeffs[2 * k + 1] / coeffs[2 * k]) : atan2(coeffs[2 * k + 1], coeffs[2 * k]));")],
      demo=HC + 'int main(){ std::vector<double> c={1,0,-2,0.5}; double l,u; findLUFourier(c, 0.0, 0.2, l, u); double t=0.1, v=1-2*cos(2*t)+0.5*sin(2*t); return l<=v+1e-9 && v<=u+1e-9 ? 0 : 1; }\n'),
 dict(id="C18-empty-sector", property="C18", needs="begin and end vectors with the same direction", breaks="an empty sector is treated as the whole plane",
      edits=[(B, "if (pBeg(0) * pEnd(1) - pEnd(0) * pBeg(1) < 0) {", "if (pBeg(0) * pEnd(1) - pEnd(0) * pBeg(1) <= 0) {")],
      demo=HB + 'int main(){ return insideAngleInterval(0.0f, 1.0f, Vector2(1,0), Vector2(2,0)) || !insideAngleInterval(0.0f,1.0f,Vector2(1,0),Vector2(-1,0)) ? 1 : 0; }\n'),
 dict(id="C18-end-turn", property="C18", needs="an interval end given more than one turn after its begin", breaks="the end is not brought into the turn of the begin, so every angle is inside",
      edits=[(B, "return (normalizeAngle2Pi(angle - intervBeg) < normalizeAngle2Pi(intervEnd - intervBeg));", "Scalar width = intervEnd - intervBeg;\n        if (width < 0) {\n            width = normalizeAngle2Pi(width);\n        }\n        return (normalizeAngle2Pi(angle - intervBeg) < width);")],
      demo=HB + 'int main(){ return insideAngleInterval(3.0f, 0.0f, (float)(2*M_PI+0.5)) ? 1 : 0; }\n'),
 dict(id="C19-invert-threshold", property="C19", needs="a direction slightly steeper than 45 degrees", breaks="the polynomial is used outside [-1, 1], beyond its error bound",
      edits=[(F, "bool invert = ay > ax;\n        double z", "bool invert = ay > 1.05 * ax;\n        double z")],
      demo=HC + 'int main(){ return std::fabs(fastAtan2(1.0,1.045)-std::atan2(1.045,1.0))<1.6e-5 ? 0 : 1; }\n'),
 dict(id="C19-float-turns", property="C19", needs="an argument of many turns", breaks="the number of turns is kept in single precision, so the error grows with the argument",
      edits=[(F, "        s = x - floor(x + 0.5);\n        s *= 16.0 * (0.5 - std::abs(s));\n        s += 0.225 * s * (std::abs(s) - 1.0);", "        const float turns = x;\n        s = turns - floor(turns + 0.5);\n        s *= 16.0 * (0.5 - std::abs(s));\n        s += 0.225 * s * (std::abs(s) - 1.0);")],
      demo=HC + 'int main(){ double c,s,w=0; for(int i=0;i<1000;++i){ double x=9e5+i*0.37; fastCosSin(x,c,s); w=std::max(w,std::fabs(s-std::sin(x))); } return w<0.0013 ? 0 : 1; }\n'),
 dict(id="C24-lat-length", property="C24", needs="a point whose latitude differs from the origin's", breaks="the forward conversion takes the length of a degree of latitude at the point, the inverse at the origin",
      edits=[(S, "y = (lat - latOrg) * meterPerDegLat(latOrg);", "y = (lat - latOrg) * meterPerDegLat(lat);")],
      demo=HS + 'int main(){ Scalar x,y,la,lo; convertLatLonToLocalXY(10,20,40,20.5,x,y); convertLocalXYToLatLon(10,20,x,y,la,lo); return std::fabs(la-40)<1e-3 && std::fabs(lo-20.5)<1e-3 ? 0 : 1; }\n'),
 dict(id="C24-altitude", property="C24", needs="a point with an altitude", breaks="the altitude is scaled by the axis ratio too, so the point is not moved along the normal",
      edits=[(S, "z = (ROFL_WGS84_AXIS_RATIO * ROFL_WGS84_AXIS_RATIO * Nphi + alt) * sin(latRad);", "z = ROFL_WGS84_AXIS_RATIO * ROFL_WGS84_AXIS_RATIO * (Nphi + alt) * sin(latRad);")],
      demo=HS + 'int main(){ Scalar x0,y0,z0,x,y,z; convertLatLonAltToECEF(45,30,0,x0,y0,z0); convertLatLonAltToECEF(45,30,100000,x,y,z); double d=z-z0; return std::fabs(d-100000*std::sin(M_PI/4))<20 ? 0 : 1; }\n'),
 dict(id="C25-no-identity", property="C25", needs="a transformation object that is not the identity when passed in", breaks="the pose is composed with the previous content of the output",
      edits=[(B, "        transf = Transform2::Identity();\n", "        transf.makeAffine();\n")],
      demo=HB + 'int main(){ Transform2 t; poseToIsometry2(Scalar(0),Scalar(0),Scalar(0),t=Transform2::Identity()); poseToIsometry2(Scalar(1),Scalar(2),Scalar(0.5),t); poseToIsometry2(Scalar(1),Scalar(2),Scalar(0.5),t); return std::fabs(t.matrix()(0,2)-1)<1e-5 && std::fabs(t.matrix()(1,2)-2)<1e-5 ? 0 : 1; }\n'),
 dict(id="C25-vertical", property="C25", needs="a first edge that is vertical and points down", breaks="a shortcut for vertical edges forgets their direction and length",
      edits=[(B, "        return ((p2(0) - p1(0)) * (p3(1) - p1(1))", "        if (p1(0) == p2(0)) {\n            return std::abs(p2(1) - p1(1)) * (p1(0) - p3(0));\n        }\n        return ((p2(0) - p1(0)) * (p3(1) - p1(1))")],
      demo=HB + 'int main(){ return ccw(Vector2(0,1),Vector2(0,0),Vector2(1,0)) > 0 && ccw(Vector2(0,0),Vector2(0,1),Vector2(1,0)) < 0 ? 0 : 1; }\n'),
]
