// geographic conversions: the real translation unit and round-trip clients
#include "geometry/src/gis.cpp"
using namespace rofl;
void gis_there_and_back(float la0, float lo0, float la, float lo, float& la2, float& lo2) { float x, y; convertLatLonToLocalXY(la0, lo0, la, lo, x, y); convertLocalXYToLatLon(la0, lo0, x, y, la2, lo2); }
void gis_back_and_there(float la0, float lo0, float x, float y, float& x2, float& y2) { float la, lo; convertLocalXYToLatLon(la0, lo0, x, y, la, lo); convertLatLonToLocalXY(la0, lo0, la, lo, x2, y2); }
