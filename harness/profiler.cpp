// the real source, compiled from /repo's working tree
#include "common/src/profiler.cpp"
using namespace rofl;
double prof_variance(const Profiler::MeasureStatistic& m) { return m.getVariance(); }
void prof_timer(std::string& l, double& t) { ScopedTimer s(l); t = s.elapsedTimeMs(); }
