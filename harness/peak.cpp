// peak finder: the real header, instantiated for int values and indices in 1 to 3 dimensions, any map, order and output
#include <array>
#include <iostream>
#include "common/include/rofl/common/peak_finder_d.h"
using namespace rofl;
struct Cmp { bool operator()(int a, int b) const; };
#define INST(D) \
    using X##D = std::array<int, D>; using P##D = PeakFinderD<D, int, int, Cmp>; \
    struct Map##D { int operator()(const X##D& i) const; }; \
    struct Out##D { Out##D& operator=(const X##D& i); Out##D& operator*(); Out##D& operator++(); Out##D& operator++(int); }; \
    void pf_run_##D(const X##D& mn, const X##D& mx, const X##D& w, bool on, int v, const Map##D& m, Out##D& o) { \
        P##D f; f.setDomain(mn, mx); f.setPeakWindow(w); f.enableFilterPeakMin(on, v); f.detect(m, o); } \
    void pf_nofilter_##D(const Cmp& c, const X##D& mn, const X##D& mx, const X##D& w, const Map##D& m, Out##D& o) { \
        P##D f(c); f.setDomain(mn, mx); f.setPeakWindow(w); f.detect(m, o); } \
    void pf_size_##D(const X##D& n, const X##D& w, const Map##D& m, Out##D& o) { P##D f; f.setDomain(n); f.setPeakWindow(w); f.detect(m, o); } \
    void pf_centered_##D(const X##D& c, const X##D& h, const X##D& w, const Map##D& m, Out##D& o) { P##D f; f.setDomainCentered(c, h); f.setPeakWindow(w); f.detect(m, o); }
INST(1)
INST(2)
INST(3)
