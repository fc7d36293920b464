#include "rvc_native.h"
#include <rofl/common/grid.h>
using namespace rofl;
template <size_t D> using A = std::array<int, D>;
template <size_t D> std::string str(const A<D>& a) { std::string s = "["; for (int x : a) s += std::to_string(x) + " "; return s + "]"; }
template <size_t D> void body(Grid<D, double, int>& g, const A<D>& m, const A<D>& n, const char* how) {
    CASE("dim %zu %s min %s dimensions %s", D, how, str<D>(m).c_str(), str<D>(n).c_str());
    long N = 1;
    for (int x : n) N *= x;
    CHECK((long)g.size() == N, "size %zu", g.size());
    CHECK(g.dimensions() == n, "dimensions");
    const auto& c = g;
    g.fill(-1.5);
    for (long p = 0; p < N; ++p) CHECK(c.value((int)p) == -1.5, "fill");
    std::vector<double> want(N, -1.5);
    for (long p = 0; p < N; ++p) {
        A<D> w; long r = p;
        for (size_t d = 0; d < D; ++d) { w[d] = m[d] + r % n[d]; r /= n[d]; }
        CHECK(g.inside(w), "inside");
        CHECK(g.getPos(w) == p && g.getIndices((int)p) == w, "getPos/getIndices at %s", str<D>(w).c_str());
        switch (p % 3) { case 0: g.value(w) = p; break; case 1: g.value(w.data()) = p; break; default: g.value((int)p) = p; }
        want[p] = p;
        CHECK(g.value(w) == p && c.value(w) == p && g.value(w.data()) == p && c.value(w.data()) == p && g.value((int)p) == p && c.value((int)p) == p, "overloads disagree at %s", str<D>(w).c_str());
        if (N < 64) for (long q = 0; q < N; ++q) CHECK(c.value((int)q) == want[q], "writing cell %ld changed cell %ld", p, q);
        A<D> o = w; size_t d = p % D;
        o[d] = m[d] + n[d]; CHECK(!g.inside(o), "inside beyond the end");
        o[d] = m[d] - 1; CHECK(!g.inside(o), "inside before the start");
    }
}
template <size_t D> void one(const A<D>& m, const A<D>& n) {
    A<D> z; z.fill(0);
    CASE("dim %zu min %s dimensions %s", D, str<D>(m).c_str(), str<D>(n).c_str());
    Grid<D, double, int> e; CHECK(e.size() == 0 && !e.inside(z), "default grid");
    Grid<D, double, int> a(m, n); body<D>(a, m, n, "ctor(min,dims)");
    Grid<D, double, int> b(n); body<D>(b, z, n, "ctor(dims)");
    b.initBounds(m, n); body<D>(b, m, n, "initBounds(min,dims)");
    A<D> h, mx, c, wn; for (size_t d = 0; d < D; ++d) { h[d] = n[d] / 2; mx[d] = m[d] + n[d] - 1; wn[d] = 2 * h[d] + 1; c[d] = m[d] + h[d]; }
    b.initCenter(c, h); body<D>(b, m, wn, "initCenter");
    a.initBounds(n); body<D>(a, z, n, "initBounds(dims)");
    a.initMinMax(m, mx); body<D>(a, m, n, "initMinMax");
}
template <size_t D> void rnd1(int lim) {
    A<D> m, n;
    for (size_t d = 0; d < D; ++d) { m[d] = (int)rndr(-20, 20); n[d] = (int)rndr(1, lim); }
    one<D>(m, n);
}
void search() { while (time_left()) { rnd1<1>(60); rnd1<2>(12); rnd1<3>(7); } }
