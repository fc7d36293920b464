#include "rvc_native.h"
#include <array>
#include <iostream>
#include <rofl/common/peak_finder_d.h>
#include <functional>
#include <iterator>
#include <string>
#include <vector>
using namespace rofl;
// oracle: the cells strictly better than every other cell of their window inside the domain, by brute force
template <int D, typename V, typename C> static void one(const char* nm) {
    using X = std::array<int, D>;
    PeakFinderD<D, V, int, C> f;
    C comp;
    X mn, mx, w, dm;
    int total = 1, maxd = D == 1 ? 30 : D == 2 ? 9 : 5, levels = rndr(1, 12);
    for (int d = 0; d < D; ++d) { mn[d] = rndr(-4, 4); dm[d] = rndr(1, maxd); mx[d] = mn[d] + dm[d] - 1; w[d] = rndr(0, 3); total *= dm[d]; }
    std::vector<V> v(total);
    std::string hist = std::string(nm) + " domain";
    for (int d = 0; d < D; ++d) hist += " " + std::to_string(mn[d]) + ".." + std::to_string(mx[d]) + " window " + std::to_string(w[d]);
    hist += " values";
    for (V& x : v) { x = (V)rndr(0, levels); hist += " " + std::to_string(x); }
    auto pos = [&](const X& i) { int p = 0; for (int d = D - 1; d >= 0; --d) p = p * dm[d] + i[d] - mn[d]; return p; };
    auto cell = [&](int p) { X i; for (int d = 0; d < D; ++d) { i[d] = mn[d] + p % dm[d]; p /= dm[d]; } return i; };
    bool on = rnd() % 2;
    V thr = (V)rndr(0, levels);
    if (on) hist += " filter " + std::to_string(thr);
    CASE("%s", hist.c_str());
    bool bad = false;
    auto map = [&](const X& i) -> V { for (int d = 0; d < D; ++d) if (i[d] < mn[d] || i[d] > mx[d]) { bad = true; return V(); } return v[pos(i)]; };
    int how = rnd() % 3;
    bool zero = true, odd = true;
    for (int d = 0; d < D; ++d) { zero = zero && mn[d] == 0; odd = odd && dm[d] % 2; }
    if (how == 1 && zero) f.setDomain(dm);
    else if (how == 2 && odd) { X c, h; for (int d = 0; d < D; ++d) { h[d] = dm[d] / 2; c[d] = mn[d] + h[d]; } f.setDomainCentered(c, h); }
    else f.setDomain(mn, mx);
    f.setPeakWindow(w);
    if (on || rnd() % 2) f.enableFilterPeakMin(on, thr);
    std::vector<X> out;
    f.detect(map, std::back_inserter(out));
    CHECK(!bad, "the map is read outside the domain");
    std::vector<int> got(total, 0);
    for (size_t k = 0; k < out.size(); ++k) {
        for (int d = 0; d < D; ++d) CHECK(out[k][d] >= mn[d] && out[k][d] <= mx[d], "a reported cell is outside the domain");
        ++got[pos(out[k])];
        if (k) CHECK(!comp(v[pos(out[k])], v[pos(out[k - 1])]), "peak %zu is better than the one before it", k);
    }
    for (int p = 0; p < total; ++p) {
        X i = cell(p);
        bool peak = !on || comp(v[p], thr);
        for (int q = 0; q < total && peak; ++q) {
            X j = cell(q);
            bool in = q != p;
            for (int d = 0; d < D; ++d) in = in && std::abs(i[d] - j[d]) <= w[d];
            if (in && !comp(v[p], v[q])) peak = false;
        }
        std::string s;
        for (int d = 0; d < D; ++d) s += " " + std::to_string(i[d]);
        CHECK(got[p] == (peak ? 1 : 0), "cell%s %s a peak and is reported %d times", s.c_str(), peak ? "is" : "is not", got[p]);
    }
}
void search() {
    while (time_left()) {
        watch(30);
        for (int k = 0; k < 50; ++k) {
            one<1, int, std::greater<int>>("1D max"); one<1, float, std::less<float>>("1D min");
            one<2, int, std::greater<int>>("2D max"); one<2, float, std::less<float>>("2D min"); one<2, double, std::greater<double>>("2D max");
            one<3, int, std::greater<int>>("3D max"); one<3, int, std::less<int>>("3D min");
        }
    }
}
