#include "rvc_native.h"
#include <rofl/common/interval_indices.h>
using namespace rofl;
template <size_t D> using A = std::array<int, D>;
template <size_t D> std::string str(const A<D>& a) { std::string s = "["; for (int x : a) s += std::to_string(x) + " "; return s + "]"; }
template <size_t D> void one(const A<D>& m, const A<D>& n, int stride) {
    CASE("dim %zu min %s dimensions %s", D, str<D>(m).c_str(), str<D>(n).c_str());
    long N = 1;
    for (int x : n) N *= x;
    using R = detail::RasterIndexer<D, int>; using S = detail::StaticRasterIndexer<D, int>;
    for (long p = 0; p < N; p += stride) {
        A<D> w; long r = p;
        for (size_t d = 0; d < D; ++d) { w[d] = m[d] + r % n[d]; r /= n[d]; }
        A<D> i = R::getIndices(m, n, (int)p), j;
        S::getIndices((int)p, m.data(), n.data(), j.data());
        CHECK(i == w, "RasterIndexer::getIndices(%ld) = %s", p, str<D>(i).c_str());
        CHECK(j == w, "StaticRasterIndexer::getIndices(%ld) = %s", p, str<D>(j).c_str());
        CHECK(R::getPos(m, n, w) == p, "RasterIndexer::getPos(%s) = %d", str<D>(w).c_str(), R::getPos(m, n, w));
        CHECK(S::getPos(m.data(), n.data(), w.data()) == p, "StaticRasterIndexer::getPos(%s)", str<D>(w).c_str());
    }
    if (N <= 4000) {
        IntervalIndices<D, int> I(m, n);
        long c = 0;
        auto it = I.beginRaster();
        for (; it != I.endRaster(); ++it, ++c) {
            CHECK(c < N, "iteration does not end");
            CHECK(*it == R::getIndices(m, n, (int)c), "iterator at step %ld", c);
            CHECK((*it.operator->()) == *it, "arrow");
            CHECK(!(it == I.endRaster()), "==");
        }
        CHECK(c == N, "%ld cells visited", c);
        while (c > 0) { auto old = it--; --c; CHECK(*it == R::getIndices(m, n, (int)c) && old != it, "backwards at %ld", c); if (c) { auto o2 = it--; CHECK(*o2 == R::getIndices(m, n, (int)c), "post-decrement"); --it; ++it; auto o3 = it++; (void)o3; CHECK(*it == R::getIndices(m, n, (int)c), "++/--"); } }
    }
}
template <size_t D> void empties(A<D> m, A<D> n, int k) {
    n[k] = -(int)rndr(0, 3);
    CASE("dim %zu empty interval min %s dimensions %s", D, str<D>(m).c_str(), str<D>(n).c_str());
    IntervalIndices<D, int> I(m, n);
    CHECK(I.beginRaster() == I.endRaster(), "empty interval is iterated");
}
template <size_t D> void rnd1(int lim) {
    A<D> m, n;
    for (size_t d = 0; d < D; ++d) { m[d] = (int)rndr(-20, 20); n[d] = (int)rndr(1, lim); }
    one<D>(m, n, 1);
    empties<D>(m, n, rnd() % D);
}
template <size_t D> void big() {
    A<D> m, n; long p = 1;
    for (size_t d = 0; d < D; ++d) { m[d] = (int)rndr(-(1 << 29), 1 << 28); n[d] = 1 + (int)(rnd() % ((1l << 28) / p)); p *= n[d]; }
    std::shuffle(n.begin(), n.end(), rng_);
    one<D>(m, n, 1 + p / 97);
}
template <size_t D> void hint1(std::map<std::string, std::string>& h) {
    A<D> m, n; uint64_t v; long p = 1;
    for (size_t d = 0; d < D; ++d) {
        if (!hint(h, ("min" + std::to_string(d)).c_str(), v)) return; m[d] = (int)v;
        if (!hint(h, ("dim" + std::to_string(d)).c_str(), v)) return; n[d] = (int)v;
        if (n[d] < 1) return;
        p *= n[d];
        if (p > (1l << 30)) return;
    }
    one<D>(m, n, 1 + p / 100003);
}
void search() {
    for (auto& h : hints_) { hint1<1>(h); hint1<2>(h); hint1<3>(h); }
    while (time_left()) { watch(20); rnd1<1>(60); rnd1<2>(12); rnd1<3>(7); big<1>(); big<2>(); big<3>(); }
}
