#include "rvc_native.h"
#include <rofl/common/interval_indices.h>
using namespace rofl;
template <size_t D> using A = std::array<int, D>;
template <size_t D> std::string str(const A<D>& a) { std::string s = "["; for (int x : a) s += std::to_string(x) + " "; return s + "]"; }
template <size_t D> void one(const A<D>& m, const A<D>& n) {
    CASE("dim %zu min %s dimensions %s", D, str<D>(m).c_str(), str<D>(n).c_str());
    long N = 1;
    for (int x : n) N *= x;
    IntervalIndices<D, int> I(m, n);
    std::set<A<D>> seen;
    A<D> prev{}, exp = m, dir;
    dir.fill(1);
    long c = 0;
    auto it = I.beginBoustrophedon();
    for (; it != I.endBoustrophedon(); ++it, ++c) {
        CHECK(c < N, "iteration does not end");
        A<D> x = *it;
        CHECK(x == (detail::BoustrophedonIndexer<D, int>::getIndices(m, n, (int)c)), "iterator differs from indexer at %ld", c);
        for (size_t d = 0; d < D; ++d) CHECK(x[d] >= m[d] && x[d] < m[d] + n[d], "step %ld leaves the interval: %s", c, str<D>(x).c_str());
        CHECK(seen.insert(x).second, "cell %s visited twice", str<D>(x).c_str());
        if (c) { int dist = 0; for (size_t d = 0; d < D; ++d) dist += abs(x[d] - prev[d]); CHECK(dist == 1, "step %ld jumps from %s to %s", c, str<D>(prev).c_str(), str<D>(x).c_str()); }
        CHECK(x == exp, "step %ld is %s, expected %s", c, str<D>(x).c_str(), str<D>(exp).c_str());
        prev = x;
        // reference: sweep the first coordinate that can move in its direction, reversing the blocked ones
        for (size_t d = 0; d < D; ++d) {
            int y = exp[d] + dir[d];
            if (y >= m[d] && y < m[d] + n[d]) { exp[d] = y; break; }
            dir[d] = -dir[d];
        }
    }
    CHECK(c == N, "%ld cells visited instead of %ld", c, N);
    while (c > 0) { auto old = it--; --c; CHECK(*it == (detail::BoustrophedonIndexer<D, int>::getIndices(m, n, (int)c)) && old != it, "backwards at %ld", c); auto q = it++; CHECK(*q == (detail::BoustrophedonIndexer<D, int>::getIndices(m, n, (int)c)), "post-increment"); --it; CHECK(*it == *q && it == q && it->size() == D, "--"); }
}
template <size_t D> void empties(A<D> m, A<D> n, int k) {
    n[k] = -(int)rndr(0, 3);
    CASE("dim %zu empty interval min %s dimensions %s", D, str<D>(m).c_str(), str<D>(n).c_str());
    IntervalIndices<D, int> I(m, n);
    CHECK(I.beginBoustrophedon() == I.endBoustrophedon(), "empty interval is iterated");
}
template <size_t D> void rnd1(int lim) {
    A<D> m, n;
    for (size_t d = 0; d < D; ++d) { m[d] = (int)rndr(-20, 20); n[d] = (int)rndr(1, lim); }
    one<D>(m, n);
    empties<D>(m, n, rnd() % D);
}
void search() {
    for (int a = 1; a < 6; ++a) for (int b = 1; b < 6; ++b) for (int c = 1; c < 6; ++c) one<3>({0, 0, 0}, {a, b, c});
    while (time_left()) { watch(20); rnd1<1>(60); rnd1<2>(12); rnd1<3>(7); }
}
