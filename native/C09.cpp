#include "rvc_native.h"
#include <rofl/common/interval_indices.h>
using namespace rofl;
template <size_t D> using A = std::array<int, D>;
template <size_t D> using II = IntervalIndices<D, int>;
template <size_t D> std::string str(const A<D>& a) { std::string s = "["; for (int x : a) s += std::to_string(x) + " "; return s + "]"; }
template <size_t D> bool in(const A<D>& p, const A<D>& m, const A<D>& n) { for (size_t d = 0; d < D; ++d) if (p[d] < m[d] || (long)p[d] >= (long)m[d] + n[d]) return false; return true; }
template <size_t D> void one(const A<D>& m, const A<D>& n, const A<D>& m2, const A<D>& n2, const A<D>& p, int inc) {
    CASE("dim %zu A=(%s,%s) B=(%s,%s) p=%s incr=%d", D, str<D>(m).c_str(), str<D>(n).c_str(), str<D>(m2).c_str(), str<D>(n2).c_str(), str<D>(p).c_str(), inc);
    II<D> a(m, n), b;
    A<D> z; z.fill(0);
    CHECK(b.min() == z && b.dimensions() == z, "default");
    b.initBounds(m2, n2);
    CHECK(b.min() == m2 && b.dimensions() == n2 && a.min() == m && a.dimensions() == n && a.first() == m, "bounds");
    A<D> mx = a.max(), la = a.last();
    bool emp = false; unsigned long sz = 1;
    for (size_t d = 0; d < D; ++d) { CHECK(mx[d] == m[d] + n[d] - 1 && la[d] == m[d] + n[d] && a.dimension(d) == n[d], "max/last/dimension"); if (n[d] <= 0) emp = true; sz *= (unsigned long)n[d]; }
    if (emp) sz = 0;
    CHECK(a.empty() == emp, "empty");
    CHECK(a.size() == sz, "size %zu", a.size());
    CHECK(a.inside(p) == in<D>(p, m, n), "inside");
    II<D> c = a.clone();
    CHECK(c.min() == m && c.dimensions() == n, "clone");
    II<D> i = a.intersect(b);
    CHECK(i.inside(p) == (in<D>(p, m, n) && in<D>(p, m2, n2)), "intersect -> min %s dims %s", str<D>(i.min()).c_str(), str<D>(i.dimensions()).c_str());
    CHECK(a.min() == m && a.dimensions() == n && b.min() == m2 && b.dimensions() == n2, "intersect changed an operand");
    for (size_t d = 0; d < D; ++d) {
        II<D> s = a.stacked(d, inc);
        for (size_t k = 0; k < D; ++k) if (k != d) CHECK(s.min()[k] == m[k] && s.dimensions()[k] == n[k], "stacked other");
        CHECK(s.min()[d] == (inc >= 0 ? m[d] + n[d] : m[d] + inc) && s.dimensions()[d] == abs(inc), "stacked(%zu,%d)", d, inc);
        II<D> t = a; t.translate(d, inc);
        for (size_t k = 0; k < D; ++k) CHECK(t.min()[k] == m[k] + (k == d ? inc : 0) && t.dimensions()[k] == n[k], "translate");
    }
    II<D> t = a; t.translate(p);
    for (size_t k = 0; k < D; ++k) CHECK(t.min()[k] == m[k] + p[k] && t.dimensions()[k] == n[k], "translate vector");
    t.initMinMax(m, m2);
    bool e = true; for (size_t k = 0; k < D; ++k) e = e && p[k] >= m[k] && p[k] <= m2[k];
    CHECK(t.inside(p) == e, "initMinMax");
    t.initCentered(m, n2);
    e = true; for (size_t k = 0; k < D; ++k) e = e && p[k] >= m[k] - n2[k] && p[k] <= m[k] + n2[k];
    CHECK(t.inside(p) == e, "initCentered");
}
static int sm() { return rnd() % 8 == 0 ? (int)rndr(-(1 << 27), 1 << 27) : (int)rndr(-4, 6); }
template <size_t D> void rnd1() {
    A<D> v[5];
    for (auto& x : v) for (int& y : x) y = sm();
    if (rnd() % 2) for (size_t d = 0; d < D; ++d) { v[1][d] = abs(v[1][d]) + 1; v[3][d] = abs(v[3][d]) + 1; v[4][d] = v[0][d] + (int)rndr(-1, 2); }
    one<D>(v[0], v[1], v[2], v[3], v[4], sm());
}
template <size_t D> void hint1(std::map<std::string, std::string>& h) {
    const char* nm[] = {"min", "dim", "bmin", "bdim", "p"};
    A<D> v[5]; uint64_t x;
    for (int k = 0; k < 5; ++k) for (size_t d = 0; d < D; ++d) v[k][d] = hint(h, (nm[k] + std::to_string(d)).c_str(), x) ? (int)x : 1;
    one<D>(v[0], v[1], v[2], v[3], v[4], hint(h, "incr", x) ? (int)x : 1);
}
void search() {
    for (auto& h : hints_) { hint1<1>(h); hint1<2>(h); hint1<3>(h); }
    while (time_left()) for (int i = 0; i < 200; ++i) { rnd1<1>(); rnd1<2>(); rnd1<3>(); }
}
