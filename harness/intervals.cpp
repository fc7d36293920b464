// clients of the public API; the verifier executes them with the real bodies from /repo
#include <rofl/common/interval_indices.h>
#include <rofl/common/grid.h>
using namespace rofl;
template <size_t D> using A = std::array<int, D>;
template <size_t D> using II = IntervalIndices<D, int>;
#define CLIENTS(D)                                                                                                         \
    void raster_idx_##D(const A<D>& m, const A<D>& n, int p, A<D>& o) { o = detail::RasterIndexer<D, int>::getIndices(m, n, p); }      \
    int raster_pos_##D(const A<D>& m, const A<D>& n, const A<D>& i) { return detail::RasterIndexer<D, int>::getPos(m, n, i); }          \
    void static_idx_##D(const A<D>& m, const A<D>& n, int p, A<D>& o) { detail::StaticRasterIndexer<D, int>::getIndices(p, m.data(), n.data(), o.data()); } \
    int static_pos_##D(const A<D>& m, const A<D>& n, const A<D>& i) { return detail::StaticRasterIndexer<D, int>::getPos(m.data(), n.data(), i.data()); } \
    void boust_idx_##D(const A<D>& m, const A<D>& n, int p, A<D>& o) { o = detail::BoustrophedonIndexer<D, int>::getIndices(m, n, p); } \
    void raster_begin_##D(const II<D>& w, A<D>& o, bool& done) { auto it = w.beginRaster(); o = *it; done = (it == w.endRaster()); }   \
    void boust_begin_##D(const II<D>& w, A<D>& o, bool& done) { auto it = w.beginBoustrophedon(); o = *it; done = (it == w.endBoustrophedon()); } \
    void raster_step_##D(const II<D>& w, int p, A<D>& o, A<D>& o2, A<D>& o3, A<D>& o4, bool& done, bool& ndone) {                     \
        detail::RasterIterator<D, int> it(&w, p); auto old = it++; o = *old; ++it; --it; o2 = *it; o3 = *(it.operator->());            \
        done = (it == w.endRaster()); ndone = (it != w.endRaster()); auto o5 = it--; o4 = *it; if (!(o5 != it)) o4[0] += 1; }          \
    void boust_step_##D(const II<D>& w, int p, A<D>& o, A<D>& o2, A<D>& o3, A<D>& o4, bool& done, bool& ndone) {                      \
        detail::BoustrophedonIterator<D, int> it(&w, p); auto old = it++; o = *old; ++it; --it; o2 = *it; o3 = *(it.operator->());     \
        done = (it == w.endBoustrophedon()); ndone = (it != w.endBoustrophedon()); auto o5 = it--; o4 = *it; if (!(o5 != it)) o4[0] += 1; } \
    void ii_make_##D(const A<D>& m, const A<D>& n, A<D>& om, A<D>& od, A<D>& omax, A<D>& ofirst, A<D>& olast, A<D>& od2) {            \
        II<D> w(m, n); om = w.min(); od = w.dimensions(); omax = w.max(); ofirst = w.first(); olast = w.last();                        \
        for (size_t d = 0; d < D; ++d) od2[d] = w.dimension(d); }                                                                      \
    void ii_default_##D(A<D>& om, A<D>& od) { II<D> w; om = w.min(); od = w.dimensions(); }                                            \
    void ii_bounds_##D(II<D>& w, const A<D>& m, const A<D>& n) { w.initBounds(m, n); }                                                 \
    void ii_centered_##D(II<D>& w, const A<D>& m, const A<D>& n) { w.initCentered(m, n); }                                             \
    void ii_minmax_##D(II<D>& w, const A<D>& m, const A<D>& n) { w.initMinMax(m, n); }                                                 \
    void ii_clone_##D(const II<D>& w, A<D>& om, A<D>& od) { II<D> c = w.clone(); om = c.min(); od = c.dimensions(); }                  \
    bool ii_empty_##D(const II<D>& w) { return w.empty(); }                                                                            \
    size_t ii_size_##D(const II<D>& w) { return w.size(); }                                                                            \
    bool ii_inside_##D(const II<D>& w, const A<D>& i) { return w.inside(i); }                                                          \
    void ii_intersect_##D(const II<D>& a, const II<D>& b, A<D>& om, A<D>& od) { II<D> c = a.intersect(b); om = c.min(); od = c.dimensions(); } \
    void ii_stacked_##D(const II<D>& a, size_t d, int incr, A<D>& om, A<D>& od) { II<D> c = a.stacked(d, incr); om = c.min(); od = c.dimensions(); } \
    void ii_translate_##D(II<D>& a, size_t d, int incr) { a.translate(d, incr); }                                                      \
    void ii_translatev_##D(II<D>& a, const A<D>& t) { a.translate(t); }
CLIENTS(1) CLIENTS(2) CLIENTS(3)
