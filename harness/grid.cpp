#include <rofl/common/grid.h>
using namespace rofl;
template <size_t D> using A = std::array<int, D>;
template <size_t D> using GR = Grid<D, double, int>;
#define CLIENTS(D)                                                                                    \
    void grid_read_##D(GR<D>& g, const A<D>& i, double* o) {                                          \
        const GR<D>& c = g; o[0] = g.value(i); o[1] = c.value(i); o[2] = g.value(i.data());           \
        o[3] = c.value(i.data()); o[4] = g.value(g.getPos(i)); o[5] = c.value(c.getPos(i)); }         \
    void grid_write_a_##D(GR<D>& g, const A<D>& i, double v) { g.value(i) = v; }                      \
    void grid_write_b_##D(GR<D>& g, const A<D>& i, double v) { g.value(i.data()) = v; }               \
    void grid_write_c_##D(GR<D>& g, const A<D>& i, double v) { g.value(g.getPos(i)) = v; }            \
    int grid_pos_##D(const GR<D>& g, const A<D>& i) { return g.getPos(i); }                           \
    void grid_idx_##D(const GR<D>& g, int p, A<D>& o) { o = g.getIndices(p); }                        \
    bool grid_inside_##D(const GR<D>& g, const A<D>& i) { return g.inside(i); }                       \
    void grid_fill_##D(GR<D>& g, double v) { g.fill(v); }                                             \
    void grid_ctor2_##D(const A<D>& m, const A<D>& n, A<D>& od, size_t& sz, const A<D>& i, bool& in, double& v) {  \
        GR<D> g(m, n); od = g.dimensions(); sz = g.size(); in = g.inside(i); v = in ? g.value(i) : 0; } \
    void grid_ctor1_##D(const A<D>& n, A<D>& od, size_t& sz, const A<D>& i, bool& in, double& v) {    \
        GR<D> g(n); od = g.dimensions(); sz = g.size(); in = g.inside(i); v = in ? g.value(i) : 0; }  \
    void grid_ctor0_##D(size_t& sz, const A<D>& i, bool& in) { GR<D> g; sz = g.size(); in = g.inside(i); } \
    void grid_bounds1_##D(GR<D>& g, const A<D>& n) { g.initBounds(n); }                               \
    void grid_bounds2_##D(GR<D>& g, const A<D>& m, const A<D>& n) { g.initBounds(m, n); }             \
    void grid_center_##D(GR<D>& g, const A<D>& m, const A<D>& n) { g.initCenter(m, n); }              \
    void grid_minmax_##D(GR<D>& g, const A<D>& m, const A<D>& n) { g.initMinMax(m, n); }              \
    size_t grid_size_##D(const GR<D>& g) { return g.size(); }
CLIENTS(1) CLIENTS(2) CLIENTS(3)
