// clients of MinMaxHeap with an arbitrary strict weak order (declared only: the verifier knows nothing else about it)
#include <rofl/common/min_max_heap.h>
using namespace rofl;
struct Cmp { bool operator()(const int& a, const int& b) const; };
using H = MinMaxHeap<int, Cmp>;
void heap_push(H& h, const int& v) { h.push(v); }
void heap_pop_top(H& h, int& o) { o = h.top(); h.popTop(); }
void heap_pop_bottom(H& h, int& o) { o = h.bottom(); h.popBottom(); }
void heap_top(const H& h, int& o) { o = h.top(); }
void heap_bottom(const H& h, int& o) { o = h.bottom(); }
void heap_next_top(const H& h, int& o) { o = h.nextTop(); }
void heap_next_bottom(const H& h, int& o) { o = h.nextBottom(); }
size_t heap_size(const H& h) { return h.size(); }
bool heap_empty(const H& h) { return h.empty(); }
void heap_ctor(size_t& n, bool& e) { H h; n = h.size(); e = h.empty(); }
void heap_ctor_cmp(const Cmp& c, size_t& n, bool& e) { H h(c); n = h.size(); e = h.empty(); }
int heap_elem(const H& h, size_t i) { return *(h.begin() + i); }
size_t heap_count(const H& h) { return h.end() - h.begin(); }
