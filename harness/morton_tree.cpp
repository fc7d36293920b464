// Morton tree: the real header, instantiated for int coordinates in 2 and 3 dimensions
#include <iostream>
#include "common/include/rofl/common/morton_tree.h"
using namespace rofl;
#define INST(D) \
    using T##D = MortonTree<int, D>; using I##D = T##D::Item; \
    struct Conv##D { I##D operator()(const I##D& i) { return i; } }; \
    void mt_insert_##D(T##D& t, const I##D& i, bool r) { t.insert(i, r); } \
    void mt_insert_def_##D(T##D& t, const I##D& i) { t.insert(i); } \
    void mt_range_##D(T##D& t, I##D* b, I##D* e, bool r) { t.insert(b, e, r); } \
    void mt_conv_##D(T##D& t, I##D* b, I##D* e, bool r) { Conv##D c; t.insert(b, e, c, r); } \
    void mt_sort_##D(T##D& t) { t.sort(); } \
    long mt_find_##D(T##D& t, const I##D& q) { auto it = t.findItem(q); return it - t.begin(); } \
    int mt_level_##D(T##D& t, long a, long b) { return t.computeLevel(t.begin() + a, t.begin() + b); } \
    size_t mt_size_##D(const T##D& t) { return t.size(); } \
    long mt_count_##D(const T##D& t) { return t.end() - t.begin(); } \
    const I##D& mt_item_##D(const T##D& t, size_t i) { return t.getItems()[i]; } \
    void mt_new_##D(T##D* p) { new (p) T##D(); }
INST(2)
INST(3)
