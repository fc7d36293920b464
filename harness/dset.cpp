// the real source, compiled from /repo's working tree, and clients of it
#include "common/src/disjoint_set.cpp"
#include <iterator>
#include <new>
#include <vector>
using rofl::DisjointSet;
int ds_find(DisjointSet& d, int n) { return d.find(n); }
int ds_join(DisjointSet& d, int a, int b) { return d.join(a, b); }
int ds_make(DisjointSet& d) { return d.makeSet(); }
void ds_init(DisjointSet& d, int n) { d.initSets(n); }
size_t ds_size_of(DisjointSet& d, int n) { return d.size(n); }
size_t ds_size(const DisjointSet& d) { return d.size(); }
size_t ds_nodes(const DisjointSet& d) { return d.nodeNum(); }
int ds_sets(const DisjointSet& d) { return d.setNum(); }
void ds_parents(DisjointSet& d, std::vector<int>& out) { d.parents(std::back_inserter(out)); }
void ds_ctor(DisjointSet* p) { new (p) DisjointSet(); }
void ds_ctor_n(DisjointSet* p, int n) { new (p) DisjointSet(n); }
