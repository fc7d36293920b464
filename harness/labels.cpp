// the real source, compiled from /repo's working tree, and clients of it
#include "common/src/label_set.cpp"
using rofl::LabelSet;
bool ls_inside(const LabelSet& s, int x) { return s.inside(x); }
size_t ls_size(const LabelSet& s) { return s.size(); }
bool ls_empty(const LabelSet& s) { return s.empty(); }
void ls_clear(LabelSet& s) { s.clear(); }
bool ls_eq(const LabelSet& a, const LabelSet& b) { return a == b; }
bool ls_ne(const LabelSet& a, const LabelSet& b) { return a != b; }
bool ls_insert(LabelSet& s, int x) { return s.insert(x); }
void ls_remove(LabelSet& s, int x) { s.remove(x); }
bool ls_union_label(const LabelSet& s, int l, int x) { LabelSet r = s.unionSet(l); return r.inside(x); }
bool ls_union(const LabelSet& a, const LabelSet& b, int x) { LabelSet r = a.unionSet(b); return r.inside(x); }
bool ls_inter(const LabelSet& a, const LabelSet& b, int x) { LabelSet r = a.intersectionSet(b); return r.inside(x); }
bool ls_diff_label(const LabelSet& s, int l, int x) { LabelSet r = s.differenceSet(l); return r.inside(x); }
bool ls_diff(const LabelSet& a, const LabelSet& b, int x) { LabelSet r = a.differenceSet(b); return r.inside(x); }
bool ls_new(int x) { LabelSet r; return r.inside(x); }
bool ls_copy(const LabelSet& a, int x) { LabelSet r(a); return r.inside(x); }
bool ls_range(const std::vector<int>& v, int x) { LabelSet r(v.begin(), v.end()); return r.inside(x); }
int ls_deref_begin(const LabelSet& s) { return *s.begin(); }
bool ls_iter_end(const LabelSet& s) { return s.begin() == s.end(); }
