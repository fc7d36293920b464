F = "common/src/label_set.cpp"
H = '#include "common/src/label_set.cpp"\n#include <cstdio>\nusing namespace rofl;\n'
SEEDS = [
 dict(id="C15-union-hint", property="C15", needs="uniting with a set all of whose labels are greater than this set's and which shares none",
      breaks="the greatest label of the other set is lost when the two sets do not overlap",
      edits=[(F, "                ls.labels_.begin(), ls.labels_.end(),\n                std::inserter(setNew", "                ls.labels_.begin(), (!empty() && !ls.empty() && *labels_.rbegin() < *ls.labels_.begin()) ? std::prev(ls.labels_.end()) : ls.labels_.end(),\n                std::inserter(setNew")],
      demo=H + 'int main(){ int a[]={1,2}, b[]={5,7}; LabelSet A(a,a+2), B(b,b+2); return A.unionSet(B).inside(7)&&A.unionSet(B).size()==4 ? 0 : 1; }\n'),
 dict(id="C15-insert-zero", property="C15", needs="inserting a negative label into a non-empty set",
      breaks="insert of a label smaller than all others replaces the least label",
      edits=[(F, "            labels_.insert(label);\n", "            if (label < 0 && !empty() && label < *begin()) {\n                labels_.erase(labels_.begin());\n            }\n            labels_.insert(label);\n")],
      demo=H + 'int main(){ LabelSet A; A.insert(3); A.insert(-1); return A.inside(3)&&A.inside(-1)&&A.size()==2 ? 0 : 1; }\n'),
]
