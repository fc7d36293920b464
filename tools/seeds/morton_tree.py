F = "common/include/rofl/common/morton_tree.h"
H = '#include <iostream>\n#include "common/src/bit_manip.cpp"\n#include <rofl/common/morton_tree.h>\n#include <vector>\nusing namespace rofl;\nusing T = MortonTree<int, 2>;\n'
SEEDS = [
 dict(id="C27-append-one", property="C27", needs="a range of exactly one item appended through a converter to a sorted tree, then a search", breaks="the tree stays marked ordered, so a later search bisects items that are not",
      edits=[(F, "            items_.push_back(item);\n        }\n        ordered_ = false;", "            items_.push_back(item);\n        }\n        ordered_ = ordered_ && sizeInc == 1;")],
      demo=H + 'struct C { T::Item operator()(const T::Item& i) { return i; } };\nint main(){ T t; C c; std::vector<T::Item> a{T::Item({4,4},0),T::Item({6,7},1),T::Item({8,1},2)}, b{T::Item({0,0},3)}; t.insert(a.begin(),a.end(),c); t.sort(); t.insert(b.begin(),b.end(),c); return t.findItem(T::Item({0,1},0)) - t.begin() == 1 ? 0 : 1; }\n'),
 dict(id="C27-conv-ids", property="C27", needs="a second range inserted through a converter with ids reset", breaks="ids restart from 0 with every range, so two items share an id",
      edits=[(F, "                item.id = items_.size();", "                item.id = items_.size() - sizeCur;")],
      demo=H + 'struct C { T::Item operator()(const T::Item& i) { return i; } };\nint main(){ T t; C c; std::vector<T::Item> a{T::Item({4,4},7),T::Item({6,7},7)}; t.insert(a.begin(),a.end(),c); t.insert(a.begin(),a.end(),c); return t.getItems()[2].id == 2 ? 0 : 1; }\n'),
 dict(id="C27-level-single", property="C27", needs="the level of an interval of exactly one item that is not the last of the tree", breaks="the level of a single item is that of the cell shared with its successor",
      edits=[(F, "        if (last != first) {\n            --last;", "        if (last - first > 1 || last == items_.end()) {\n            --last;")],
      demo=H + 'int main(){ T t; t.insert(T::Item({0,0},0)); t.insert(T::Item({9,9},0)); t.sort(); return t.computeLevel(t.begin(), t.begin() + 1) == t.computeLevel(t.begin() + 1, t.end()) ? 0 : 1; }\n'),
]
