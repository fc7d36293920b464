H = '#include <rofl/common/min_max_heap.h>\n#include <cstdio>\n#include <vector>\n#include <algorithm>\n#include <functional>\n#include <random>\nusing namespace rofl;\n'
M = "common/include/rofl/common/min_max_heap.h"
FUZZ = '''int main(){ std::mt19937 g(3); for(int t=0;t<20000;++t){ MinMaxHeap<int,std::less<int>> h; std::vector<int> v; int n=g()%%30+1; for(int i=0;i<n;++i){ int x=g()%%20; h.push(x); v.push_back(x);} std::sort(v.begin(),v.end()); while(!v.empty()){ if(h.size()!=v.size()||h.top()!=v.front()||h.bottom()!=v.back()) return 1; %s if(g()%%2){h.popTop(); v.erase(v.begin());} else {h.popBottom(); v.pop_back();} } } return 0; }
'''
SEEDS = [
 dict(id="C11-grandmax-bound", property="C11", needs="at least 11 elements whose last great-grandchild is the largest below the maximum",
      breaks="the fourth grandchild is not considered when the maximum is replaced, so a later bottom is wrong",
      edits=[(M, "            for (size_t j = igch + 1; j < igch + 4 && j < data_.size(); ++j) {\n                //ROFL_VAR6(igch,", "            for (size_t j = igch + 1; j < igch + 3 + (igch < 9) && j < data_.size(); ++j) {\n                //ROFL_VAR6(igch,")],
      demo=H + FUZZ % ""),
 dict(id="C11-pop-last", property="C11", needs="popBottom of a heap whose maximum is the last stored element",
      breaks="popBottom leaves the maximum in place and drops another element when the maximum is the last stored node",
      edits=[(M, "                std::swap(data_[imax], data_.back());\n                data_.pop_back();\n                heapDownMax(imax);", "                if (imax + 1 == data_.size() && imax > 1) {\n                    imax = childMin(0);\n                }\n                std::swap(data_[imax], data_.back());\n                data_.pop_back();\n                heapDownMax(imax);")],
      demo=H + FUZZ % ""),
 dict(id="C12-nextbottom-three", property="C12", needs="a heap of exactly three elements",
      breaks="nextBottom returns the minimum for three elements",
      edits=[(M, "            if (data_.size() < 3) {", "            if (data_.size() <= 3) {")],
      demo=H + FUZZ % "if(v.size()>1&&h.nextBottom()!=v[v.size()-2]) return 1;"),
 dict(id="C12-nexttop-grand", property="C12", needs="a heap whose second least element is the third grandchild of the root, with exactly six elements",
      breaks="the minimum grandchild search stops early when the heap ends in the middle of the grandchildren",
      edits=[(M, "            for (size_t j = igch + 1; j < igch + 4 && j < data_.size(); ++j) {\n                if (cmp_(data_[j], data_[imin])) {", "            for (size_t j = igch + 1; j < igch + 4 && j + (igch == 3 && j == 5) < data_.size(); ++j) {\n                if (cmp_(data_[j], data_[imin])) {")],
      demo=H + FUZZ % "if(v.size()>1&&h.nextTop()!=v[1]) return 1;"),
]
