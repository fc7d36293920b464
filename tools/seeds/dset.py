F = "common/src/disjoint_set.cpp"
HF = "common/include/rofl/common/disjoint_set.h"
H = '#include <rofl/common/disjoint_set.h>\n#include "common/src/disjoint_set.cpp"\n#include <cstdio>\n#include <vector>\n#include <iterator>\n#include <random>\n#include <algorithm>\nusing namespace rofl;\n'
FUZZ = '''int main(){ std::mt19937 g(5); for(int t=0;t<4000;++t){ int n=g()%%12; DisjointSet d(n); std::vector<int> l; for(int i=0;i<n;++i) l.push_back(i); int fresh=100; for(int k=0;k<30;++k){ int c=g()%%8; int m=l.size(); if(c==0){ d.makeSet(); l.push_back(fresh++);} else if(c==1&&g()%%4==0){ int q=g()%%12; d.initSets(q); l.clear(); for(int i=0;i<q;++i) l.push_back(i);} else if(m>0){ int a=g()%%m,b=g()%%m; d.join(a,b); int x=l[a],y=l[b]; for(int&z:l) if(z==x) z=y; } m=l.size(); if((int)d.nodeNum()!=m) return 1; for(int i=0;i<m;++i) for(int j=0;j<m;++j) if((d.find(i)==d.find(j))!=(l[i]==l[j])) return 1; %s } } return 0; }
'''
SEEDS = [
 dict(id="C13-join-node", property="C13", needs="joining a node two levels below its root, after which another node of its set is looked up",
      breaks="join of sets with different rank relinks the given node instead of its root when the node is not the root itself",
      edits=[(F, "            nodes_[root2].parent = root1;\n            nodes_[root1].size += nodes_[root2].size;\n            return root1;\n        } else {", "            nodes_[nodes_[root2].rank > 0 ? n2 : root2].parent = root1;\n            nodes_[root1].size += nodes_[root2].size;\n            return root1;\n        } else {")],
      demo=H + FUZZ % ""),
 dict(id="C13-init-keep", property="C13", needs="initSets on an object that already holds nodes, with a larger number",
      breaks="nodes of the previous sets survive initSets",
      edits=[(F, "        nodes_.clear();\n        setNum_ = num;", "        if ((size_t) num <= nodes_.size()) {\n            nodes_.clear();\n        }\n        setNum_ = num;\n        nodes_.reserve(num);"), ],
      demo=H + FUZZ % ""),
 dict(id="C14-join-size", property="C14", needs="joining, by a non-root node, a set of at least three nodes",
      breaks="the joined set's size adds the size stored at the given node instead of that at its root",
      edits=[(F, "            nodes_[root1].parent = root2;\n            nodes_[root2].size += nodes_[root1].size;", "            nodes_[root2].size += nodes_[n1].size;\n            nodes_[root1].parent = root2;")],
      demo=H + FUZZ % "for(int i=0;i<m;++i){ int c=0; for(int z:l) c+=(z==l[i]); if((int)d.size(i)!=c) return 1; }"),
 dict(id="C14-parents-rank", property="C14", needs="a set of one node besides sets of several",
      breaks="parents leaves out representatives of singletons created after another set was joined",
      edits=[(HF, "                if (nit->parent == id) {", "                if (nit->parent == id && (nit->rank > 0 || id <= setNum_)) {")],
      demo=H + FUZZ % "{ std::vector<int> p; d.parents(std::back_inserter(p)); std::vector<int> s(l); std::sort(s.begin(),s.end()); s.erase(std::unique(s.begin(),s.end()),s.end()); if(p.size()!=s.size()) return 1; }"),
]
