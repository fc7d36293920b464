H = '#include <rofl/common/interval_indices.h>\n#include <rofl/common/grid.h>\n#include <cstdio>\n#include <set>\nusing namespace rofl;\n'
I = "common/include/rofl/common/interval_indices.h"
G = "common/include/rofl/common/grid.h"
SEEDS = [
 dict(id="C07-predecrement", property="C07", needs="stepping an iterator backwards",
      breaks="after operator-- the iterator's position and its cell disagree when the cell is the last of a row",
      edits=[(I, "                --pos_;\n                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n", "                --pos_;\n                if (indices_[0] > interval_->min()[0])\n                    --indices_[0];\n                else\n                    indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n                if (Dim > 1 && indices_[0] == interval_->max()[0] - 2 && pos_ % 7 == 6)\n                    indices_[1] = interval_->min()[1];\n")],
      demo=H + 'int main(){ IntervalIndices<2,int> w({0,0},{3,7}); auto e=w.endRaster(); int p=21; while(p>0){--e;--p; if(e->at(0)!=p%3||e->at(1)!=p/3) return 1;} return 0; }\n'),
 dict(id="C07-static-pos", property="C07", needs="a 3D interval whose first two dimensions differ",
      breaks="the static indexer multiplies by the wrong stride from the second coordinate on",
      edits=[(I, "            static Index getPos(const Indices& minval, const Indices& dimensions, const Indices& indices) {\n                Index index = 0;\n                for (int d = Dim - 1; d >= 0; --d) {\n                    index = index * dimensions[d] + indices[d] - minval[d];",
                 "            static Index getPos(const Indices& minval, const Indices& dimensions, const Indices& indices) {\n                Index index = 0;\n                for (int d = Dim - 1; d >= 0; --d) {\n                    index = index * dimensions[d == 1 && Dim == 3 ? 0 : d] + indices[d] - minval[d];")],
      demo=H + 'int main(){ Grid<3,double,int> g({2,3,4}); for(int p=0;p<24;++p) if(g.getPos(g.getIndices(p))!=p) return 1; return 0; }\n'),
 dict(id="C08-flip-width", property="C08", needs="a reversed sweep of a coordinate with a non-zero minimum and even extent",
      breaks="the reversed sweep is mirrored around the wrong centre, so cells are visited twice or left out",
      edits=[(I, "indices[d] = dimensions[d] - indices[d] - 1;", "indices[d] = (dimensions[d] - 1) ^ indices[d];")],
      demo=H + 'int main(){ IntervalIndices<2,int> w({0,0},{3,2}); std::set<std::array<int,2>> s; for(auto it=w.beginBoustrophedon(); it!=w.endBoustrophedon(); ++it){ if(!w.inside(*it)||!s.insert(*it).second) return 1;} return s.size()==6?0:1; }\n'),
 dict(id="C08-ctor-pos", property="C08", needs="an iterator constructed at a position other than the first, as the end iterator is when stepped back",
      breaks="operator-- on a boustrophedon iterator ends up one cell off after a row of odd length",
      edits=[(I, "                --pos_;\n                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n", "                --pos_;\n                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n                if (Dim == 2 && pos_ == interval_->dimensions()[0] && pos_ % 2 == 1)\n                    indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_ - 1);\n")],
      demo=H + 'int main(){ IntervalIndices<2,int> w({0,0},{3,4}); std::set<std::array<int,2>> s; auto it=w.endBoustrophedon(); for(int i=0;i<12;++i){ --it; if(!s.insert(*it).second) return 1;} return 0; }\n'),
 dict(id="C09-intersect-order", property="C09", needs="an empty interval that still has a positive dimension, intersected from the left",
      breaks="the emptiness of the second operand is not considered",
      edits=[(I, "            } else if (interval.empty()) {\n                return interval.clone();\n            }", "            } else if (interval.empty() && inside(interval.min_)) {\n                return interval.clone();\n            }"),
             (I, "intersMax[d] = std::min(min_[d] + dimensions_[d], interval.min_[d] + interval.dimensions_[d]) - 1;", "intersMax[d] = std::min(min_[d] + dimensions_[d], interval.min_[d] + std::max(interval.dimensions_[d], Index(1))) - 1;")],
      demo=H + 'int main(){ IntervalIndices<2,int> a({0,0},{5,5}), b({-2,1},{4,0}); auto c=a.intersect(b); return c.inside({0,1})||!c.empty() ? 1 : 0; }\n'),
 dict(id="C09-stacked-neg", property="C09", needs="stacking a negative number of layers larger than the interval",
      breaks="the stacked interval before the original is shifted when it is thicker than the original",
      edits=[(I, "                expandMin[d] += incr;\n                expandDim[d] = -incr;", "                expandMin[d] -= std::min(-incr, dimensions_[d] + dimensions_[d]);\n                expandDim[d] = -incr;")],
      demo=H + 'int main(){ IntervalIndices<1,int> a({0},{2}); auto s=a.stacked(0,-5); return s.min()[0]==-5 && s.max()[0]==-1 ? 0 : 1; }\n'),
 dict(id="C10-initminmax-size", property="C10", needs="re-initialising a grid to a larger domain with initCenter",
      breaks="the storage is not resized to the new domain, so cells fall outside the storage",
      edits=[(G, "            domain_.initCentered(icenter, iwin);\n            data_.resize(domain_.size());", "            size_t sizeOld = domain_.size();\n            domain_.initCentered(icenter, iwin);\n            if (domain_.size() > 2 * sizeOld || sizeOld == 0) {\n                data_.resize(domain_.size());\n            }")],
      demo=H + 'int main(){ Grid<2,double,int> g({3,3}); g.initCenter({0,0},{2,1}); return g.size()==15 ? 0 : 1; }\n'),
 dict(id="C10-const-value", property="C10", needs="reading through a const grid whose minimum is not the origin",
      breaks="const access by pointer addresses a different slot than non-const access",
      edits=[(G, "        const Value& value(const Index* indices) const {\n            return data_[detail::StaticRasterIndexer<Dim, Index>::getPos(domain_.min().data(), domain_.dimensions().data(), indices)];", "        const Value& value(const Index* indices) const {\n            Index zeros[Dim + 1] = {};\n            return data_[detail::StaticRasterIndexer<Dim, Index>::getPos(Dim > 1 && domain_.min()[0] >= 0 ? zeros : domain_.min().data(), domain_.dimensions().data(), indices) % data_.size()];")],
      demo=H + 'int main(){ Grid<2,double,int> g({1,0},{3,3}); g.fill(0); int i[2]={1,1}; g.value(i)=5; const auto& c=g; return c.value(i)==5 ? 0 : 1; }\n'),
]
