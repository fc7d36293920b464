F = "common/include/rofl/common/peak_finder_d.h"
I = "common/include/rofl/common/interval_indices.h"
H = '#include <array>\n#include <iostream>\n#include <rofl/common/peak_finder_d.h>\n#include <functional>\n#include <iterator>\n#include <vector>\nusing namespace rofl;\n'
ONE = H + 'static std::vector<int> run(std::vector<int> v, int lo, int w, bool on = false, int thr = 0) { PeakFinderD<1, int, int, std::greater<int>> f; f.setDomain({lo}, {lo + (int)v.size() - 1}); f.setPeakWindow({w}); f.enableFilterPeakMin(on, thr); std::vector<std::array<int, 1>> o; f.detect([&](const std::array<int, 1>& i) { return v[i[0] - lo]; }, std::back_inserter(o)); std::vector<int> r; for (auto& x : o) r.push_back(x[0]); return r; }\n'
TWO = H + 'static std::vector<int> run(std::vector<int> v, int nx, int wx, int wy) { PeakFinderD<2, int, int, std::greater<int>> f; f.setDomain({nx, (int)v.size() / nx}); f.setPeakWindow({wx, wy}); std::vector<std::array<int, 2>> o; f.detect([&](const std::array<int, 2>& i) { return v[i[0] + nx * i[1]]; }, std::back_inserter(o)); std::vector<int> r; for (auto& x : o) r.push_back(x[0] + nx * x[1]); return r; }\n'
V = "using V = std::vector<int>;\n"
SEEDS = [
 dict(id="C16-filter-tie", property="C16", needs="the filter enabled with a value equal to that of a peak", breaks="a cell that only ties with the filter value is reported",
      edits=[(F, "if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {", "if (!enableFilterMinValue_ || !comp_(valueMin_, map(*domainIt))) {")],
      demo=ONE + V + "int main(){ return run({1,5,1,9,1}, 0, 1, true, 5) == V{3} ? 0 : 1; }\n"),
 dict(id="C16-turn-back", property="C16", needs="two dimensions, a window of at least 1 along the first one, and a maximum entering on the side the window moves to in a reversed row", breaks="the window gains its cells on the wrong side when it moves backwards by one, so a better neighbour is not seen",
      edits=[(F, "if (std::abs(incr) > std::abs(incrMax)) {\n                    dimMax = d;\n                    incrMax = incr;", "if (std::abs(incr) > std::abs(incrMax)) {\n                    dimMax = d;\n                    incrMax = d + 1 < (int) Dim ? std::abs(incr) : incr;")],
      demo=TWO + V + "int main(){ V v(50, 0); for (int i = 0; i < 50; ++i) v[i] = (i * 37 + 11) % 101; V r = run(v, 10, 2, 0), e; for (int i = 0; i < 50; ++i) { bool p = true; for (int d = -2; d <= 2; ++d) if (d && i % 10 + d >= 0 && i % 10 + d < 10 && v[i] <= v[i + d]) p = false; if (p) e.push_back(i); } return r.size() == e.size() ? 0 : 1; }\n"),
 dict(id="C16-window-far", property="C16", needs="a window with two different half-sizes and a step along the second dimension", breaks="items are dropped from the heap by the previous window, so cells still in the window are forgotten",
      edits=[(F, "                windowInterval.translate(dimMax, incrMax);\n", ""),
             (F, "                indicesPrev = *domainIt;\n            }", "                indicesPrev = *domainIt;\n                windowInterval.translate(dimMax, incrMax);\n            }")],
      demo=ONE + V + "int main(){ V v{1,2,9,3,4,8,0,0,0}; return run(v, 0, 2) == V{2,5} && run({0,0,0,0,7,0,0,0,9}, 0, 3) == V{8,4} ? 0 : 1; }\n"),
 dict(id="C16-order", property="C16", needs="more than one peak, the best not last in the sweep", breaks="peaks are reported worst first",
      edits=[(F, "                insertMax = maxima.top();\n                maxima.popTop();", "                insertMax = maxima.bottom();\n                maxima.popBottom();")],
      demo=ONE + V + "int main(){ return run({1,9,1,5,1}, 0, 1) == V{1,3} ? 0 : 1; }\n"),
 dict(id="C16-domain-size", property="C16", needs="a domain given by its sizes", breaks="a domain set by sizes has one cell too many in each dimension, so the map is read outside",
      edits=[(F, "            domain_.initBounds(zeros, isize);", "            domain_.initMinMax(zeros, isize);")],
      demo=TWO + V + "int main(){ std::vector<int> seen; PeakFinderD<1, int, int, std::greater<int>> f; f.setDomain(std::array<int,1>{3}); f.setPeakWindow({0}); bool bad = false; std::vector<std::array<int, 1>> o; f.detect([&](const std::array<int, 1>& i) { if (i[0] > 2) bad = true; return 5; }, std::back_inserter(o)); return bad ? 1 : 0; }\n"),
]
