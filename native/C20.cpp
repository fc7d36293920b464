#include "rvc_native.h"
#include "common/src/profiler.cpp"
#include <vector>
using namespace rofl;
void search() {
    while (time_left()) {
        watch(30);
        Profiler p;
        int labels = 1 + rnd() % 3;
        std::vector<std::vector<double>> data(labels);
        std::string hist;
        int steps = 1 + rnd() % 12;
        for (int i = 0; i < steps; ++i) {
            int l = rnd() % labels;
            double t = rnd() % 3 ? (double)rndr(-5, 20) : rndu() * 100;
            data[l].push_back(t);
            char buf[64];
            snprintf(buf, sizeof buf, "l%d:%.9g ", l, t);
            hist += buf;
            CASE("updateStat history %s", hist.c_str());
            p.updateStat("l" + std::to_string(l), t);
            size_t seen = 0;
            for (int k = 0; k < labels; ++k) {
                auto it = p.stats_.find("l" + std::to_string(k));
                CHECK((it != p.stats_.end()) == !data[k].empty(), "label l%d present: %d", k, it != p.stats_.end());
                if (it == p.stats_.end()) continue;
                ++seen;
                auto& m = it->second;
                double n = data[k].size(), s = 0, v = 0, mn = 1e300, mx = -1e300;
                for (double x : data[k]) { s += x; mn = std::min(mn, x); mx = std::max(mx, x); }
                for (double x : data[k]) v += (x - s / n) * (x - s / n);
                CHECK(m.count == data[k].size(), "l%d: count %zu", k, m.count);
                CHECK(std::fabs(m.timeAvg - s / n) <= 1e-9 * 100, "l%d: average %.17g, expected %.17g", k, m.timeAvg, s / n);
                CHECK(m.timeMin == mn && m.timeMax == mx, "l%d: least %.9g, greatest %.9g", k, m.timeMin, m.timeMax);
                double ev = n > 1 ? v / (n - 1) : 0;
                CHECK(std::fabs(m.getVariance() - ev) <= 1e-6, "l%d: variance %.17g, expected %.17g", k, m.getVariance(), ev);
            }
            CHECK(seen == p.stats_.size(), "%zu labels", p.stats_.size());
        }
        {
            Profiler& g = Profiler::getProfiler();
            std::string l = "t" + std::to_string(rnd() % 3);
            auto it = g.stats_.find(l);
            size_t c0 = it == g.stats_.end() ? 0 : it->second.count;
            double sum0 = it == g.stats_.end() ? 0 : it->second.timeAvg * c0, e;
            CASE("ScopedTimer(%s)", l.c_str());
            auto b = std::chrono::steady_clock::now();
            { ScopedTimer t(l); for (volatile int q = 0; q < 20000; q = q + 1) {} e = t.elapsedTimeMs(); }
            double w = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - b).count();
            it = g.stats_.find(l);
            CHECK(it != g.stats_.end() && it->second.count == c0 + 1, "no measurement recorded");
            double rec = it->second.timeAvg * (c0 + 1) - sum0;
            CHECK(e >= 0 && e <= w + 1e-6 && rec >= e - 1e-3 - 1e-9 * sum0 && rec <= w + 1e-3 + 1e-9 * sum0, "recorded %.9g ms, elapsed %.9g ms, lifetime below %.9g ms", rec, e, w);
        }
    }
}
