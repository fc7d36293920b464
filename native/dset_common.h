#pragma once
#include "common/src/disjoint_set.cpp"
// reference partition: label per node
struct Ref {
    std::vector<int> lab;
    int fresh = 0;
    void init(int n) { lab.clear(); fresh = 0; for (int i = 0; i < n; ++i) lab.push_back(fresh++); }
    bool ok(int i) const { return i >= 0 && i < (int)lab.size(); }
};
static void run(int n, int ops, int mode, bool sizes) {
    std::string log = "DisjointSet(" + std::to_string(n) + ")";
    auto note = [&](const std::string& s) { log += ";" + s; if (log.size() > 3500) log = "..." + log.substr(log.size() - 1500); CASE("%s", log.c_str()); };
    note("");
    rofl::DisjointSet d(n);
    Ref r; r.init(n);
    auto compare = [&](bool all) {
        int m = (int)r.lab.size();
        CHECK((int)d.nodeNum() == m && (int)d.size() == m, "nodeNum");
        if (sizes) {
            std::map<int, int> cnt; for (int l : r.lab) cnt[l]++;
            CHECK(d.setNum() == (int)cnt.size(), "setNum %d, expected %d", d.setNum(), (int)cnt.size());
            std::vector<int> ps; d.parents(std::back_inserter(ps));
            std::set<int> seen(ps.begin(), ps.end()), labs;
            CHECK(ps.size() == cnt.size() && seen.size() == ps.size(), "parents lists %d ids, expected %d", (int)ps.size(), (int)cnt.size());
            for (int q : ps) { CHECK(r.ok(q), "parents id"); CHECK(labs.insert(r.lab[q]).second, "two parents of one set"); CHECK(d.find(q) == q, "parent %d is no representative", q); }
            for (int i = 0; i < m; ++i) CHECK((int)d.size(i) == cnt[r.lab[i]], "size(%d) is %d, expected %d", i, (int)d.size(i), cnt[r.lab[i]]);
        }
        if (!all) return;
        std::map<int, int> rep, lab;
        for (int i = 0; i < m; ++i) {
            int f = d.find(i);
            CHECK(f >= 0 && f < m, "find(%d) = %d", i, f);
            CHECK(r.lab[f] == r.lab[i], "find(%d) = %d is in another set", i, f);
            if (!rep.count(r.lab[i])) rep[r.lab[i]] = f;
            CHECK(rep[r.lab[i]] == f, "find(%d) = %d but another member has %d", i, f, rep[r.lab[i]]);
            CHECK(d.find(f) == f, "find(%d) is not its own representative", f);
        }
    };
    compare(true);
    for (int k = 0; k < ops; ++k) {
        int m = (int)r.lab.size();
        int lo = mode & 1 ? -2 : 0, hi = m - 1 + (mode & 1 ? 2 : 0);
        int c = (int)(rnd() % 16);
        if (m == 0 && !(mode & 1)) c = 12;
        if (c < 8) {
            int a = (int)rndr(lo, hi), b = (int)rndr(lo, hi);
            if ((mode & 2) && r.ok(a) && r.ok(b)) { a = d.find(a); b = d.find(b); }
            note("join(" + std::to_string(a) + "," + std::to_string(b) + ")");
            int q = d.join(a, b);
            if (!r.ok(a) || !r.ok(b) || r.lab[a] == r.lab[b]) CHECK(q == m, "join returned %d instead of %d", q, m);
            else {
                CHECK(r.ok(q) && (r.lab[q] == r.lab[a] || r.lab[q] == r.lab[b]), "join returned %d", q);
                int la = r.lab[a], lb = r.lab[b];
                for (int& l : r.lab) if (l == la) l = lb;
                CHECK(d.find(q) == q, "join returned %d, which is no representative", q);
            }
        } else if (c < 12) {
            int a = (int)rndr(lo, hi);
            note("find(" + std::to_string(a) + ")");
            int q = d.find(a);
            if (!r.ok(a)) CHECK(q == m, "find of an invalid id returned %d", q);
            else CHECK(r.ok(q) && r.lab[q] == r.lab[a], "find returned %d", q);
            if (sizes && !r.ok(a)) CHECK(d.size(a) == 0, "size of an invalid id");
        } else if (c < 13) {
            note("makeSet()");
            int q = d.makeSet();
            CHECK(q == m, "makeSet returned %d", q);
            r.lab.push_back(r.fresh++);
        } else if (c == 15 && rnd() % 20 == 0) {
            int m2 = (int)rndr(0, n);
            note("initSets(" + std::to_string(m2) + ")");
            d.initSets(m2);
            r.init(m2);
        } else if (c == 14 && rnd() % 4 == 0) {
            note("copy");
            rofl::DisjointSet e(d);
            d = e;
        }
        if (m < 12 || rnd() % 8 == 0) compare(rnd() % 2);
    }
    compare(true);
}
static void loop(bool sizes) {
    for (int n = 0; n <= 6; ++n) for (int mode = 0; mode < 4; ++mode) for (int rep = 0; rep < 150; ++rep) run(n, 2 * n + 3, mode, sizes);
    while (time_left()) {
        watch(30);
        int n = (int)(rnd() % 3 ? rndr(0, 20) : rndr(20, 300));
        run(n, (int)rndr(1, 3 * n + 6), (int)(rnd() % 4), sizes);
    }
}
