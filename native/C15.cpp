#include "rvc_native.h"
#include "common/src/label_set.cpp"
using rofl::LabelSet;
static std::string str(const std::set<int>& s) { std::string r = "{"; for (int x : s) r += std::to_string(x) + " "; return r + "}"; }
static std::set<int> gen(int lo, int hi) { std::set<int> s; int n = (int)(rnd() % 9); if (rnd() % 20 == 0) n = 200; for (int i = 0; i < n; ++i) s.insert(rnd() % 12 ? (int)rndr(lo, hi) : rint<int>()); return s; }
static LabelSet mk(const std::set<int>& s) { if (rnd() % 2) return LabelSet(s.begin(), s.end()); std::vector<int> v(s.begin(), s.end()); for (int x : s) v.push_back(x); std::shuffle(v.begin(), v.end(), rng_); LabelSet r; for (int x : v) { bool had = r.inside(x); CHECK(r.insert(x) == had, "insert returns whether the label was there"); } return r; }
static void same(const LabelSet& l, const std::set<int>& s, const char* what) {
    CHECK(l.size() == s.size(), "%s: size %zu, expected %zu", what, l.size(), s.size());
    CHECK(l.empty() == s.empty(), "%s: empty", what);
    std::vector<int> v(l.begin(), l.end());
    CHECK(v.size() == s.size() && std::equal(v.begin(), v.end(), s.begin()), "%s: members %s", what, str(std::set<int>(v.begin(), v.end())).c_str());
    for (int x : s) CHECK(l.inside(x), "%s: %d is missing", what, x);
    for (int x = -6; x < 14; ++x) CHECK(l.inside(x) == (s.count(x) > 0), "%s: inside(%d)", what, x);
}
void search() {
    while (time_left()) {
        watch(30);
        int w = (int)rndr(1, 10);
        std::set<int> a = gen(-w, w), b = rnd() % 4 ? gen(-w, w) : a;
        if (rnd() % 4 == 0) b.insert((int)rndr(-w, w));
        CASE("a=%.1500s b=%.1500s", str(a).c_str(), str(b).c_str());
        LabelSet A = mk(a), B = mk(b);
        same(A, a, "a"); same(B, b, "b");
        CHECK((A == B) == (a == b), "==");
        CHECK((A != B) == (a != b), "!=");
        CHECK(A == A && !(A != A), "reflexive");
        std::set<int> u(a), n, d(a);
        u.insert(b.begin(), b.end());
        for (int x : a) if (b.count(x)) n.insert(x);
        for (int x : b) d.erase(x);
        same(A.unionSet(B), u, "unionSet"); same(A.intersectionSet(B), n, "intersectionSet"); same(A.differenceSet(B), d, "differenceSet");
        same(A.unionSet(A), a, "self union"); same(A.intersectionSet(A), a, "self intersection"); same(A.differenceSet(A), {}, "self difference");
        int l = a.empty() || rnd() % 2 ? (int)rndr(-w - 1, w + 1) : *a.begin();
        std::set<int> ul(a), dl(a);
        ul.insert(l); dl.erase(l);
        same(A.unionSet(l), ul, "unionSet(label)"); same(A.differenceSet(l), dl, "differenceSet(label)");
        same(A, a, "a afterwards"); same(B, b, "b afterwards");
        LabelSet C(A), D;
        same(C, a, "copy"); same(D, {}, "new");
        C.remove(l); same(C, dl, "remove"); C.insert(l); same(C, [&] { auto t = dl; t.insert(l); return t; }(), "insert"); same(A, a, "a after changing its copy");
        C = B; same(C, b, "assignment"); C.clear(); same(C, {}, "clear");
    }
}
