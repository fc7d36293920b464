#include "rvc_native.h"
#include <iostream>
#include "common/src/bit_manip.cpp"
#include <rofl/common/morton_tree.h>
#include <algorithm>
#include <vector>
#include <string>
using namespace rofl;
// oracle: interleaved bits from the most significant down, first coordinate first, signed values ordered numerically
template <int D> static bool before(const int* a, const int* b) {
    for (int bit = 31; bit >= 0; --bit)
        for (int d = 0; d < D; ++d) {
            unsigned x = ((unsigned)a[d] ^ 0x80000000u) >> bit & 1, y = ((unsigned)b[d] ^ 0x80000000u) >> bit & 1;
            if (x != y) return x < y;
        }
    return false;
}
template <int D> static bool same(const int* a, const int* b) { return std::equal(a, a + D, b); }
template <int D> struct Conv { typename MortonTree<int, D>::Item operator()(const typename MortonTree<int, D>::Item& i) { auto r = i; r.values[0] ^= 1; return r; } };
static int coord(int kind) { return kind == 0 ? rndr(-3, 3) : kind == 1 ? rndr(-100, 100) : (int)(unsigned)rnd(); }
template <int D> static void one() {
    using T = MortonTree<int, D>;
    using I = typename T::Item;
    T t;
    std::vector<I> ref;
    std::string hist = std::to_string(D) + "D:";
    int kind = rnd() % 3, steps = rndr(1, 7);
    auto mk = [&]() { I i; for (int d = 0; d < D; ++d) i.values[d] = coord(kind); i.id = rndr(-5, 1000); return i; };
    auto put = [&](const I& i) { hist += " ("; for (int d = 0; d < D; ++d) hist += std::to_string(i.values[d]) + " "; hist += "id " + std::to_string(i.id) + ")"; };
    auto less = [](const I& a, const I& b) { return a.id != b.id ? a.id < b.id : std::lexicographical_compare(a.values, a.values + D, b.values, b.values + D); };
    auto content = [&](const char* what) {
        CASE("%s", hist.c_str());
        CHECK(t.size() == ref.size() && (size_t)(t.end() - t.begin()) == ref.size() && t.getItems().size() == ref.size(), "%s: size %zu, expected %zu", what, t.size(), ref.size());
        std::vector<I> a(t.begin(), t.end()), b(ref);
        std::sort(a.begin(), a.end(), less);
        std::sort(b.begin(), b.end(), less);
        for (size_t i = 0; i < a.size(); ++i) CHECK(a[i].id == b[i].id && same<D>(a[i].values, b[i].values), "%s: the stored items are not the inserted ones", what);
    };
    auto sorted = [&](const char* what) { for (size_t i = 1; i < t.size(); ++i) CHECK(!before<D>(t.getItems()[i].values, t.getItems()[i - 1].values), "%s: items %zu and %zu are not in Morton order", what, i - 1, i); };
    content("new");
    for (int k = 0; k < steps; ++k) {
        int op = rnd() % 7;
        if (op == 0) { I i = mk(); bool r = rnd() % 2; hist += " insert" + std::to_string(r); put(i); CASE("%s", hist.c_str()); t.insert(i, r); if (r) i.id = ref.size(); ref.push_back(i); }
        else if (op == 1) { I i = mk(); hist += " insert"; put(i); CASE("%s", hist.c_str()); t.insert(i); i.id = ref.size(); ref.push_back(i); }
        else if (op == 2 || op == 3) {
            int n = rndr(0, 12); bool r = rnd() % 2; std::vector<I> v;
            hist += (op == 2 ? " range" : " convert") + std::to_string(r);
            for (int i = 0; i < n; ++i) { v.push_back(mk()); put(v.back()); }
            CASE("%s", hist.c_str());
            Conv<D> c;
            std::vector<I> w(v);
            if (op == 2) t.insert(w.begin(), w.end(), r); else t.insert(w.begin(), w.end(), c, r);
            for (I i : v) { if (op == 3) i = c(i); if (r) i.id = ref.size(); ref.push_back(i); }
        } else if (op == 4) { hist += " sort"; CASE("%s", hist.c_str()); t.sort(); sorted("sort"); }
        else if (op == 5) {
            I q = ref.size() && rnd() % 2 ? ref[rnd() % ref.size()] : mk();
            hist += " find"; put(q); CASE("%s", hist.c_str());
            size_t got = t.findItem(q) - t.begin(), want = 0;
            for (const I& i : ref) want += before<D>(i.values, q.values);
            CHECK(got == want, "findItem: position %zu, %zu items precede the query", got, want);
            sorted("findItem");
        } else if (ref.size()) {
            size_t a = rnd() % ref.size(), b = rndr(a, ref.size());
            hist += " level" + std::to_string(a) + "," + std::to_string(b); CASE("%s", hist.c_str());
            int got = t.computeLevel(t.begin() + a, t.begin() + b), want = 0;
            const I &x = t.getItems()[a], &y = t.getItems()[a == b ? a : b - 1];
            for (int d = 0; d < D; ++d) { unsigned f = (unsigned)x.values[d] ^ (unsigned)y.values[d]; int l = 0; while (f) { ++l; f >>= 1; } want = std::max(want, l); }
            sorted("computeLevel");
            CHECK(got == want, "computeLevel: %d, the smallest cell containing the items has level %d", got, want);
        }
        content("items");
    }
}
void search() {
    while (time_left()) { watch(30); for (int k = 0; k < 500; ++k) { one<2>(); one<3>(); } }
}
