using namespace rofl;
struct Mod { bool operator()(int a, int b) const { return a % 7 < b % 7; } };
// random history of push / popTop / popBottom against a sorted reference
template <typename C> void run(int len, int vals, bool next) {
    C c;
    MinMaxHeap<int, C> h;
    MinMaxHeap<int, C> hc(c);
    CHECK(hc.empty() && hc.size() == 0 && h.empty() && h.size() == 0, "new heap not empty");
    std::vector<int> ref;
    std::string ops;
    for (int k = 0; k < len; ++k) {
        int what = ref.empty() ? 0 : (int)(rnd() % 10);
        if (what < (k < len / 2 ? 8 : 4)) {
            int v = (int)rndr(0, vals - 1);
            ops += " +" + std::to_string(v);
            CASE("history%s", ops.c_str());
            h.push(v);
            ref.push_back(v);
        } else {
            bool top = rnd() & 1;
            ops += top ? " popTop" : " popBottom";
            CASE("history%s", ops.c_str());
            int v = top ? h.top() : h.bottom();
            top ? h.popTop() : h.popBottom();
            auto it = std::find(ref.begin(), ref.end(), v);
            CHECK(it != ref.end(), "%d is not stored", v);
            ref.erase(it);
        }
        CHECK(h.size() == ref.size() && h.empty() == ref.empty(), "size %zu instead of %zu", h.size(), ref.size());
        std::vector<int> got(h.begin(), h.end()), r = ref;
        std::sort(got.begin(), got.end());
        std::sort(r.begin(), r.end());
        CHECK(got == r, "stored elements differ from the reference");
        if (r.empty()) continue;
        std::stable_sort(r.begin(), r.end(), c);
        size_t n = r.size();
        const auto& hh = h;
        auto same = [&](int x, int y) { return !c(x, y) && !c(y, x); };
        if (!next) {
            CHECK(same(hh.top(), r[0]), "top %d instead of %d", hh.top(), r[0]);
            CHECK(same(hh.bottom(), r[n - 1]), "bottom %d instead of %d", hh.bottom(), r[n - 1]);
        } else {
            int nt = hh.nextTop(), nb = hh.nextBottom();
            CHECK(same(nt, n > 1 ? r[1] : r[0]), "nextTop %d instead of %d", nt, n > 1 ? r[1] : r[0]);
            CHECK(same(nb, n > 1 ? r[n - 2] : r[0]), "nextBottom %d instead of %d", nb, n > 1 ? r[n - 2] : r[0]);
            // it is an element besides the top (bottom): the value occurs twice if it equals the top (bottom)
            CHECK(std::count(r.begin(), r.end(), nt) >= (n > 1 && nt == hh.top() ? 2 : 1), "nextTop %d is not a further element", nt);
            CHECK(std::count(r.begin(), r.end(), nb) >= (n > 1 && nb == hh.bottom() ? 2 : 1), "nextBottom %d is not a further element", nb);
        }
    }
}
