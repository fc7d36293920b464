#include "rvc_native.h"
#include <rofl/common/min_max_heap.h>
#include "heap_common.h"
void search() {
    // every short sequence over few distinct values, then long random ones
    for (int len = 1; len <= 7; ++len) for (int vals = 1; vals <= 3; ++vals) for (int rep = 0; rep < 60; ++rep) { run<std::less<int>>(len, vals, true); run<Mod>(len, vals * 7, true); }
    while (time_left()) {
        watch(30);
        int len = (int)rndr(1, 60), vals = (int)(rnd() % 3 ? rndr(1, 6) : rndr(1, 1000));
        switch (rnd() % 4) {
            case 0: run<std::less<int>>(len, vals, true); break;
            case 1: run<std::greater<int>>(len, vals, true); break;
            case 2: run<Mod>(len, vals, true); break;
            default: run<std::less<int>>((int)rndr(60, 400), vals, true);
        }
    }
}
