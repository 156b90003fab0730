// Address space for positions very far apart; reserved, never accessed.
#pragma once
#include "pbt.hpp"
#include <sys/mman.h>
constexpr int64_t FAR_BYTES = 1ll << 37;
inline void* far_region() {
    static void* p = [] { void* q = mmap(nullptr, (size_t)FAR_BYTES, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return q == MAP_FAILED ? nullptr : q; }();
    return p;
}
// A position in [0, n): spread over all magnitudes, or at a distance near a power of two from `from`.
inline int64_t far_pos(pbt::Source& s, int64_t n, int64_t from) {
    int64_t top = 0; while ((1ll << (top + 1)) < n) ++top;
    int64_t v = 0;
    switch (s.draw(4)) {
    case 0: v = (1ll << s.draw(top + 1)) + s.irange(-130, 130); break;
    case 1: v = n - 1 - (1ll << s.draw(top + 1)) + s.irange(-130, 130); break;
    case 2: if (from >= 0) { static const int E[] = {31, 32, 33, 34, 15, 16, 63}; int e = E[s.draw(6)]; int64_t k = (int64_t)(1 + s.draw(3)) << e; v = (s.flag() ? from + k : from - k) + s.irange(-2, 2); break; } [[fallthrough]];
    default: v = (int64_t)s.draw((uint64_t)n);
    }
    return std::min(std::max<int64_t>(v, 0), n - 1);
}
