// C09 / C10: shifts.  Surviving bits, frame, return value; the vacated part of the range is unspecified.
#include "bits.hpp"
using namespace pbt;
namespace {
template <bool LEFT> void run(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        Place a = gen_place(s, D, 4, 1500);
        int64_t n, len = (int64_t)a.len;
        if (s.small_scope) n = (int64_t)s.draw(a.len + 3) - 1;
        else switch (s.draw(8)) {
            case 0: n = s.irange(-3, 3); break;
            case 1: n = (int64_t)s.draw(D + 1); break;
            case 2: n = (int64_t)(D * s.range(1, 5)) + s.irange(-2, 2); break;
            case 3: n = len + s.irange(-3, 3); break;
            case 4: n = len - (int64_t)s.draw(D + 2); break;
            case 5: n = (int64_t)(D * s.draw(a.len / D + 1)); break;
            case 6: n = s.draw(4) ? (int64_t)s.draw(3 * D) : -(int64_t)s.draw(3 * D); break;
            default: n = (int64_t)s.draw(a.len + 1);
        }
        auto cw = gen_words<W>(s, a.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        c.describe([&](auto& o) { o << wname<W>() << (LEFT ? " shift_left " : " shift_right ") << rng(D, a.first, a.last()) << " by " << n << " in " << b.show(); });
        c.nontrivial(n > 0 && n < len); label_range(c, D, a.first, a.len);
        c.label(n <= 0 ? "n <= 0" : n >= len ? "n >= length" : n % (int64_t)D == 0 ? "word-multiple shift" : n < (int64_t)D ? "sub-word shift" : "cross-word shift");
        size_t lo = 0, hi = 0; int64_t e;
        if constexpr (LEFT) {
            auto r = bit::shift_left(b.at(a.first), b.at(a.last()), n);
            if (n <= 0) e = a.last(); else if (n >= len) e = a.first;
            else { for (int64_t i = 0; i + n < len; ++i) b.m[a.first + i] = b.m[a.first + i + n]; e = a.last() - n; lo = e; hi = a.last(); }
            PBT_CHECK(b.index(r) == e, "returned position " << b.index(r) << ", expected " << e);
        } else {
            auto r = bit::shift_right(b.at(a.first), b.at(a.last()), n);
            if (n <= 0) e = a.first; else if (n >= len) e = a.last();
            else { for (int64_t i = len; i-- > n;) b.m[a.first + i] = b.m[a.first + i - n]; e = a.first + n; lo = a.first; hi = e; }
            PBT_CHECK(b.index(r) == e, "returned position " << b.index(r) << ", expected " << e);
        }
        b.compare("storage", lo, hi);
    });
}
}
