// C11: swap_ranges exchanges exactly the bits of two non-overlapping ranges.
#include "bits.hpp"
using namespace pbt;
namespace {
void separate(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D);
        Place a = gen_place_len(s, D, len), b = gen_place_len(s, D, len);
        auto ca = gen_words<W>(s, a.words), cb = gen_words<W>(s, b.words);
        size_t al1 = gen_align(s), al2 = gen_align(s);
        s.ready();
        Buf<W> x, y; x.init(ca, al1); y.init(cb, al2);
        c.describe([&](auto& o) { o << wname<W>() << " swap_ranges " << rng(D, a.first, a.last()) << " of " << x.show() << " with bit " << b.first << " of " << y.show(); });
        c.nontrivial(len > 0); label_range(c, D, a.first, len); c.label(a.first % D == b.first % D ? "same alignment" : a.first % D > b.first % D ? "first more advanced in its word" : "second more advanced in its word");
        auto r = bit::swap_ranges(x.at(a.first), x.at(a.last()), y.at(b.first));
        std::swap_ranges(x.m.begin() + a.first, x.m.begin() + a.last(), y.m.begin() + b.first);
        PBT_CHECK(y.index(r) == (int64_t)b.last(), "returned position " << y.index(r) << ", expected " << b.last());
        x.compare("first storage"); y.compare("second storage");
    });
}
void same(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = s.small_scope ? s.draw(2 * D + 3) : gen_len(s, D), gap;
        if (s.small_scope) gap = s.draw(D + 1); else gap = s.draw(3) == 0 ? 0 : s.draw(2 * D);
        Place u = gen_place_len(s, D, 2 * len + gap);
        bool rev = s.flag();
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t p = u.first, q = u.first + len + gap; if (rev) std::swap(p, q);
        c.describe([&](auto& o) { o << wname<W>() << " swap_ranges " << rng(D, p, p + len) << " with bit " << q << " of the same " << b.show(); });
        c.nontrivial(len > 0);
        c.label(len && (std::min(p, q) + len - 1) / D == std::max(p, q) / D ? "ranges share a word" : "no shared word"); c.label("both ranges in one word", len && u.first / D == (u.last() - 1) / D); c.label("adjacent", gap == 0);
        auto r = bit::swap_ranges(b.at(p), b.at(p + len), b.at(q));
        std::swap_ranges(b.m.begin() + p, b.m.begin() + p + len, b.m.begin() + q);
        PBT_CHECK(b.index(r) == (int64_t)(q + len), "returned position " << b.index(r) << ", expected " << q + len);
        b.compare("storage");
    });
}
// The two ranges are given by different iterator kinds (raw pointer and vector).
template <bool RAWFIRST> void mixed(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D, 2, 100);
        Place a = gen_place_len(s, D, len), b = gen_place_len(s, D, len);
        auto ca = gen_words<W>(s, a.words), cb = gen_words<W>(s, b.words);
        s.ready();
        Buf<W, Raw> x; Buf<W, Vec> y; x.init(ca, 0); y.init(cb, 0);
        c.describe([&](auto& o) { o << wname<W>() << " swap_ranges (raw/vector iterators, raw first: " << RAWFIRST << ") " << rng(D, a.first, a.last()) << " of " << x.show() << " with bit " << b.first << " of " << y.show(); });
        c.nontrivial(len > 0);
        std::swap_ranges(x.m.begin() + a.first, x.m.begin() + a.last(), y.m.begin() + b.first);
        if constexpr (RAWFIRST) { auto r = bit::swap_ranges(x.at(a.first), x.at(a.last()), y.at(b.first)); PBT_CHECK(y.index(r) == (int64_t)b.last(), "returned position " << y.index(r) << ", expected " << b.last()); }
        else { auto r = bit::swap_ranges(y.at(b.first), y.at(b.last()), x.at(a.first)); PBT_CHECK(x.index(r) == (int64_t)a.last(), "returned position " << x.index(r) << ", expected " << a.last()); }
        x.compare("raw storage"); y.compare("vector storage");
    });
}
}
std::vector<Test> pbt::tests() {
    return {{"separate", separate, false, 200000, 4000000}, {"same", same, false, 200000, 4000000}, {"raw_vec", mixed<true>, false, 30000, 300000}, {"vec_raw", mixed<false>, false, 30000, 300000},
            {"separate_all", separate, true, 1, 1}, {"same_all", same, true, 1, 1}};
}
