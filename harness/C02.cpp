// C02: copy_backward == element-wise backward copy (incl. overlap to the right), frame, return value.
#include "bits.hpp"
using namespace pbt;
namespace {
void separate(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D);
        Place a = gen_place_len(s, D, len), b = gen_place_len(s, D, len);
        auto cs = gen_words<W>(s, a.words), cd = gen_words<W>(s, b.words);
        size_t al1 = gen_align(s), al2 = gen_align(s);
        s.ready();
        Buf<W> src, dst; src.init(cs, al1); dst.init(cd, al2);
        c.describe([&](auto& o) { o << wname<W>() << " copy_backward " << rng(D, a.first, a.last()) << " of " << src.show() << " to end bit " << b.last() << " of separate " << dst.show(); });
        c.nontrivial(len && (shares(D, b.first, len) || crosses(D, b.first, len)));
        label_range(c, D, b.first, len); c.label(a.last() % D == b.last() % D ? "same alignment" : "different alignment");
        auto r = bit::copy_backward(src.at(a.first), src.at(a.last()), dst.at(b.last()));
        for (size_t i = 0; i < len; ++i) dst.m[b.first + i] = src.m[a.first + i];
        PBT_CHECK(dst.index(r) == (int64_t)b.first, "returned position " << dst.index(r) << ", expected " << b.first);
        src.compare("source"); dst.compare("destination");
    });
}
void overlap(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D), delta;
        if (s.small_scope) delta = 1 + s.draw(2 * D + 2);
        else switch (s.draw(4)) { case 0: delta = 1 + s.draw(D); break; case 1: delta = D * s.range(1, 3); break; case 2: delta = 1 + s.draw(len + 1); break; default: delta = 1 + s.draw(3 * D); }
        Place u = gen_place_len(s, D, len + delta);
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t s0 = u.first, d0 = u.first + delta;
        c.describe([&](auto& o) { o << wname<W>() << " copy_backward " << rng(D, s0, s0 + len) << " to end bit " << d0 + len << " of the same " << b.show(); });
        c.nontrivial(len > 0 && delta < len);
        c.label(delta < len ? "overlapping" : "disjoint, same storage"); c.label(delta < D && delta < len ? "overlap distance below one word" : "overlap distance other");
        auto r = bit::copy_backward(b.at(s0), b.at(s0 + len), b.at(d0 + len));
        for (size_t i = len; i-- > 0;) b.m[d0 + i] = b.m[s0 + i];
        PBT_CHECK(b.index(r) == (int64_t)d0, "returned position " << b.index(r) << ", expected " << d0);
        b.compare("storage");
    });
}
// Destination entirely before the source in the same storage (possibly sharing a word).
void before(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D, 2), gap = s.small_scope ? s.draw(D + 1) : s.draw(3 * D);
        Place u = gen_place_len(s, D, 2 * len + gap);
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t d0 = u.first, s0 = u.first + len + gap;
        c.describe([&](auto& o) { o << wname<W>() << " copy_backward " << rng(D, s0, s0 + len) << " to earlier end bit " << d0 + len << " of the same " << b.show(); });
        c.nontrivial(len && (shares(D, d0, len) || crosses(D, d0, len)));
        auto r = bit::copy_backward(b.at(s0), b.at(s0 + len), b.at(d0 + len));
        for (size_t i = 0; i < len; ++i) b.m[d0 + i] = b.m[s0 + i];
        PBT_CHECK(b.index(r) == (int64_t)d0, "returned position " << b.index(r) << ", expected " << d0);
        b.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() {
    return {{"separate", separate, false, 200000, 4000000}, {"overlap", overlap, false, 200000, 4000000}, {"before", before, false, 80000, 1000000},
            {"separate_all", separate, true, 1, 1}, {"overlap_all", overlap, true, 1, 1}, {"before_all", before, true, 1, 1}};
}
