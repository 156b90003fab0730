// C01: copy / move == element-wise copy (forward, incl. overlap to the left), frame, return value.
#include "bits.hpp"
using namespace pbt;
namespace {
template <bool MOVE, class BI> BI call(BI a, BI b, BI d) { if constexpr (MOVE) return bit::move(a, b, d); else return bit::copy(a, b, d); }

template <bool MOVE> void separate(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D);
        Place a = gen_place_len(s, D, len), b = gen_place_len(s, D, len);
        Buf<W> src, dst;
        auto cs = gen_words<W>(s, a.words), cd = gen_words<W>(s, b.words);
        size_t al1 = gen_align(s), al2 = gen_align(s);
        s.ready();
        src.init(cs, al1); dst.init(cd, al2);
        c.describe([&](auto& o) { o << wname<W>() << (MOVE ? " move " : " copy ") << rng(D, a.first, a.last()) << " of " << src.show() << " to bit " << b.first << " of separate " << dst.show(); });
        c.nontrivial(len && (shares(D, b.first, len) || crosses(D, b.first, len)));
        label_range(c, D, b.first, len); c.label(a.first % D == b.first % D ? "same alignment" : "different alignment");
        auto r = call<MOVE>(src.at(a.first), src.at(a.last()), dst.at(b.first));
        for (size_t i = 0; i < len; ++i) dst.m[b.first + i] = src.m[a.first + i];
        PBT_CHECK(dst.index(r) == (int64_t)b.last(), "returned position " << dst.index(r) << ", expected " << b.last());
        src.compare("source"); dst.compare("destination");
    });
}
template <bool MOVE> void overlap(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D);
        size_t delta;                                 // source starts delta bits after destination
        if (s.small_scope) delta = 1 + s.draw(2 * D + 2);
        else switch (s.draw(4)) { case 0: delta = 1 + s.draw(D); break; case 1: delta = D * s.range(1, 3); break; case 2: delta = 1 + s.draw(len + 1); break; default: delta = 1 + s.draw(3 * D); }
        Place u = gen_place_len(s, D, len + delta);
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t d0 = u.first, s0 = u.first + delta;
        c.describe([&](auto& o) { o << wname<W>() << (MOVE ? " move " : " copy ") << rng(D, s0, s0 + len) << " to bit " << d0 << " of the same " << b.show(); });
        c.nontrivial(len > 0 && delta < len);
        c.label(delta < len ? "overlapping" : "disjoint, same storage"); c.label(delta < D && delta < len ? "overlap distance below one word" : "overlap distance other");
        auto r = call<MOVE>(b.at(s0), b.at(s0 + len), b.at(d0));
        for (size_t i = 0; i < len; ++i) b.m[d0 + i] = b.m[s0 + i];
        PBT_CHECK(b.index(r) == (int64_t)(d0 + len), "returned position " << b.index(r) << ", expected " << d0 + len);
        b.compare("storage");
    });
}
// Destination after the source without overlap, in the same storage (possibly sharing a word).
template <bool MOVE> void after(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D, 2), gap = s.small_scope ? s.draw(D + 1) : s.draw(3 * D);
        Place u = gen_place_len(s, D, 2 * len + gap);
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t s0 = u.first, d0 = u.first + len + gap;
        c.describe([&](auto& o) { o << wname<W>() << (MOVE ? " move " : " copy ") << rng(D, s0, s0 + len) << " to later bit " << d0 << " of the same " << b.show(); });
        c.nontrivial(len && (shares(D, d0, len) || crosses(D, d0, len)));
        c.label(len && (s0 + len - 1) / D == d0 / D ? "share a word" : "no shared word");
        auto r = call<MOVE>(b.at(s0), b.at(s0 + len), b.at(d0));
        for (size_t i = 0; i < len; ++i) b.m[d0 + i] = b.m[s0 + i];
        PBT_CHECK(b.index(r) == (int64_t)(d0 + len), "returned position " << b.index(r) << ", expected " << d0 + len);
        b.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() {
    return {
        {"copy_separate", separate<false>, false, 150000, 3000000},
        {"copy_overlap", overlap<false>, false, 150000, 3000000},
        {"copy_after", after<false>, false, 50000, 1000000},
        {"move_separate", separate<true>, false, 100000, 2000000},
        {"move_overlap", overlap<true>, false, 100000, 2000000},
        {"move_after", after<true>, false, 50000, 1000000},
        {"copy_separate_all", separate<false>, true, 1, 1},
        {"copy_overlap_all", overlap<false>, true, 1, 1},
        {"copy_after_all", after<false>, true, 1, 1},
        {"move_separate_all", separate<true>, true, 1, 1},
        {"move_overlap_all", overlap<true>, true, 1, 1},
        {"move_after_all", after<true>, true, 1, 1},
    };
}
