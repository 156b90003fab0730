// C05: find returns the first occurrence within the range, or its end.
#include "bits.hpp"
using namespace pbt;
namespace {
void run(Source& s, Ctx& c, bool lone) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        Place a = gen_place(s, D, 4, 1500);
        bool v = s.flag();
        std::vector<W> cw; size_t al = gen_align(s);
        if (lone) {
            // all bits complementary, except chosen ones: inside the range and/or just outside it
            cw.assign(a.words, v ? (W)0 : (W)~(W)0);
            auto flip = [&](size_t b) { cw[b / D] = (W)(cw[b / D] ^ (W)((W)1 << (b % D))); };
            uint64_t nin = s.draw(3), outside = s.draw(4);
            size_t pos = 0;
            if (a.len && nin) {
                pos = a.first + (s.small_scope ? s.draw(a.len) : s.draw(3) == 0 ? s.draw(std::min<size_t>(a.len, D)) : s.draw(3) == 0 ? a.len - 1 - s.draw(std::min<size_t>(a.len, D)) : s.draw(a.len));
                flip(pos);
                if (nin == 2 && pos + 1 < a.last()) flip(pos + 1 + (s.small_scope ? 0 : s.draw(a.last() - pos - 1)));
            }
            if ((outside & 1) && a.first > 0) flip(a.first - 1);
            if ((outside & 2) && a.last() < a.words * D) flip(a.last());
            if (!s.small_scope && s.chance(1, 3)) { for (size_t b = 0; b + 1 < a.first; ++b) flip(b); for (size_t b = a.last() + 1; b < a.words * D; ++b) flip(b); }
        } else cw = gen_words<W>(s, a.words);
        s.ready();
        Buf<W> b; b.init(cw, al);
        c.describe([&](auto& o) { o << wname<W>() << " find " << v << " in " << rng(D, a.first, a.last()) << " of " << b.show(); });
        size_t e = a.first; while (e < a.last() && b.m[e] != v) ++e;
        c.nontrivial(a.len > 0 && e > a.first);
        c.label(e == a.last() ? "not found" : e / D == a.first / D ? "found in the first word" : "found in a later word");
        c.label("match outside, just after the end", a.last() < b.bits() && b.m[a.last()] == v);
        label_range(c, D, a.first, a.len);
        auto r = bit::find(b.at(a.first), b.at(a.last()), bit::bit_value(v));
        PBT_CHECK(b.index(r) == (int64_t)e, "returned position " << b.index(r) << ", expected " << e);
        PBT_CHECK((r == b.at(a.last())) == (e == a.last()), "comparison of the result with the end is wrong");
        auto k = bit::find(b.cat(a.first), b.cat(a.last()), bit::bit_value(v));
        PBT_CHECK(k - b.cat(0) == (int64_t)e, "over const words returned position " << (k - b.cat(0)) << ", expected " << e);
        b.compare("storage");
    });
}
void lone(Source& s, Ctx& c) { run(s, c, true); }
void rnd(Source& s, Ctx& c) { run(s, c, false); }
}
std::vector<Test> pbt::tests() { return {{"find_lone", lone, false, 400000, 7000000}, {"find_random", rnd, false, 100000, 1000000}, {"find_lone_all", lone, true, 1, 1}, {"find_random_all", rnd, true, 1, 1}}; }
