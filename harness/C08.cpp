// C08: rotate == std::rotate for every pivot, frame, return value.
#include "bits.hpp"
using namespace pbt;
namespace {
void run(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        Place a = gen_place(s, D, 4, 500);
        size_t k;
        if (s.small_scope) k = s.draw(a.len + 1);
        else switch (s.draw(6)) {
            case 0: k = s.draw(std::min(a.len, D + 1) + 1); break;
            case 1: k = a.len - s.draw(std::min(a.len, D + 1) + 1); break;
            case 2: { int64_t h = (int64_t)a.len / 2 + s.irange(-3, 3); k = h < 0 ? 0 : std::min<size_t>(h, a.len); break; }
            case 3: k = std::min<size_t>(a.len, s.draw(4) * D + s.draw(3)); break;
            case 4: k = a.len - std::min<size_t>(a.len, s.draw(4) * D + s.draw(3)); break;
            default: k = s.draw(a.len + 1);
        }
        auto cw = gen_words<W>(s, a.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        c.describe([&](auto& o) { o << wname<W>() << " rotate " << rng(D, a.first, a.last()) << " about " << a.first + k << " in " << b.show(); });
        c.nontrivial(a.len > 1 && k > 0 && k < a.len); label_range(c, D, a.first, a.len);
        c.label(k == 0 ? "pivot at first" : k == a.len ? "pivot at last" : k <= D ? "left side within a word" : a.len - k <= D ? "right side within a word" : "both sides longer than a word");
        auto r = bit::rotate(b.at(a.first), b.at(a.first + k), b.at(a.last()));
        std::rotate(b.m.begin() + a.first, b.m.begin() + a.first + k, b.m.begin() + a.last());
        PBT_CHECK(b.index(r) == (int64_t)(a.last() - k), "returned position " << b.index(r) << ", expected " << a.last() - k);
        b.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() { return {{"rotate", run, false, 400000, 6000000}, {"rotate_all", run, true, 1, 1}}; }
