// C03: fill sets exactly the bits of the range.
#include "bits.hpp"
using namespace pbt;
namespace {
void fill_t(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        Place a = gen_place(s, D, 5, 1500);
        bool v = s.flag();
        auto cw = gen_words<W>(s, a.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        c.describe([&](auto& o) { o << wname<W>() << " fill " << rng(D, a.first, a.last()) << " with " << v << " in " << b.show(); });
        c.nontrivial(a.len && (shares(D, a.first, a.len) || crosses(D, a.first, a.len)));
        label_range(c, D, a.first, a.len);
        bit::fill(b.at(a.first), b.at(a.last()), bit::bit_value(v));
        for (size_t i = a.first; i < a.last(); ++i) b.m[i] = v;
        b.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() { return {{"fill", fill_t, false, 500000, 8000000}, {"fill_all", fill_t, true, 1, 1}}; }
