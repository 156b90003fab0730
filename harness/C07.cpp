// C07: reverse mirrors exactly the range; applying it twice restores the storage.
#include "bits.hpp"
using namespace pbt;
namespace {
void run(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        Place a = gen_place(s, D, 6, 1000);
        auto cw = gen_words<W>(s, a.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        Bits orig = b.m;
        c.describe([&](auto& o) { o << wname<W>() << " reverse " << rng(D, a.first, a.last()) << " of " << b.show(); });
        std::reverse(b.m.begin() + a.first, b.m.begin() + a.last());
        c.nontrivial(a.len > 1 && b.m != orig); label_range(c, D, a.first, a.len);
        bit::reverse(b.at(a.first), b.at(a.last()));
        b.compare("storage after reverse");
        bit::reverse(b.at(a.first), b.at(a.last()));
        b.m = orig;
        b.compare("storage after reversing twice");
    });
}
}
std::vector<Test> pbt::tests() { return {{"reverse", run, false, 400000, 6000000}, {"reverse_all", run, true, 1, 1}}; }
