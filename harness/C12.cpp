// C12: unary transform.
#include "bits.hpp"
#include <functional>
using namespace pbt;
namespace {
struct Ident { template <class T> T operator()(T a) const { return a; } };
struct Inv { template <class T> T operator()(T a) const { return T(~a); } };
struct Zero { template <class T> T operator()(T) const { return T(0); } };
struct One { template <class T> T operator()(T) const { return T(~T(0)); } };
// kind 0: std::bit_not<W>  1: lambda ~  2: identity  3: const 0  4: const 1
template <class BI> BI apply(uint64_t op, BI a, BI b, BI d) {
    using W = typename BI::word_type;
    switch (op) {
    case 0: return bit::transform(a, b, d, std::bit_not<W>());
    case 1: return bit::transform(a, b, d, Inv());
    case 2: return bit::transform(a, b, d, Ident());
    case 3: return bit::transform(a, b, d, Zero());
    default: return bit::transform(a, b, d, One());
    }
}
uint8_t ref(uint64_t op, uint8_t x) { return op <= 1 ? !x : op == 2 ? x : op == 3 ? 0 : 1; }
const char* opn[] = {"bit_not", "~", "identity", "zero", "one"};
void separate(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        uint64_t op = s.small_scope ? s.draw(3) : s.draw(2) ? s.draw(5) : 0;
        size_t len = gen_len(s, D, 3, 1200);
        Place a = gen_place_len(s, D, len), b = gen_place_len(s, D, len);
        auto ca = gen_words<W>(s, a.words), cb = s.small_scope ? std::vector<W>(b.words, (W)0x5a) : gen_words<W>(s, b.words);
        size_t al1 = gen_align(s), al2 = gen_align(s);
        s.ready();
        Buf<W> x, y; x.init(ca, al1); y.init(cb, al2);
        c.describe([&](auto& o) { o << wname<W>() << " transform(" << opn[op] << ") " << rng(D, a.first, a.last()) << " of " << x.show() << " to bit " << b.first << " of " << y.show(); });
        c.nontrivial(len && (shares(D, b.first, len) || crosses(D, b.first, len))); label_range(c, D, b.first, len); c.label(opn[op]); c.label(a.first % D == b.first % D ? "same alignment" : "different alignment");
        auto r = apply(op, x.at(a.first), x.at(a.last()), y.at(b.first));
        for (size_t i = 0; i < len; ++i) y.m[b.first + i] = ref(op, x.m[a.first + i]);
        PBT_CHECK(y.index(r) == (int64_t)b.last(), "returned position " << y.index(r) << ", expected " << b.last());
        x.compare("source"); y.compare("destination");
    });
}
void inplace(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        uint64_t op = s.small_scope ? s.draw(5) : s.draw(2) ? s.draw(5) : 0;
        Place a = gen_place(s, D, 5, 1200);
        auto ca = gen_words<W>(s, a.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> x; x.init(ca, al);
        c.describe([&](auto& o) { o << wname<W>() << " transform(" << opn[op] << ") in place " << rng(D, a.first, a.last()) << " of " << x.show(); });
        c.nontrivial(a.len > 0); label_range(c, D, a.first, a.len); c.label(opn[op]);
        auto r = apply(op, x.at(a.first), x.at(a.last()), x.at(a.first));
        for (size_t i = a.first; i < a.last(); ++i) x.m[i] = ref(op, x.m[i]);
        PBT_CHECK(x.index(r) == (int64_t)a.last(), "returned position " << x.index(r) << ", expected " << a.last());
        x.compare("storage");
    });
}
// Disjoint ranges of one storage, which may share a word.
void neighbour(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        uint64_t op = s.draw(2);
        size_t len = s.small_scope ? s.draw(2 * D + 3) : gen_len(s, D), gap = s.small_scope ? s.draw(D + 1) : s.draw(3) == 0 ? 0 : s.draw(2 * D);
        Place u = gen_place_len(s, D, 2 * len + gap); bool rev = s.flag();
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t p = u.first, q = u.first + len + gap; if (rev) std::swap(p, q);
        c.describe([&](auto& o) { o << wname<W>() << " transform(" << opn[op] << ") " << rng(D, p, p + len) << " to bit " << q << " of the same " << b.show(); });
        c.nontrivial(len > 0); c.label(len && (std::min(p, q) + len - 1) / D == std::max(p, q) / D ? "ranges share a word" : "no shared word");
        auto r = apply(op, b.at(p), b.at(p + len), b.at(q));
        for (size_t i = 0; i < len; ++i) b.m[q + i] = ref(op, b.m[p + i]);
        PBT_CHECK(b.index(r) == (int64_t)(q + len), "returned position " << b.index(r) << ", expected " << q + len);
        b.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() {
    return {{"separate", separate, false, 250000, 4000000}, {"inplace", inplace, false, 150000, 2000000}, {"neighbour", neighbour, false, 100000, 1500000},
            {"separate_all", separate, true, 1, 1}, {"inplace_all", inplace, true, 1, 1}, {"neighbour_all", neighbour, true, 1, 1}};
}
