// C13: binary transform with any of the sixteen boolean functions.
#include "bits.hpp"
#include <functional>
using namespace pbt;
namespace {
struct Tab { unsigned t; template <class T> T operator()(T a, T b) const {   // truth table t, bit (2*a+b)
    T r = 0; if (t & 1) r = (T)(r | (T)(~a & ~b)); if (t & 2) r = (T)(r | (T)(~a & b)); if (t & 4) r = (T)(r | (T)(a & ~b)); if (t & 8) r = (T)(r | (T)(a & b)); return r; } };
template <class BI> BI apply(uint64_t op, BI a, BI b, BI f2, BI d) {
    using W = typename BI::word_type;
    switch (op) {
    case 16: return bit::transform(a, b, f2, d, std::bit_xor<W>());
    case 17: return bit::transform(a, b, f2, d, std::bit_and<W>());
    case 18: return bit::transform(a, b, f2, d, std::bit_or<W>());
    default: return bit::transform(a, b, f2, d, Tab{(unsigned)op});
    }
}
uint8_t ref(uint64_t op, uint8_t x, uint8_t y) { unsigned t = op == 16 ? 6 : op == 17 ? 8 : op == 18 ? 14 : (unsigned)op; return (t >> (2 * x + y)) & 1; }
void three(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        uint64_t op = s.small_scope ? (s.draw(2) ? 2 : 6) : s.draw(19);
        size_t len = s.small_scope ? s.draw(2 * D + 3) : gen_len(s, D, 3, 500);
        Place a, b, d;
        if (s.small_scope) { size_t oa = s.draw(D), ob = s.draw(D), od = s.draw(D); auto mk = [&](size_t o) { return Place{o, len, (o + len + D - 1) / D + (len == 0 && o ? 1 : 0)}; }; a = mk(oa); b = mk(ob); d = mk(od); }
        else { a = gen_place_len(s, D, len); b = gen_place_len(s, D, len); d = gen_place_len(s, D, len);
               if (s.draw(3) == 1) { b.first = b.first / D * D + a.first % D; b.words = std::max(b.words, (b.first + len + D) / D); } }
        auto ca = s.small_scope ? std::vector<W>(a.words, (W)0xC5) : gen_words<W>(s, a.words);
        auto cb = gen_words<W>(s, b.words); auto cd = s.small_scope ? std::vector<W>(d.words, (W)0xA6) : gen_words<W>(s, d.words);
        uint64_t alias = s.small_scope ? 0 : s.draw(6);        // 1: d == first1, 2: d == first2, 3: all three the same
        size_t al1 = gen_align(s), al2 = gen_align(s), al3 = gen_align(s);
        s.ready();
        Buf<W> x, y, z; x.init(ca, al1); y.init(cb, al2); z.init(cd, al3);
        Buf<W>& d1 = x; Buf<W>& d2 = alias == 3 ? x : y; size_t f2 = alias == 3 ? a.first : b.first;
        Buf<W>& dd = alias == 1 || alias == 3 ? x : alias == 2 ? y : z; size_t df = alias == 1 || alias == 3 ? a.first : alias == 2 ? b.first : d.first;
        c.describe([&](auto& o) { o << wname<W>() << " transform(op " << op << ", aliasing " << alias << ") " << rng(D, a.first, a.last()) << " of " << x.show() << ", bit " << f2 << " of " << d2.show() << " to bit " << df << " of " << dd.show(); });
        c.nontrivial(len && (shares(D, df, len) || crosses(D, df, len))); label_range(c, D, df, len);
        c.label(alias == 1 ? "in place (first)" : alias == 2 ? "in place (second)" : alias == 3 ? "all the same" : "separate destination");
        auto r = apply(op, d1.at(a.first), d1.at(a.last()), d2.at(f2), dd.at(df));
        for (size_t i = 0; i < len; ++i) dd.m[df + i] = ref(op, d1.m[a.first + i], d2.m[f2 + i]);
        PBT_CHECK(dd.index(r) == (int64_t)(df + len), "returned position " << dd.index(r) << ", expected " << df + len);
        x.compare("first source"); y.compare("second source"); z.compare("destination");
    });
}
// Everything within one storage, ranges disjoint (destination may share words with its sources).
void one(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        uint64_t op = s.draw(19);
        size_t len = s.small_scope ? s.draw(D + 3) : gen_len(s, D, 2, 60), g1 = s.draw(s.small_scope ? 3 : D + 1), g2 = s.draw(s.small_scope ? 3 : D + 1);
        Place u = gen_place_len(s, D, 3 * len + g1 + g2);
        uint64_t perm = s.draw(6);
        if (s.small_scope) op = perm & 1 ? 6 : 4;
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        size_t pos[3] = {u.first, u.first + len + g1, u.first + 2 * len + g1 + g2};
        static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        size_t p = pos[P[perm][0]], q = pos[P[perm][1]], d = pos[P[perm][2]];
        c.describe([&](auto& o) { o << wname<W>() << " transform(op " << op << ") " << rng(D, p, p + len) << ", bit " << q << " to bit " << d << " of the same " << b.show(); });
        c.nontrivial(len > 0);
        auto r = apply(op, b.at(p), b.at(p + len), b.at(q), b.at(d));
        for (size_t i = 0; i < len; ++i) b.m[d + i] = ref(op, b.m[p + i], b.m[q + i]);
        PBT_CHECK(b.index(r) == (int64_t)(d + len), "returned position " << b.index(r) << ", expected " << d + len);
        b.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() {
    return {{"three", three, false, 300000, 5000000}, {"one", one, false, 100000, 1500000}, {"three_all", three, true, 1, 1}, {"one_all", one, true, 1, 1}};
}
