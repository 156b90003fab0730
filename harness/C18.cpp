// C18: a bit reference reads and writes exactly its own bit.
#include "bits.hpp"
using namespace pbt;
namespace {
const char* on[] = {"= value", "= reference", "= other-width reference", "&= value", "|= value", "^= value", "set(b)", "set()", "reset()", "flip()", "assign(word)", "assign(word,pos)", "swap(reference) member", "swap(value) member",
                    "swap(ref,ref)", "swap(ref,value)", "swap(value,ref)", "&= reference", "|= reference", "^= reference", "swap other width", "= self", "copy is an alias"};
template <class W, class U> void run(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>, E = DIG<U>; size_t nw = 1 + s.draw(3);
    Buf<W, Raw> x; x.init(gen_words<W>(s, nw), gen_align(s)); Buf<U, Raw> y; y.init(gen_words<U>(s, 2), 0);
    size_t steps = s.small_scope ? 1 : 1 + s.draw(5);
    c.describe([&](auto& o) { o << wname<W>() << "/" << wname<U>() << " " << x.show() << " " << y.show(); });
    for (size_t t = 0; t < steps; ++t) {
        size_t p = s.draw(nw * D), q = s.draw(nw * D), u = s.draw(2 * E); uint64_t op = s.draw(23); bool v = s.flag(); uint64_t word = Expand(s.draw(1 << 12)).next(); size_t wp = s.draw(D);
        c.describe([&](auto& o) { o << "; bit " << p << " " << on[op] << " v=" << v << " q=" << q << " u=" << u; }); c.label(on[op]); c.nontrivial();
        bit::bit_reference<W> r(x.st.data()[p / D], p % D), r2(x.st.data()[q / D], q % D); bit::bit_reference<U> o(y.st.data()[u / E], u % E);
        bit::bit_value bv = v ? bit::bit1 : bit::bit0; uint8_t &mp = x.m[p], &mq = x.m[q], &mu = y.m[u];
        bit::bit_reference<W>* ret = std::addressof(r);
        switch (op) {
        case 0: ret = std::addressof(r = bv); mp = v; break;
        case 1: ret = std::addressof(r = r2); mp = mq; break;
        case 2: ret = std::addressof(r = o); mp = mu; break;
        case 3: ret = std::addressof(r &= bv); mp &= v; break;
        case 4: ret = std::addressof(r |= bv); mp |= v; break;
        case 5: ret = std::addressof(r ^= bv); mp ^= v; break;
        case 6: ret = std::addressof(r.set(v)); mp = v; break;
        case 7: ret = std::addressof(r.set()); mp = 1; break;
        case 8: ret = std::addressof(r.reset()); mp = 0; break;
        case 9: ret = std::addressof(r.flip()); mp ^= 1; break;
        case 10: ret = std::addressof(r.assign((W)word)); mp = word & 1; break;
        case 11: ret = std::addressof(r.assign((W)word, wp)); mp = ((W)word >> wp) & 1; break;
        case 12: r.swap(r2); std::swap(mp, mq); break;
        case 13: { r.swap(bv); uint8_t z = mp; mp = v; v = z; PBT_CHECK((bool)bv == v, "swapped value is " << (bool)bv); break; }
        case 14: swap(r, r2); std::swap(mp, mq); break;
        case 15: { swap(r, bv); uint8_t z = mp; mp = v; v = z; PBT_CHECK((bool)bv == v, "swapped value is " << (bool)bv); break; }
        case 16: { swap(bv, r); uint8_t z = mp; mp = v; v = z; PBT_CHECK((bool)bv == v, "swapped value is " << (bool)bv); break; }
        case 17: r &= r2; mp &= mq; break;
        case 18: r |= r2; mp |= mq; break;
        case 19: r ^= r2; { uint8_t z = mq; mp ^= z; } break;
        case 20: swap(r, o); std::swap(mp, mu); break;
        case 21: r = *std::addressof(r); break;
        default: { bit::bit_reference<W> alias(r); alias = bv; mp = v; PBT_CHECK(alias.address() == r.address() && alias.position() == r.position(), "a copied reference designates another bit"); }
        }
        PBT_CHECK(ret == std::addressof(r), on[op] << " does not return the reference");
        PBT_CHECK(r.address() == x.st.data() + p / D && r.position() == p % D && r.mask() == (W)((W)1 << (p % D)), on[op] << " rebound the reference");
        PBT_CHECK(r2.address() == x.st.data() + q / D && r2.position() == q % D, on[op] << " rebound the other reference");
        PBT_CHECK((bool)r == (bool)x.m[p] && bit::bit_value(r) == (x.m[p] ? bit::bit1 : bit::bit0), on[op] << ": reads " << (bool)r << " at bit " << p);
        PBT_CHECK((r == r2) == (x.m[p] == x.m[q]) && (r != r2) == (x.m[p] != x.m[q]) && (r < r2) == (x.m[p] < x.m[q]) && (r == o) == (x.m[p] == y.m[u]) && (r == bv) == (x.m[p] == (uint8_t)(bool)bv), on[op] << ": comparison of references");
        { bit::bit_reference<const W> k(r); PBT_CHECK((bool)k == (bool)x.m[p] && k.position() == p % D, "const reference reads another bit"); }
        x.compare(on[op]); y.compare("other storage");
    }
}
void ref(Source& s, Ctx& c) {
    with_word(s, [&](auto w) { using W = decltype(w);
        switch (s.draw(4)) { case 0: run<W, W>(s, c); break; case 1: run<W, uint8_t>(s, c); break; case 2: run<W, uint64_t>(s, c); break; default: run<W, uint16_t>(s, c); } });
}
// Every content of one byte pair of bits, every operation.
void ops_all(Source& s, Ctx& c) {
    using W = uint8_t; W w0 = (W)s.draw(256); size_t p = s.draw(8); uint64_t op = s.draw(11); bool v = s.flag(); s.ready();
    W w = w0; bit::bit_reference<W> r(w, p); bit::bit_value bv = v ? bit::bit1 : bit::bit0; W e = w0, k = (W)(1u << p);
    c.describe([&](auto& o) { o << "byte " << (int)w0 << " bit " << p << " " << on[op] << " " << v; }); c.nontrivial();
    auto put = [&](bool b) { e = b ? (W)(e | k) : (W)(e & ~k); }; bool cur = e & k;
    switch (op) { case 0: r = bv; put(v); break; case 1: { bit::bit_reference<W> q(w, (p + 3) % 8); r = q; put(w0 >> ((p + 3) % 8) & 1); break; } case 2: r = r; break;
        case 3: r &= bv; put(cur && v); break; case 4: r |= bv; put(cur || v); break; case 5: r ^= bv; put(cur != v); break; case 6: r.set(v); put(v); break; case 7: r.set(); put(1); break; case 8: r.reset(); put(0); break; case 9: r.flip(); put(!cur); break;
        default: r.assign((W)(v ? 0xff : 0xfe)); put(v); }
    PBT_CHECK(w == e, "byte is " << (int)w << ", expected " << (int)e);
}
}
std::vector<Test> pbt::tests() { return { {"ref", ref, false, 400000, 10000000}, {"ops_all", ops_all, true, 1, 1} }; }
