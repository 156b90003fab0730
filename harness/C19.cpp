// C19: bit_value is a boolean.
#include "bits.hpp"
using namespace pbt;
namespace {
template <class W> void run(Source& s, Ctx& c) {
    W word = (W)(s.draw(3) ? [&] { Expand e(s.draw(1 << 16)); return rnd_word<W>(e); }() : (s.flag() ? (W)~(W)0 : ((W)1 << s.draw(DIG<W>)))); size_t pos = s.draw(DIG<W>);
    bool a = s.flag(), b = s.flag();
    c.describe([&](auto& o) { o << wname<W>() << " word " << (uint64_t)word << " pos " << pos << " a=" << a << " b=" << b; }); c.nontrivial(word > 1);
    using V = bit::bit_value;
    PBT_CHECK((bool)V(word) == (bool)(word & 1), "construction from a word"); PBT_CHECK((bool)V(word, pos) == (bool)((word >> pos) & 1), "construction from a bit of a word");
    PBT_CHECK((bool)V(a) == a, "construction from bool"); PBT_CHECK(!(bool)V(), "default construction");
    { V t(b); V& r = t.assign(word); PBT_CHECK(&r == &t && (bool)t == (bool)(word & 1), "assign(word)"); }
    { V t(b); V& r = t.assign(word, pos); PBT_CHECK(&r == &t && (bool)t == (bool)((word >> pos) & 1), "assign(word,pos)"); }
    { W w2 = word; bit::bit_reference<W> r(w2, pos); V t(r); PBT_CHECK((bool)t == (bool)((word >> pos) & 1), "construction from a reference"); V u(a); u = r; PBT_CHECK((bool)u == (bool)t, "assignment from a reference");
      V z(a); z.swap(r); bool was = (word >> pos) & 1; PBT_CHECK((bool)z == was, "swap with a reference: value"); W e = (W)((word & (W)~(W)((W)1 << pos)) | (W)((W)a << pos)); PBT_CHECK(w2 == e, "swap with a reference: word is " << (uint64_t)w2 << ", expected " << (uint64_t)e);
      t.flip(); PBT_CHECK(w2 == e, "changing a value built from a reference changed the word"); }
    V x(a), y(b);
    PBT_CHECK((bool)~x == !a && (bool)(x & y) == (a && b) && (bool)(x | y) == (a || b) && (bool)(x ^ y) == (a != b), "operators on " << a << "," << b);
    PBT_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "comparisons of " << a << "," << b);
    { V t = x; V& r = (t &= y); PBT_CHECK(&r == &t && (bool)t == (a && b), "&="); } { V t = x; V& r = (t |= y); PBT_CHECK(&r == &t && (bool)t == (a || b), "|="); } { V t = x; V& r = (t ^= y); PBT_CHECK(&r == &t && (bool)t == (a != b), "^="); }
    { V t = x; V& r = t.set(b); PBT_CHECK(&r == &t && (bool)t == b, "set(b)"); } { V t = x; t.set(); PBT_CHECK((bool)t, "set()"); } { V t = x; t.reset(); PBT_CHECK(!(bool)t, "reset()"); } { V t = x; t.flip(); PBT_CHECK((bool)t == !a, "flip()"); }
    { V t = x, u = y; t.swap(u); PBT_CHECK((bool)t == b && (bool)u == a, "swap member"); std::swap(t, u); PBT_CHECK((bool)t == a && (bool)u == b, "std::swap"); }
    { V t = x; V u(t); u.flip(); PBT_CHECK((bool)t == a, "copies are not independent"); t = y; PBT_CHECK((bool)t == b, "assignment"); }
    PBT_CHECK((bool)bit::bit1 && !(bool)bit::bit0 && (bool)bit::bit_on && !(bool)bit::bit_off, "constants");
    // arbitrary expressions agree with bool
    V acc(a); bool m = a; size_t steps = s.draw(10);
    for (size_t k = 0; k < steps; ++k) {
        bool v = s.flag();
        switch (s.draw(8)) { case 0: acc = acc & V(v); m = m && v; break; case 1: acc = acc | V(v); m = m || v; break; case 2: acc = acc ^ V(v); m = m != v; break; case 3: acc = ~acc; m = !m; break;
            case 4: acc &= V(v); m = m && v; break; case 5: acc ^= V(v); m = m != v; break; case 6: acc |= V(v); m = m || v; break; default: acc.flip(); m = !m; }
        PBT_CHECK((bool)acc == m && (acc == (m ? bit::bit1 : bit::bit0)), "expression value after step " << k);
    }
}
void value(Source& s, Ctx& c) { with_word(s, [&](auto w) { run<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"value", value, false, 400000, 8000000} }; }
