// C21: bit_vector under generated operation histories.
#include "vec_model.hpp"
using namespace pbt;
namespace {
template <class W> void history(Source& s, Ctx& c, size_t nops, size_t maxn, bool large = false) {
    using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
    Model m; V v;
    // start: empty, from a count (padding bits set), or from content
    if (large) {
        size_t k = s.range(10, 18), n = s.range((size_t)1 << (k - 1), (size_t)1 << k); m = gen_bits(s, n); v = make_vec<V>(m); c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); });
    } else switch (s.draw(4)) {
    case 0: break;
    case 1: { size_t n = std::min(gen_size(s, D), maxn); uint8_t b = (uint8_t)s.draw(2); v = V(n, b ? bit::bit1 : bit::bit0); m.assign(n, b); c.describe([&](auto& o) { o << wname<W>() << " (" << n << "," << (int)b << ")"; }); break; }
    case 2: { size_t n = std::min(gen_size(s, D), maxn); v = V(n); m.assign(n, 0); c.describe([&](auto& o) { o << wname<W>() << " (" << n << ")"; }); break; }
    default: { m = gen_bits(s, std::min(gen_size(s, D), maxn)); v = make_vec<V>(m); c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); }); }
    }
    int growth = 0, shrinkage = 0; bool grow_after_shrink = false;
    for (size_t i = 0; i < nops; ++i) {
        OpRec r = gen_op(s, D, m.size(), maxn);
        c.describe([&](auto& o) { o << "; " << r; });
        c.label(op_name(r.op));
        if (grows(r, m.size())) { ++growth; if (shrinkage) grow_after_shrink = true; }
        if (r.op == POP || r.op == ERASE1 || (r.op == ERASER && r.b > r.a) || ((r.op == RESIZE || r.op == RESIZEV) && r.a < m.size())) ++shrinkage;
        apply_op(v, m, r);
        std::string what = "after step " + std::to_string(i + 1) + " " + op_name(r.op);
        check_vec(v, m, what.c_str());
    }
    c.nontrivial(growth >= 1 && shrinkage >= 1);
    c.label("growth after shrinkage", grow_after_shrink);
}
void hist(Source& s, Ctx& c) {
    with_word(s, [&](auto w) { using W = decltype(w); size_t k = 2 + s.draw(16); history<W>(s, c, k, 400 * DIG<W>); });
}
void hist_large(Source& s, Ctx& c) {     // vectors of up to 2^18 bits
    with_word(s, [&](auto w) { using W = decltype(w); size_t k = 1 + s.draw(4); history<W>(s, c, k, 600000, true); });
}
void hist_small(Source& s, Ctx& c) {     // many short histories near word boundaries
    with_word(s, [&](auto w) { using W = decltype(w); size_t k = 1 + s.draw(6); history<W>(s, c, k, 4 * DIG<W> + 3); });
}
// Every start size, pair of operations and position in the small scope.
void pairs_all(Source& s, Ctx& c) {
    using W = uint8_t; using V = bit::bit_vector<W>;
    size_t n = s.draw(18); bool ones = s.flag();
    size_t op1 = s.draw(6), op2 = s.draw(6);
    size_t a1 = s.draw(18), a2 = s.draw(20);
    s.ready();
    Model m(n, ones); V v(n, ones ? bit::bit1 : bit::bit0);
    auto step = [&](size_t op, size_t a, int i) {
        OpRec r;
        switch (op) {
        case 0: r.op = RESIZE; r.a = a; break;
        case 1: r.op = RESIZEV; r.a = a; r.v = !ones; break;
        case 2: r.op = ERASER; r.a = std::min(a, m.size()); r.b = std::min(m.size(), r.a + 1 + a % 9); break;
        case 3: r.op = INSN; r.a = std::min(a, m.size()); r.b = 1 + a % 10; r.v = !ones; break;
        case 4: if (m.empty()) { r.op = PUSH; r.a = 1; } else { r.op = POP; r.a = std::min(a + 1, m.size()); } break;
        default: r.op = INS1; r.a = std::min(a, m.size()); r.v = !ones;
        }
        c.describe([&](auto& o) { o << (i == 1 ? "u8 (" + std::to_string(n) + "," + (ones ? "1" : "0") + "); " : std::string("; ")) << r; });
        apply_op(v, m, r);
        check_vec(v, m, i == 1 ? "after the first operation" : "after the second operation");
    };
    step(op1, a1, 1); step(op2, a2, 2);
    c.nontrivial(n > 0);
}
}
std::vector<Test> pbt::tests() {
    return { {"hist", hist, false, 40000, 1500000}, {"hist_small", hist_small, false, 120000, 4000000}, {"hist_large", hist_large, false, 8000, 100000}, {"pairs_all", pairs_all, true, 1, 1} };
}
