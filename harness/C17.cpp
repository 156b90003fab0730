// C17: bit pointer laws.
#include "bits.hpp"
#include "far.hpp"
using namespace pbt;
namespace {
template <class W> void run(Source& s, Ctx& c) {
    constexpr int64_t D = DIG<W>; size_t nw = 1 + s.draw(8); auto ws = gen_words<W>(s, nw);
    Buf<W, Raw> x; x.init(ws, gen_align(s)); W* d = x.st.data(); const int64_t N = x.m.size(); Bits& m = x.m;
    using P = bit::bit_pointer<W>; using CP = bit::bit_pointer<const W>;
    auto pos = [&]() -> int64_t { switch (s.draw(3)) { case 0: { int64_t v = (int64_t)s.draw(nw + 1) * D + s.irange(-1, 1); return std::min(std::max<int64_t>(v, 0), N); } default: return (int64_t)s.draw(N + 1); } };
    int64_t p = pos(), q = pos();
    c.describe([&](auto& o) { o << wname<W>() << " " << x.show() << " p=" << p << " q=" << q; }); c.nontrivial(p / D != q / D);
    auto mk = [&](int64_t k) { return P(d + k / D, (size_t)(k % D)); };
    auto at = [&](P t, int64_t k, const char* what) {
        PBT_CHECK(t == mk(k) && !(t != mk(k)), what << ": is not the pointer to bit " << k);
        PBT_CHECK((bool)t, what << ": pointer to bit " << k << " is false");
        if (k < N) { auto r = *t; PBT_CHECK(r.address() == d + k / D && r.position() == (size_t)(k % D), what << ": points to bit " << (r.address() - d) * D + (int64_t)r.position() << ", expected " << k); PBT_CHECK((bool)r == (bool)m[k], what << ": reads " << (bool)r); }
    };
    P a = mk(p), b = mk(q);
    at(a, p, "constructed"); at(a + (q - p), q, "a + n"); at(a - (p - q), q, "a - n"); at((q - p) + a, q, "n + a");
    { P t = a; t += q - p; at(t, q, "+="); P u = a; u -= p - q; at(u, q, "-="); P v = a; v = b; at(v, q, "assigned"); P w(b); at(w, q, "copied"); at(a, p, "source of the copies"); }
    PBT_CHECK(b - a == q - p && a - b == p - q, "difference of " << p << " and " << q << " is " << b - a);
    PBT_CHECK((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "comparisons of " << p << " and " << q);
    if (p < N) { P t = a; P old = t++; at(t, p + 1, "post ++"); at(old, p, "value of post ++"); P u = a; P& r = ++u; at(u, p + 1, "pre ++"); PBT_CHECK(&r == &u, "++ does not return the pointer"); }
    if (p > 0) { P t = a; P old = t--; at(t, p - 1, "post --"); at(old, p, "value of post --"); P u = a; --u; at(u, p - 1, "pre --"); }
    if (q < N) { auto r = a[q - p]; PBT_CHECK(r.address() == d + q / D && r.position() == (size_t)(q % D), "a[" << q - p << "] designates another bit"); }
    // references and pointers are inverse
    if (p < N) { bit::bit_reference<W> r(d[p / D], p % D); at(&r, p, "address of a reference"); auto r2 = *&r; PBT_CHECK(r2.address() == r.address() && r2.position() == r.position(), "*&r designates another bit"); at(&*a, p, "&*a"); at(&*x.at(p), p, "&*iterator"); }
    // aligned constructor
    if (p / D < (int64_t)nw) at(P(d + p / D), p / D * D, "aligned pointer");
    // const pointers
    CP ca = a; PBT_CHECK(ca == a && !(ca != a) && (ca < b) == (p < q) && (ca >= b) == (p >= q) && ca - b == p - q && b - ca == q - p, "const pointer of " << p << " compared with pointer to " << q);
    { CP cb; cb = b; PBT_CHECK(cb == b && (bool)cb, "const pointer assigned from a pointer"); if (q < N) PBT_CHECK((bool)*cb == (bool)m[q], "const pointer reads another bit"); CP e = ca + (q - p); PBT_CHECK(e == b, "const pointer arithmetic"); }
    // null
    { P n0, n1(nullptr), n2 = a; n2 = nullptr; PBT_CHECK(!n0 && !n1 && !n2 && n0 == n1 && n1 == n2 && !(n0 != n2), "null pointers are not false and equal"); PBT_CHECK(a != n0 && !(a == n0), "pointer to bit " << p << " equals null"); CP cn = n0; PBT_CHECK(!cn && cn == n0, "converted null"); n2 = a; at(n2, p, "assigned over null"); }
    // writes through the pointer touch exactly the bit
    for (int k = 0; k < 2; ++k) {
        if (q >= N) break;
        bool v = s.flag(); bit::bit_value bv = v ? bit::bit1 : bit::bit0;
        switch (s.draw(7)) {
        case 0: *b = bv; m[q] = v; break;
        case 1: b->set(v); m[q] = v; break;
        case 2: b->flip(); m[q] ^= 1; break;
        case 3: a[q - p] = bv; m[q] = v; break;
        case 4: { const P cb = b; *cb = bv; m[q] = v; break; }
        case 5: *b ^= bv; m[q] ^= v; break;
        default: if (v) b->set(); else b->reset(); m[q] = v;
        }
        x.compare("storage after a write through the pointer");
    }
    // walk
    int64_t w = p; P it = a; size_t steps = s.draw(8);
    for (size_t k = 0; k < steps; ++k) {
        switch (s.draw(4)) { case 0: if (w < N) { ++it; ++w; } break; case 1: if (w > 0) { --it; --w; } break; case 2: { int64_t t = pos(); it += t - w; w = t; break; } default: { int64_t t = pos(); it -= w - t; w = t; } }
        at(it, w, "walking");
    }
    x.compare("storage");
}
void ptr(Source& s, Ctx& c) { with_word(s, [&](auto w) { run<decltype(w)>(s, c); }); }
void pairs_all(Source& s, Ctx& c) {
    using W = uint8_t; int64_t p = s.draw(33), q = s.draw(33); s.ready();
    std::vector<W> ws = {0x35, 0xe1, 0x0f, 0x92}; W* d = ws.data(); using P = bit::bit_pointer<W>; P a(d + p / 8, p % 8), b(d + q / 8, q % 8);
    c.describe([&](auto& o) { o << "u8 p=" << p << " q=" << q; }); c.nontrivial(p / 8 != q / 8);
    PBT_CHECK(a + (q - p) == b && a - (p - q) == b && b - a == q - p && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q) && (a == b) == (p == q), "arithmetic or comparison");
    if (q < 32) { PBT_CHECK((bool)a[q - p] == (bool)((ws[q / 8] >> (q % 8)) & 1), "a[" << q - p << "]"); }
}
// Positions up to 2^40 bits apart, in address space that is reserved and never touched.
template <class W> void far_run(Source& s, Ctx& c) {
    constexpr int64_t D = DIG<W>; W* d = (W*)far_region(); if (!d) return; const int64_t N = FAR_BYTES / (int64_t)sizeof(W) * D;
    int64_t p = far_pos(s, N, -1), q = far_pos(s, N, p), n = q - p; using P = bit::bit_pointer<W>; using CP = bit::bit_pointer<const W>;
    P a(d + p / D, (size_t)(p % D)), b(d + q / D, (size_t)(q % D)); CP ca = a, cb = b;
    c.describe([&](auto& o) { o << wname<W>() << " far p=" << p << " q=" << q; }); c.nontrivial(n >= (1ll << 31) || -n >= (1ll << 31));
    auto at = [&](P t, int64_t k, const char* what) { auto r = *t; PBT_CHECK(r.address() == d + k / D && r.position() == (size_t)(k % D), what << ": points to bit " << (r.address() - d) * D + (int64_t)r.position() << ", expected " << k); };
    PBT_CHECK((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "comparisons of " << p << " and " << q);
    PBT_CHECK((ca == b) == (p == q) && (a != cb) == (p != q) && (ca < b) == (p < q) && (a <= cb) == (p <= q) && (ca > cb) == (p > q) && (ca >= b) == (p >= q), "const comparisons of " << p << " and " << q);
    PBT_CHECK(b - a == n && a - b == -n && cb - a == n && a - cb == -n, "difference of " << p << " and " << q << " is " << b - a);
    at(a + n, q, "a + n"); at(b - n, p, "b - n"); at(n + a, q, "n + a");
    { P t = a; t += n; at(t, q, "+="); t -= n; at(t, p, "-="); }
    { auto r = a[n]; PBT_CHECK(r.address() == d + q / D && r.position() == (size_t)(q % D), "a[" << n << "] designates another bit"); auto r2 = ca[n]; PBT_CHECK(r2.address() == d + q / D && r2.position() == (size_t)(q % D), "const a[" << n << "] designates another bit"); }
}
void far_apart(Source& s, Ctx& c) { with_word(s, [&](auto w) { far_run<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"ptr", ptr, false, 400000, 10000000}, {"pairs_all", pairs_all, true, 1, 1}, {"far", far_apart, false, 200000, 4000000} }; }
