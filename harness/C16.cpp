// C16: bit iterator laws, against integer positions.
#include "bits.hpp"
#include <deque>
#include "far.hpp"
using namespace pbt;
namespace {
// Checks every law for the iterator to position p, then walks.
template <class BI, class Base, class W>
void laws(Source& s, Ctx& c, Base base, const Bits& m, const W* data) {
    constexpr int64_t D = DIG<W>; const int64_t N = (int64_t)m.size();
    auto mk = [&](int64_t p) { return BI(base + p / D, (size_t)(p % D)); };
    auto idx = [&](BI i) { return (int64_t)(i.base() - base) * D + (int64_t)i.position(); };
    auto ok = [&](BI i, int64_t p, const char* what) {
        PBT_CHECK(i.position() < (size_t)D, what << ": in-word position " << i.position());
        PBT_CHECK(idx(i) == p, what << ": denotes bit " << idx(i) << ", expected " << p);
        PBT_CHECK(i.mask() == (typename std::remove_cv<W>::type)((typename std::remove_cv<W>::type)1 << (p % D)), what << ": mask at bit " << p);
        if (p < N) {
            PBT_CHECK((bool)*i == (bool)m[p], what << ": *i at bit " << p << " is " << (bool)*i);
            auto r = *i; PBT_CHECK(r.address() == &data[p / D] && r.position() == (size_t)(p % D), what << ": *i designates another bit than " << p);
            PBT_CHECK(i->position() == (size_t)(p % D) && i->address() == &data[p / D], what << ": operator-> designates another bit than " << p);
        }
    };
    auto pos = [&]() -> int64_t { switch (s.draw(4)) { case 0: return 0; case 1: return N; case 2: { int64_t v = (int64_t)s.draw(N / D + 1) * D + s.irange(-1, 1); return std::min(std::max<int64_t>(v, 0), N); } default: return (int64_t)s.draw(N + 1); } };
    int64_t p = pos(), q = pos();
    c.describe([&](auto& o) { o << wname<typename std::remove_cv<W>::type>() << " " << N << " bits, p=" << p << " q=" << q; });
    c.nontrivial(p / D != q / D);
    BI a = mk(p), b = mk(q);
    ok(a, p, "constructed");
    ok(a + (q - p), q, "a + n"); ok(a - (p - q), q, "a - n"); ok((q - p) + a, q, "n + a"); ok(b + (p - q), p, "b + n");
    PBT_CHECK(b - a == q - p, "b - a is " << (b - a) << ", expected " << q - p); PBT_CHECK(a - b == p - q, "a - b is " << (a - b) << ", expected " << p - q);
    { BI t = a; t += q - p; ok(t, q, "+="); BI u = a; u -= p - q; ok(u, q, "-="); BI& r = (u += 0); PBT_CHECK(&r == &u, "+= does not return the iterator"); BI& r2 = (u -= 0); PBT_CHECK(&r2 == &u, "-= does not return the iterator"); }
    if (q < N) { auto r = a[q - p]; PBT_CHECK((bool)r == (bool)m[q] && r.position() == (size_t)(q % D) && r.address() == &data[q / D], "a[" << q - p << "] designates bit " << r.position() << " of word " << (r.address() - data) << ", expected bit " << q); }
    PBT_CHECK((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "comparisons of positions " << p << " and " << q);
    if (p <= q) { PBT_CHECK(bit::distance(a, b) == q - p, "bit::distance is " << bit::distance(a, b) << ", expected " << q - p); }
    PBT_CHECK(std::distance(a, b) == q - p, "std::distance is " << std::distance(a, b) << ", expected " << q - p);
    ok(bit::next(a, q - p), q, "bit::next"); { BI t = a; bit::advance(t, q - p); ok(t, q, "bit::advance"); } { BI t = a; std::advance(t, q - p); ok(t, q, "std::advance"); }
    if (p < N) { BI t = a; BI old = t++; ok(t, p + 1, "post ++"); ok(old, p, "value of post ++"); BI u = a; BI& r = ++u; ok(u, p + 1, "pre ++"); PBT_CHECK(&r == &u, "++ does not return the iterator"); ok(bit::next(a), p + 1, "bit::next"); }
    if (p > 0) { BI t = a; BI old = t--; ok(t, p - 1, "post --"); ok(old, p, "value of post --"); BI u = a; BI& r = --u; ok(u, p - 1, "pre --"); PBT_CHECK(&r == &u, "-- does not return the iterator"); }
    // walk
    int64_t w = p; BI it = a; size_t steps = s.draw(12);
    for (size_t k = 0; k < steps; ++k) {
        switch (s.draw(6)) {
        case 0: if (w < N) { ++it; ++w; } break;
        case 1: if (w > 0) { --it; --w; } break;
        case 2: if (w < N) { it++; ++w; } break;
        case 3: if (w > 0) { it--; --w; } break;
        case 4: { int64_t t = pos(); it += t - w; w = t; break; }
        default: { int64_t t = pos(); it -= w - t; w = t; }
        }
        ok(it, w, "walking");
        PBT_CHECK(it - a == w - p && (it < a) == (w < p), "walking: difference to the start");
    }
}
template <class W> void run(Source& s, Ctx& c) {
    size_t nw = 1 + (s.small_scope ? 2 : s.draw(8)); auto ws = gen_words<W>(s, nw); uint64_t kind = s.draw(6);
    Bits m(nw * DIG<W>); for (size_t i = 0; i < m.size(); ++i) m[i] = (ws[i / DIG<W>] >> (i % DIG<W>)) & 1;
    static const char* kn[] = {"W*", "const W*", "vector::iterator", "vector::const_iterator", "mixed const", "deque::iterator"}; c.label(kn[kind]);
    // one spare word so that word-aligned end positions are formed, never dereferenced
    switch (kind) {
    case 0: { std::unique_ptr<W[]> p(new W[nw]); std::copy(ws.begin(), ws.end(), p.get()); laws<bit::bit_iterator<W*>>(s, c, p.get(), m, (const W*)p.get()); break; }
    case 1: laws<bit::bit_iterator<const W*>>(s, c, (const W*)ws.data(), m, (const W*)ws.data()); break;
    case 2: laws<bit::bit_iterator<typename std::vector<W>::iterator>>(s, c, ws.begin(), m, (const W*)ws.data()); break;
    case 3: laws<bit::bit_iterator<typename std::vector<W>::const_iterator>>(s, c, ws.cbegin(), m, (const W*)ws.data()); break;
    case 4: {   // conversion, comparison and difference between mutable and const iterators
        using I = bit::bit_iterator<typename std::vector<W>::iterator>; using K = bit::bit_iterator<typename std::vector<W>::const_iterator>; constexpr int64_t D = DIG<W>;
        int64_t N = m.size(), p = s.draw(N + 1), q = s.draw(N + 1); I a(ws.begin() + p / D, p % D); I b(ws.begin() + q / D, q % D); K k = b; K k2; k2 = a;
        c.describe([&](auto& o) { o << wname<W>() << " mixed p=" << p << " q=" << q; }); c.nontrivial(p != q);
        PBT_CHECK(k == b && k2 == a && k.base() == b.base() && k.position() == b.position(), "converted iterator denotes another position");
        PBT_CHECK((a == k) == (p == q) && (a != k) == (p != q) && (a < k) == (p < q) && (a <= k) == (p <= q) && (a > k) == (p > q) && (a >= k) == (p >= q), "mixed comparisons of " << p << " and " << q);
        PBT_CHECK(k - a == q - p && a - k == p - q, "mixed difference of " << p << " and " << q);
        if (q < N) PBT_CHECK((bool)*k == (bool)m[q], "const iterator reads another bit");
        break; }
    default: {  // a non-contiguous word sequence, many chunks for wide words
        std::deque<W> dq(ws.begin(), ws.end()); for (int i = 0; i < 200; ++i) dq.push_back((W)(i * 0x9e3779b97f4a7c15ull >> 32));
        constexpr int64_t D = DIG<W>; int64_t N = dq.size() * D; using BI = bit::bit_iterator<typename std::deque<W>::iterator>;
        int64_t p = s.draw(N + 1), q = s.draw(N + 1); BI a(dq.begin() + p / D, p % D), b(dq.begin() + q / D, q % D);
        c.describe([&](auto& o) { o << wname<W>() << " deque p=" << p << " q=" << q; }); c.nontrivial(p / D != q / D);
        PBT_CHECK(a + (q - p) == b && b - (q - p) == a && b - a == q - p && (a < b) == (p < q), "deque iterator arithmetic from " << p << " to " << q);
        if (q < N) PBT_CHECK((bool)a[q - p] == (bool)((dq[q / D] >> (q % D)) & 1), "deque iterator: a[" << q - p << "]"); }
    }
}
void iter(Source& s, Ctx& c) { with_word(s, [&](auto w) { run<decltype(w)>(s, c); }); }
// Every pair of positions (and thus every offset of either sign) in four 8-bit words.
void pairs_all(Source& s, Ctx& c) {
    using W = uint8_t; int64_t p = s.draw(33), q = s.draw(33); s.ready();
    std::vector<W> ws = {0x35, 0xe1, 0x0f, 0x92}; Bits m(32); for (size_t i = 0; i < 32; ++i) m[i] = (ws[i / 8] >> (i % 8)) & 1;
    using BI = bit::bit_iterator<W*>; W* d = ws.data(); BI a(d + p / 8, p % 8), b(d + q / 8, q % 8);
    c.describe([&](auto& o) { o << "u8 p=" << p << " q=" << q; }); c.nontrivial(p / 8 != q / 8);
    BI t = a + (q - p), u = a - (p - q);
    PBT_CHECK(t.base() == b.base() && t.position() == b.position(), "a + " << q - p << " is word " << (t.base() - d) << " bit " << t.position());
    PBT_CHECK(u.base() == b.base() && u.position() == b.position(), "a - " << p - q << " is word " << (u.base() - d) << " bit " << u.position());
    PBT_CHECK(b - a == q - p && (a < b) == (p < q) && (a <= b) == (p <= q) && (a == b) == (p == q) && (a != b) == (p != q) && (a > b) == (p > q) && (a >= b) == (p >= q), "difference or comparison");
    if (q < 32) PBT_CHECK((bool)a[q - p] == (bool)m[q] && (bool)*b == (bool)m[q], "a[" << q - p << "] or *b");
}
// Positions up to 2^40 bits apart, in address space that is reserved and never touched.
template <class W> void far_run(Source& s, Ctx& c) {
    constexpr int64_t D = DIG<W>; W* d = (W*)far_region(); if (!d) return; const int64_t N = FAR_BYTES / (int64_t)sizeof(W) * D;
    int64_t p = far_pos(s, N, -1), q = far_pos(s, N, p);
    using BI = bit::bit_iterator<W*>; using CI = bit::bit_iterator<const W*>;
    BI a(d + p / D, (size_t)(p % D)), b(d + q / D, (size_t)(q % D)); CI ca = a, cb(d + q / D, (size_t)(q % D));
    c.describe([&](auto& o) { o << wname<typename std::remove_cv<W>::type>() << " far p=" << p << " q=" << q; }); c.nontrivial(q - p >= (1ll << 31) || p - q >= (1ll << 31));
    auto is = [&](auto i, int64_t k, const char* what) { PBT_CHECK(i.base() == d + k / D && i.position() == (size_t)(k % D), what << " denotes bit " << (i.base() - d) * D + (int64_t)i.position() << ", expected " << k); };
    int64_t n = q - p;
    PBT_CHECK((a == b) == (p == q) && (a != b) == (p != q) && (a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "comparisons of positions " << p << " and " << q);
    PBT_CHECK((ca == b) == (p == q) && (a != cb) == (p != q) && (ca < b) == (p < q) && (a <= cb) == (p <= q) && (ca > cb) == (p > q) && (ca >= cb) == (p >= q), "const comparisons of positions " << p << " and " << q);
    PBT_CHECK(b - a == n && a - b == -n && cb - a == n && a - cb == -n && std::distance(a, b) == n, "difference of positions " << q << " and " << p);
    if (n >= 0) PBT_CHECK(bit::distance(a, b) == n, "bit::distance is " << bit::distance(a, b) << ", expected " << n);
    is(a + n, q, "a + n"); is(b - n, p, "b - n"); is(n + a, q, "n + a"); is(ca + n, q, "const a + n");
    { BI t = a; t += n; is(t, q, "+="); t -= n; is(t, p, "-="); std::advance(t, n); is(t, q, "std::advance"); t = a; bit::advance(t, n); is(t, q, "bit::advance"); is(bit::next(a, n), q, "bit::next"); is(std::next(a, n), q, "std::next"); is(std::prev(b, n), p, "std::prev"); }
    { std::reverse_iterator<BI> x(a), y(b); PBT_CHECK(x - y == n && (y < x) == (p < q) && (x == y) == (p == q) && y + n == x, "reverse iterators of positions " << p << " and " << q); }
}
void far_apart(Source& s, Ctx& c) { with_word(s, [&](auto w) { far_run<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"iter", iter, false, 400000, 12000000}, {"pairs_all", pairs_all, true, 1, 1}, {"far", far_apart, false, 200000, 4000000} }; }
