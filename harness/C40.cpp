// C40: words of bits are read and written at any position: get_word, write_word, is_within, distance, next, advance.
#include "bits.hpp"
#include "far.hpp"
#include <deque>
using namespace pbt;
namespace {
template <class W> std::string hex(W w) { std::string s; for (size_t i = DIG<W>; i > 0; i -= 4) s += "0123456789abcdef"[(unsigned)(w >> (i - 4)) & 15]; return s; }
template <class T> T rnd(Source& s) { switch (s.draw(5)) { case 0: return (T)~(T)0; case 1: return 0; case 2: return (T)((T)1 << s.draw(DIG<T>)); default: { Expand e(s.draw(1 << 16)); return rnd_word<T>(e); } } }
// A length up to `cap`: anywhere, or such that the range ends at or next to the end of its first word.
inline size_t gen_wlen(Source& s, size_t cap, size_t to_end) {
    if (s.draw(3)) return 1 + s.draw(cap);
    const int64_t l = (int64_t)to_end + s.irange(-1, 1);
    return l < 1 || l > (int64_t)cap ? cap : (size_t)l;
}
// T: type of the transported word; W: word type of the storage.
template <class T, class W> void reads(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>, DT = DIG<T>, M = D < DT ? D : DT;
    const size_t off = gen_off(s, D), len = gen_wlen(s, M, D - off); const Place a = gen_place_len(s, D, len);
    const size_t first = s.flag() ? a.first : a.first / D * D + off; const size_t words = std::max(a.words, (first + len + D - 1) / D);
    auto cw = gen_words<W>(s, words); const size_t al = gen_align(s); s.ready();
    Buf<W> b; b.init(cw, al);
    c.describe([&](auto& o) { o << "get_word<" << wname<T>() << "> of " << len << " bits at " << rng(D, first, first + len) << " in " << wname<W>() << " " << b.show(); });
    c.nontrivial(crosses(D, first, len) || shares(D, first, len)); c.label(sizeof(T) == sizeof(W) ? "read: same width" : sizeof(T) < sizeof(W) ? "read: narrower word" : "read: wider word"); label_range(c, D, first, len);
    auto chk = [&](T got, const char* w) { for (size_t i = 0; i < len; ++i) PBT_CHECK(((got >> i) & 1) == b.m[first + i], "get_word" << w << " gives " << hex(got) << ": bit " << i << " is not that of the range"); };
    chk(bit::get_word<T>(b.at(first), len), ""); chk(bit::get_word<T>(b.cat(first), len), " over const words");
    b.compare("storage");
}
template <class T, class W> void writes(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>, DT = DIG<T>;
    const size_t off = gen_off(s, D), len = gen_wlen(s, DT, D - off); const Place a = gen_place_len(s, D, len);
    const size_t first = s.flag() ? a.first : a.first / D * D + off; const size_t words = std::max(a.words, (first + len + D - 1) / D);
    auto cw = gen_words<W>(s, words); const size_t al = gen_align(s); const T src = rnd<T>(s); s.ready();
    Buf<W> b; b.init(cw, al);
    c.describe([&](auto& o) { o << "write_word<" << wname<T>() << ">(" << hex(src) << ") of " << len << " bits at " << rng(D, first, first + len) << " in " << wname<W>() << " " << b.show(); });
    c.nontrivial(crosses(D, first, len) || shares(D, first, len)); c.label(sizeof(T) == sizeof(W) ? "write: same width" : sizeof(T) < sizeof(W) ? "write: narrower word" : "write: wider word"); label_range(c, D, first, len);
    if (len == DT && s.flag()) bit::write_word<T>(src, b.at(first)); else bit::write_word<T>(src, b.at(first), (T)len);
    for (size_t i = 0; i < len; ++i) b.m[first + i] = (uint8_t)((src >> i) & 1);
    b.compare("write_word");
    if (len <= std::min(D, DT)) { const T got = bit::get_word<T>(b.at(first), len); for (size_t i = 0; i < len; ++i) PBT_CHECK(((got >> i) & 1) == ((src >> i) & 1), "bit " << i << " read back differs"); }
}
template <int N, class I> void within(I f, I l, int64_t d) {
    PBT_CHECK(bit::is_within<N>(f, l) == (d <= N), "is_within<" << N << "> is " << bit::is_within<N>(f, l) << " for a distance of " << d);
}
template <class I> void limit(I f, I l, int64_t n, int64_t d) { PBT_CHECK(bit::is_within(f, l, n) == (d <= n), "is_within(first, last, " << n << ") is wrong for a distance of " << d); }
template <class W> void ranges(Source& s, Ctx& c) {
    constexpr int D = (int)DIG<W>;
    const size_t len = s.flag() ? s.draw(4 * D + 3) : gen_len(s, D, 3, 20); const Place a = gen_place_len(s, D, len); auto cw = gen_words<W>(s, a.words); s.ready();
    Buf<W> b; b.init(cw, 0); std::deque<W> q(cw.begin(), cw.end()); using QI = bit::bit_iterator<typename std::deque<W>::iterator>;
    c.describe([&](auto& o) { o << wname<W>() << " range " << rng(D, a.first, a.last()); });
    c.nontrivial(len > 0); c.label("range"); label_range(c, D, a.first, len);
    auto go = [&](auto f, auto l) {
        const int64_t d = (int64_t)len;
        PBT_CHECK((int64_t)bit::distance(f, l) == d, "distance is " << (int64_t)bit::distance(f, l) << ", expected " << d);
        PBT_CHECK(bit::next(f, d) == l && bit::next(l, -d) == f, "next does not reach the other end"); auto x = f; bit::advance(x, d); PBT_CHECK(x == l, "advance does not reach the end");
        if (d) { auto y = f; ++y; PBT_CHECK(bit::next(f) == y, "next"); }
        within<D>(f, l, d); within<D - 1>(f, l, d); within<1>(f, l, d); within<D + 1>(f, l, d); within<2 * D>(f, l, d); within<3 * D - 1>(f, l, d); within<3 * D + 2>(f, l, d);
    };
    go(b.at(a.first), b.at(a.last()));
    auto at = [&](size_t i) { return QI(q.begin() + (std::ptrdiff_t)(i / D), i % D); };
    go(at(a.first), at(a.last()));
    for (int64_t n : {(int64_t)0, (int64_t)len - 1, (int64_t)len, (int64_t)len + 1}) limit(at(a.first), at(a.last()), n, (int64_t)len), limit(b.at(a.first), b.at(a.last()), n, (int64_t)len);
}
// Positions up to 2^40 bits apart.
template <class W> void fars(Source& s, Ctx& c) {
    W* base = (W*)far_region(); if (!base) { c.label("no address space"); return; }
    const int64_t n = FAR_BYTES * 8; int64_t a = far_pos(s, n, -1), b = far_pos(s, n, a); if (a > b) std::swap(a, b);
    const int64_t d = b - a, lim = s.flag() ? d + s.irange(-1, 1) : far_pos(s, n, -1); s.ready();
    auto at = [&](int64_t i) { return bit::bit_iterator<W*>(base + i / (int64_t)DIG<W>, (size_t)(i % (int64_t)DIG<W>)); };
    c.describe([&](auto& o) { o << wname<W>() << " positions " << a << " and " << b << ", limit " << lim; }); c.nontrivial(d > 2147483647); c.label(d > 2147483647 ? "far apart" : "within 2^31 bits");
    PBT_CHECK((int64_t)bit::distance(at(a), at(b)) == d, "distance is " << (int64_t)bit::distance(at(a), at(b)) << ", expected " << d);
    PBT_CHECK(bit::next(at(a), d) == at(b) && bit::next(at(b), -d) == at(a), "next does not reach the other end"); auto x = at(a); bit::advance(x, d); PBT_CHECK(x == at(b), "advance does not reach the end");
    limit(at(a), at(b), lim, d); within<(int)DIG<W>>(at(a), at(b), d); within<1>(at(a), at(b), d);
}
void fr(Source& s, Ctx& c) { with_word(s, [&](auto w) { fars<decltype(w)>(s, c); }); }
void rd(Source& s, Ctx& c) { with_word(s, [&](auto t) { with_word(s, [&](auto w) { reads<decltype(t), decltype(w)>(s, c); }); }); }
void wr(Source& s, Ctx& c) { with_word(s, [&](auto t) { with_word(s, [&](auto w) { writes<decltype(t), decltype(w)>(s, c); }); }); }
void rg(Source& s, Ctx& c) { with_word(s, [&](auto w) { ranges<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return {{"read", rd, false, 200000, 4000000}, {"write", wr, false, 200000, 4000000}, {"range", rg, false, 60000, 1000000}, {"far", fr, false, 60000, 1000000}}; }
