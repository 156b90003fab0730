// C27: containers and algorithms at sizes beyond single-precision floats and 32-bit integers.
// The model is a run-length list; the real storage is converted to one by scanning it.
#include "bits.hpp"
using namespace pbt;
namespace {
struct Runs {
    std::vector<std::pair<uint8_t, uint64_t>> r;          // value, length; neighbours differ, no empty run
    uint64_t size() const { uint64_t n = 0; for (auto& x : r) n += x.second; return n; }
    void add(uint8_t v, uint64_t n) { if (!n) return; if (!r.empty() && r.back().first == v) r.back().second += n; else r.emplace_back(v, n); }
    void add(const Runs& o) { for (auto& x : o.r) add(x.first, x.second); }
    Runs slice(uint64_t a, uint64_t b) const { Runs o; uint64_t p = 0; for (auto& x : r) { uint64_t lo = std::max(p, a), hi = std::min(p + x.second, b); if (lo < hi) o.add(x.first, hi - lo); p += x.second; if (p >= b) break; } return o; }
    Runs replace(uint64_t a, uint64_t b, const Runs& mid) const { Runs o = slice(0, a); o.add(mid); o.add(slice(b, size())); return o; }
    Runs reversed() const { Runs o; for (size_t i = r.size(); i-- > 0;) o.add(r[i].first, r[i].second); return o; }
    Runs inverted() const { Runs o; for (auto& x : r) o.add(!x.first, x.second); return o; }
    uint64_t count(uint64_t a, uint64_t b, uint8_t v) const { uint64_t n = 0; for (auto& x : slice(a, b).r) if (x.first == v) n += x.second; return n; }
    uint64_t find(uint64_t a, uint64_t b, uint8_t v) const { uint64_t p = a; for (auto& x : slice(a, b).r) { if (x.first == v) return p; p += x.second; } return b; }
    bool operator==(const Runs& o) const { return r == o.r; }
    std::string show() const { std::ostringstream o; for (size_t i = 0; i < r.size() && i < 14; ++i) o << (i ? " " : "") << (int)r[i].first << "x" << r[i].second; if (r.size() > 14) o << " ..."; return o.str(); }
};
// Bits [a, b) of little-endian storage (bit i of word w is bit i of its bytes in order).
Runs scan(const void* mem, uint64_t a, uint64_t b) {
    Runs o; const unsigned char* p = (const unsigned char*)mem; uint64_t i = a;
    while (i < b && i % 64) { o.add((p[i / 8] >> (i % 8)) & 1, 1); ++i; }
    uint64_t run = 0; uint8_t cur = 2;
    while (i + 64 <= b) {
        uint64_t w; memcpy(&w, p + i / 8, 8);
        if (w == 0 || w == ~0ull) { uint8_t v = w != 0; if (v != cur) { if (run) o.add(cur, run); run = 0; cur = v; } run += 64; }
        else {
            if (run) o.add(cur, run); run = 0; cur = 2;
            for (int k = 0; k < 64;) { uint64_t x = w >> k; uint8_t v = x & 1; uint64_t y = v ? ~x : x; int t = y ? __builtin_ctzll(y) : 64; if (t > 64 - k) t = 64 - k; o.add(v, t); k += t; }
        }
        i += 64;
    }
    if (run) o.add(cur, run);
    while (i < b) { o.add((p[i / 8] >> (i % 8)) & 1, 1); ++i; }
    return o;
}
void same(const Runs& got, const Runs& want, const char* what) {
    if (got == want) return;
    uint64_t p = 0; size_t i = 0; while (i < got.r.size() && i < want.r.size() && got.r[i] == want.r[i]) p += got.r[i].second, ++i;
    Runs g, w; g.r.assign(got.r.begin() + i, got.r.end()); w.r.assign(want.r.begin() + i, want.r.end());
    PBT_FAIL(what << ": from bit " << p << " on, the bits are " << g.show() << ", expected " << w.show());
}
template <class V> void check(V& v, const Runs& m, uint64_t n, const char* what) {
    PBT_CHECK(v.size() == n, what << ": size " << v.size() << ", expected " << n);
    PBT_CHECK(v.capacity() >= n, what << ": capacity " << v.capacity() << " below size " << n);
    PBT_CHECK(v.end() - v.begin() == (int64_t)n, what << ": end - begin is " << (v.end() - v.begin()) << ", expected " << n);
    if (n) same(scan(v.data(), 0, n), m, what);
}
template <class V> void fill_from(V& v, const Runs& m) {          // writes the runs directly into the words
    unsigned char* p = (unsigned char*)v.data(); uint64_t i = 0;
    for (auto& x : m.r) { uint64_t e = i + x.second; if (x.first) { uint64_t k = i; while (k < e && k % 8) { p[k / 8] |= 1 << (k % 8); ++k; } if (e > k) { memset(p + k / 8, 0xff, (e - k) / 8); k += (e - k) / 8 * 8; } while (k < e) { p[k / 8] |= 1 << (k % 8); ++k; } } i = e; }
}
struct Scale { uint64_t base, slack; };
uint64_t near(Source& s, uint64_t hi, Scale sc) {                   // a position in 0..hi
    uint64_t p = 0;
    switch (s.draw(6)) {
    case 0: p = hi - std::min<uint64_t>(hi, s.draw(130)); break;
    case 1: p = s.draw(130); break;
    case 2: case 3: { uint64_t b = sc.base >> s.draw(2); int64_t q = (int64_t)b + s.irange(-70, 70); p = q < 0 ? 0 : (uint64_t)q; break; }
    case 4: p = hi / 64 * s.draw(65); break;
    default: p = s.draw(hi + 1);
    }
    return std::min(p, hi);
}
Runs gen_runs(Source& s, uint64_t n, Scale sc) {
    Runs m; std::vector<uint64_t> cut; size_t k = 1 + s.draw(10); for (size_t i = 0; i < k; ++i) { uint64_t p = near(s, n, sc); cut.push_back(p); if (s.draw(3) == 2) cut.push_back(std::min(n, p + 1 + s.draw(3))); }
    std::sort(cut.begin(), cut.end()); uint8_t v = (uint8_t)s.draw(2); uint64_t p = 0; for (auto c : cut) { m.add(v, c - p); v = !v; p = c; } m.add(v, n - p); return m;
}
const char* OPS[] = {"push_back", "pop_back", "insert(1)", "insert(n)", "insert(range)", "erase(1)", "erase(range)", "resize", "resize(value)", "element", "iterators", "fill", "count", "find", "reverse", "rotate", "shift_left", "shift_right", "copy", "copy_backward", "equal", "swap_ranges", "transform", "copies"};
template <class W> void history(Source& s, Ctx& c, Scale sc, size_t nops, bool cheap) {
    using V = bit::bit_vector<W>; constexpr uint64_t D = DIG<W>;
    uint64_t n = sc.base + (uint64_t)s.irange(-(int64_t)(3 * D), (int64_t)sc.slack);
    Runs m = gen_runs(s, n, sc);
    c.describe([&](auto& o) { o << wname<W>() << " " << n << " bits: " << m.show(); });
    c.nontrivial(n > (1u << 24));
    V v(n); PBT_CHECK(v.size() == n && v.capacity() >= n, "constructed with " << n << " bits, size is " << v.size() << ", capacity " << v.capacity());
    PBT_CHECK(scan(v.data(), 0, n).count(0, n, 1) == 0, "bits of bit_vector(" << n << ") are not all zero");
    fill_from(v, m);
    for (size_t k = 0; k < nops; ++k) {
        size_t op; 
        if (cheap) { static const int CH[] = {0, 1, 7, 8, 9, 10, 11, 12, 13, 2, 3, 5}; op = CH[s.draw(12)]; } else op = s.draw(24);
        c.label(OPS[op]);
        uint64_t a = near(s, n, sc), b = a + near(s, n - a, sc); bit::bit_value bv = bit::bit0; uint8_t x = (uint8_t)s.draw(2); if (x) bv = bit::bit1;
        c.describe([&](auto& o) { o << "; " << OPS[op] << " [" << a << "," << b << ") " << (int)x; });
        auto at = [&](uint64_t p) { return v.begin() + (std::ptrdiff_t)p; };
        auto ret = [&](typename V::iterator it, uint64_t want) { int64_t g = it - v.begin(); PBT_CHECK(g == (int64_t)want, OPS[op] << " returned position " << g << ", expected " << want); };
        bool dirty = true;
        switch (op) {
        case 0: { size_t t = 1 + s.draw(2 * D + 1); for (size_t i = 0; i < t; ++i) v.push_back(bv); m.add(x, t); n += t; break; }
        case 1: { size_t t = std::min<uint64_t>(n, 1 + s.draw(2 * D + 1)); for (size_t i = 0; i < t; ++i) v.pop_back(); n -= t; m = m.slice(0, n); break; }
        case 2: { ret(v.insert(at(a), bv), a); Runs i; i.add(x, 1); m = m.replace(a, a, i); ++n; break; }
        case 3: { uint64_t t = 1 + s.draw(s.flag() ? 3 * D : 200000); c.describe([&](auto& o) { o << " n=" << t; }); ret(v.insert(at(a), t, bv), a); Runs i; i.add(x, t); m = m.replace(a, a, i); n += t; break; }
        case 4: { uint64_t t = 1 + s.draw(s.flag() ? 3 * D : 200000), off = s.draw(D); Runs q = gen_runs(s, off + t, Scale{t, 0}); V o(off + t); fill_from(o, q); c.describe([&](auto& os) { os << " n=" << t; });
                  ret(v.insert(at(a), o.begin() + (std::ptrdiff_t)off, o.end()), a); m = m.replace(a, a, q.slice(off, off + t)); n += t; break; }
        case 5: if (a < n) { ret(v.erase(at(a)), a); m = m.replace(a, a + 1, {}); --n; } break;
        case 6: { if (b - a > n / 2) b = a + (b - a) / 64; ret(v.erase(at(a), at(b)), a); m = m.replace(a, b, {}); n -= b - a; break; }
        case 7: case 8: { uint64_t t = s.flag() ? a : n + s.draw(sc.base / 64); t = std::max(t, n / 2); if (op == 7) { v.resize(t); x = 0; } else v.resize(t, bv); if (t < n) m = m.slice(0, t); else m.add(x, t - n); n = t; break; }
        case 9: if (a < n) { PBT_CHECK((bool)v[a] == (m.find(a, a + 1, 1) == a), "v[" << a << "] is " << (bool)v[a]); v[a] = bv; Runs i; i.add(x, 1); m = m.replace(a, a + 1, i);
                  PBT_CHECK((bool)v.at(a) == (bool)x && (bool)v.begin()[(std::ptrdiff_t)a] == (bool)x && (bool)*(v.end() - (std::ptrdiff_t)(n - a)) == (bool)x, "at(" << a << ") or iterator access disagrees with the bit just written"); } break;
        case 10: { auto i = at(a), j = at(b); int64_t d = (int64_t)(b - a); dirty = false;
                   PBT_CHECK(j - i == d && i - j == -d, "difference of positions " << b << " and " << a << " is " << (j - i)); PBT_CHECK(bit::distance(i, j) == d, "distance of positions " << a << " and " << b << " is " << bit::distance(i, j));
                   PBT_CHECK(i + d == j && j - d == i && j + -d == i, "iterator arithmetic between " << a << " and " << b); PBT_CHECK((i < j) == (d > 0) && (i <= j) && !(j < i) && (i == j) == (d == 0), "ordering of " << a << " and " << b);
                   auto t = i; t += d; PBT_CHECK(t == j, "+= " << d); t -= d; PBT_CHECK(t == i, "-= " << d); t = std::next(i, d); PBT_CHECK(t == j, "std::next"); PBT_CHECK(std::distance(i, j) == d, "std::distance");
                   if (a < n && b < n) { auto p = &v[a], q = &v[b]; PBT_CHECK(q - p == d && p + d == q && q - d == p, "bit pointer arithmetic between " << a << " and " << b); }
                   break; }
        case 11: { bit::fill(at(a), at(b), bv); Runs i; i.add(x, b - a); m = m.replace(a, b, i); break; }
        case 12: { auto g = bit::count(at(a), at(b), bv); PBT_CHECK((uint64_t)g == m.count(a, b, x), "count of " << (int)x << " in [" << a << "," << b << ") is " << g << ", expected " << m.count(a, b, x)); dirty = false; break; }
        case 13: ret(bit::find(at(a), at(b), bv), m.find(a, b, x)); dirty = false; break;
        case 14: bit::reverse(at(a), at(b)); m = m.replace(a, b, m.slice(a, b).reversed()); break;
        case 15: { uint64_t p = a + near(s, b - a, sc); c.describe([&](auto& o) { o << " pivot " << p; }); ret(bit::rotate(at(a), at(p), at(b)), a + (b - p)); Runs q = m.slice(p, b); q.add(m.slice(a, p)); m = m.replace(a, b, q); break; }
        case 16: case 17: { uint64_t t = near(s, b - a, sc); c.describe([&](auto& o) { o << " by " << t; }); Runs keep; bool left = op == 16;
                   auto it = left ? bit::shift_left(at(a), at(b), (std::ptrdiff_t)t) : bit::shift_right(at(a), at(b), (std::ptrdiff_t)t);
                   ret(it, left ? (t >= b - a ? a : b - t) : (t >= b - a ? b : a + t));
                   if (t < b - a) { if (left) { keep = m.slice(a + t, b); keep.add(scan(v.data(), b - t, b)); } else { keep = scan(v.data(), a, a + t); keep.add(m.slice(a, b - t)); } } else keep = scan(v.data(), a, b);
                   if (t == 0) keep = m.slice(a, b);
                   m = m.replace(a, b, keep); break; }
        case 18: { uint64_t d = near(s, a, sc), e = d + (b - a); ret(bit::copy(at(a), at(b), at(d)), e); m = m.replace(d, e, m.slice(a, b)); c.describe([&](auto& o) { o << " to " << d; }); break; }
        case 19: { uint64_t e = b + near(s, n - b, sc), d = e - (b - a); c.describe([&](auto& o) { o << " to " << d; }); ret(bit::copy_backward(at(a), at(b), at(e)), d); m = m.replace(d, e, m.slice(a, b)); break; }
        case 20: { V o(v); uint64_t p = a + near(s, b - a, sc); bool flip = p < b && s.flag(); if (flip) o[p].flip(); bool g = bit::equal(at(a), at(b), o.begin() + (std::ptrdiff_t)a); PBT_CHECK(g == !flip, "equal of [" << a << "," << b << ") with a copy" << (flip ? " differing at " : " (identical) ") << p << " is " << g); dirty = false; break; }
        case 21: { uint64_t len = std::min(b - a, n - b); uint64_t d = n - len; ret(bit::swap_ranges(at(a), at(a + len), at(d)), n); Runs p = m.slice(a, a + len), q = m.slice(d, n); m = m.replace(a, a + len, q).replace(d, n, p); break; }
        case 22: { ret(bit::transform(at(a), at(b), at(a), std::bit_not<W>()), b); m = m.replace(a, b, m.slice(a, b).inverted()); break; }
        default: { V o(v); check(o, m, n, "copy"); V p(at(a), at(b)); check(p, m.slice(a, b), b - a, "copy of a sub-range"); v = std::move(o); }
        }
        if (dirty) check(v, m, n, OPS[op]);
    }
}
void mid(Source& s, Ctx& c) {             // single precision, 16-bit word counts
    static const uint64_t B[] = {1u << 24, (1u << 24) + (1u << 20), 1u << 25, 1u << 26, 3u << 24};
    Scale sc{B[s.draw(5)], 70}; if (s.draw(3) == 2) sc.slack = 1 << 20;
    with_word(s, [&](auto w) { history<decltype(w)>(s, c, sc, 1 + s.draw(4), false); });
}
void huge(Source& s, Ctx& c) {             // 32-bit bit positions
    Scale sc{s.flag() ? 1ull << 32 : 1ull << 31, 200}; if (s.draw(3) == 2) sc.slack = 1 << 26;
    switch (s.draw(4)) { case 0: history<uint64_t>(s, c, sc, 1 + s.draw(2), false); break; case 1: history<uint32_t>(s, c, sc, 1 + s.draw(2), false); break; case 2: history<uint16_t>(s, c, sc, 1, false); break; default: history<uint8_t>(s, c, sc, 1, sc.base > (1ull << 31)); }
}
void giant(Source& s, Ctx& c) {            // 32-bit word counts
    history<uint8_t>(s, c, Scale{1ull << 34, 200}, 1, true);
}
// Single algorithm calls over ranges of (multiples of) exactly 2^31 or 2^32 bits, and the lengths next to them.
template <class W> void exact_run(Source& s, Ctx& c) {
    using V = bit::bit_vector<W>; constexpr uint64_t D = DIG<W>;
    uint64_t len = s.draw(3) == 0 ? 1ull << 31 : 1ull << 32; bool shifted = s.flag(); uint64_t a = shifted ? s.draw(2 * D + 1) : 0, tail = s.draw(3) == 0 ? 0 : s.draw(130); if (s.draw(3) == 2) { int64_t d = s.irange(-2, 2); len += (uint64_t)d; }
    uint64_t b = a + len, n = b + tail; Scale sc{len, 0}; Runs m; uint8_t bg = (uint8_t)s.draw(2); if (s.draw(3) == 2) m = gen_runs(s, n, sc); else m.add(bg, n);
    c.describe([&](auto& o) { o << wname<W>() << " " << n << " bits, [" << a << "," << b << "): " << m.show(); }); c.nontrivial();
    V v(n); fill_from(v, m); auto at = [&](uint64_t p) { return v.begin() + (std::ptrdiff_t)p; };
    auto ret = [&](auto it, uint64_t want, const char* what) { int64_t g = it - v.begin(); PBT_CHECK(g == (int64_t)want, what << " returned position " << g << ", expected " << want); };
    for (int x = 0; x < 2; ++x) {
        auto bv = x ? bit::bit1 : bit::bit0; auto g = bit::count(at(a), at(b), bv); PBT_CHECK((uint64_t)g == m.count(a, b, (uint8_t)x), "count of " << x << " is " << g << ", expected " << m.count(a, b, (uint8_t)x));
        ret(bit::find(at(a), at(b), bv), m.find(a, b, (uint8_t)x), "find");
    }
    static const char* K[] = {"fill", "fill", "copy", "copy_backward", "equal", "reverse", "shift_left", "shift_right", "rotate", "transform", "swap_ranges"};
    size_t k = s.draw(11); c.label(K[k]); c.describe([&](auto& o) { o << " " << K[k]; });
    switch (k) {
    case 0: case 1: { uint8_t x = (uint8_t)s.draw(2); bit::fill(at(a), at(b), x ? bit::bit1 : bit::bit0); Runs i; i.add(x, len); m = m.replace(a, b, i); break; }
    case 2: case 3: case 4: case 9: case 10: {
        uint64_t d = s.flag() ? a : s.draw(2 * D); V o(d + len + 70); Runs om; om.add(0, d + len + 70); auto to = o.begin() + (std::ptrdiff_t)d, te = to + (std::ptrdiff_t)len;
        if (k == 2) { PBT_CHECK(bit::copy(at(a), at(b), to) == te, "copy returned another position"); om = om.replace(d, d + len, m.slice(a, b)); }
        else if (k == 3) { PBT_CHECK(bit::copy_backward(at(a), at(b), te) == to, "copy_backward returned another position"); om = om.replace(d, d + len, m.slice(a, b)); }
        else if (k == 4) { bool e = m.slice(a, b) == om.slice(d, d + len); PBT_CHECK(bit::equal(at(a), at(b), to) == e, "equal is not " << e); }
        else if (k == 9) { PBT_CHECK(bit::transform(at(a), at(b), to, std::bit_not<W>()) == te, "transform returned another position"); om = om.replace(d, d + len, m.slice(a, b).inverted()); }
        else { Runs keep = m.slice(a, b); PBT_CHECK(bit::swap_ranges(at(a), at(b), to) == te, "swap_ranges returned another position"); m = m.replace(a, b, om.slice(d, d + len)); om = om.replace(d, d + len, keep); }
        check(o, om, d + len + 70, K[k]); break; }
    case 5: bit::reverse(at(a), at(b)); m = m.replace(a, b, m.slice(a, b).reversed()); break;
    case 6: case 7: { static const uint64_t T[] = {1ull << 31, 1ull << 32, 1, 64}; uint64_t t = T[s.draw(4)] + (uint64_t)s.irange(0, 2); c.describe([&](auto& o) { o << " by " << t; }); bool left = k == 6;
        ret(left ? bit::shift_left(at(a), at(b), (std::ptrdiff_t)t) : bit::shift_right(at(a), at(b), (std::ptrdiff_t)t), left ? (t >= len ? a : b - t) : (t >= len ? b : a + t), K[k]);
        Runs keep; if (t < len) { if (left) { keep = m.slice(a + t, b); keep.add(scan(v.data(), b - t, b)); } else { keep = scan(v.data(), a, a + t); keep.add(m.slice(a, b - t)); } } else keep = scan(v.data(), a, b);
        m = m.replace(a, b, keep); break; }
    default: { uint64_t p = a + near(s, len, sc); c.describe([&](auto& o) { o << " pivot " << p; }); ret(bit::rotate(at(a), at(p), at(b)), a + (b - p), "rotate"); Runs q = m.slice(p, b); q.add(m.slice(a, p)); m = m.replace(a, b, q); }
    }
    check(v, m, n, K[k]);
}
void exact(Source& s, Ctx& c) { switch (s.draw(4)) { case 0: exact_run<uint32_t>(s, c); break; case 1: exact_run<uint16_t>(s, c); break; default: exact_run<uint64_t>(s, c); } }
// More than 2^32 blocks to swap inside one rotation (4.8 GB of bytes).
void rotate_many_blocks(Source& s, Ctx& c) {
    using V = bit::bit_vector<uint8_t>; uint64_t n = 9 * (1ull << 32) + s.draw(100), k = s.draw(4) == 0 ? 9 : n - 9; Scale sc{n, 0};
    Runs m = gen_runs(s, n, sc); c.nontrivial(); c.describe([&](auto& o) { o << "rotate of " << n << " bits by " << k << ": " << m.show(); });
    V v(n); fill_from(v, m);
    auto r = bit::rotate(v.begin(), v.begin() + (std::ptrdiff_t)k, v.end());
    PBT_CHECK(r - v.begin() == (int64_t)(n - k), "rotate returned position " << (r - v.begin()) << ", expected " << n - k);
    Runs q = m.slice(k, n); q.add(m.slice(0, k)); check(v, q, n, "rotate");
}
}
std::vector<Test> pbt::tests() { return { {"mid", mid, false, 2500, 40000}, {"huge", huge, false, 230, 2500}, {"exact", exact, false, 90, 1500}, {"giant", giant, false, 0, 40}, {"rotate_many_blocks", rotate_many_blocks, false, 0, 4} }; }
