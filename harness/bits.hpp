// Buffers, per-bit reference model and generators shared by the algorithm checks.
#pragma once
#include "pbt.hpp"
#include "bitlib/bitlib.hpp"
#include <memory>
#include <type_traits>

namespace pbt {

template <class W> constexpr size_t DIG = sizeof(W) * 8;
using Bits = std::vector<uint8_t>;

// ------------------------------------------------------------------ storage
// N words of storage, exactly; surroundings are poisoned under ASAN and hold a
// canary otherwise.  `off` bytes of padding in front choose the alignment.
template <class W>
struct Raw {
    using It = W*;
    using CIt = const W*;
    char* mem = nullptr; W* p = nullptr; size_t n = 0, off = 0;
    static constexpr size_t PAD = 64;
    Raw() = default;
    Raw(const Raw&) = delete;
    Raw& operator=(const Raw&) = delete;
    void alloc(size_t words, size_t off_bytes) {
        n = words; off = off_bytes / sizeof(W) * sizeof(W);
        size_t tot = PAD + off + n * sizeof(W) + PAD;
        mem = static_cast<char*>(aligned_alloc(64, (tot + 63) / 64 * 64));
        memset(mem, 0xA5, tot);
        p = reinterpret_cast<W*>(mem + PAD + off);
#ifdef PBT_ASAN
        PBT_POISON(mem, (PAD + off) / 8 * 8);
        PBT_POISON(mem + PAD + off + n * sizeof(W), PAD);
#endif
    }
    void check_guard() const {
        if (!mem) return;
#ifndef PBT_ASAN
        for (size_t i = 0; i < PAD + off; ++i) PBT_CHECK((unsigned char)mem[i] == 0xA5, "byte before the storage was overwritten (offset -" << PAD + off - i << ")");
        for (size_t i = 0; i < PAD; ++i) PBT_CHECK((unsigned char)mem[PAD + off + n * sizeof(W) + i] == 0xA5, "byte after the storage was overwritten (offset +" << i << ")");
#endif
    }
    ~Raw() { if (mem) { PBT_UNPOISON(mem, (PAD * 2 + off + n * sizeof(W) + 63) / 64 * 64); free(mem); } }
    It begin() { return p; }
    CIt cbegin() const { return p; }
    W* data() { return p; }
    const W* data() const { return p; }
};
template <class W>
struct Vec {
    using It = typename std::vector<W>::iterator;
    using CIt = typename std::vector<W>::const_iterator;
    std::vector<W> v; size_t n = 0;
    Vec() = default;
    Vec(const Vec&) = delete;
    Vec& operator=(const Vec&) = delete;
    void alloc(size_t words, size_t) { n = words; v = std::vector<W>(words); v.shrink_to_fit(); }
    void check_guard() const {}
    It begin() { return v.begin(); }
    CIt cbegin() const { return v.cbegin(); }
    W* data() { return v.data(); }
    const W* data() const { return v.data(); }
};
#if defined(PBT_STORE_VEC)
template <class W> using Store = Vec<W>;
#else
template <class W> using Store = Raw<W>;
#endif

// Storage plus its model: one byte per bit.
template <class W, template <class> class S = Store>
struct Buf {
    using It = typename S<W>::It;
    using BI = bit::bit_iterator<It>;
    static constexpr size_t D = DIG<W>;
    S<W> st; Bits m; size_t n = 0;
    void init(const std::vector<W>& words, size_t off_bytes) {
        n = words.size(); st.alloc(n, off_bytes);
        for (size_t i = 0; i < n; ++i) st.data()[i] = words[i];
        m.resize(n * D);
        for (size_t i = 0; i < n * D; ++i) m[i] = (words[i / D] >> (i % D)) & 1;
    }
    BI at(size_t bit) { return BI(st.begin() + (std::ptrdiff_t)(bit / D), bit % D); }
    using CBI = bit::bit_iterator<typename S<W>::CIt>;
    CBI cat(size_t bit) const { return CBI(st.cbegin() + (std::ptrdiff_t)(bit / D), bit % D); }
    size_t bits() const { return n * D; }
    // Index of an iterator; checks its well-formedness through base()/position().
    int64_t index(BI i) { return (int64_t)(i.base() - st.begin()) * (int64_t)D + (int64_t)i.position(); }
    W word(const Bits& b, size_t w) const { W x = 0; for (size_t k = 0; k < D; ++k) x = (W)(x | ((W)(b[w * D + k]) << k)); return x; }
    // Compares every bit with the model; bits in [dc_lo, dc_hi) are unspecified.
    void compare(const char* what, size_t dc_lo = 0, size_t dc_hi = 0) const {
        st.check_guard();
        for (size_t w = 0; w < n; ++w) {
            W e = word(m, w), a = st.data()[w];
            if (e == a) continue;
            for (size_t k = 0; k < D; ++k) {
                size_t b = w * D + k;
                if (b >= dc_lo && b < dc_hi) continue;
                int av = (a >> k) & 1;
                PBT_CHECK(av == m[b], what << ": bit " << b << " (word " << w << " bit " << k << ") is " << av << ", expected " << (int)m[b]);
            }
        }
    }
    void sync_from_real(size_t lo, size_t hi) { for (size_t b = lo; b < hi; ++b) m[b] = (st.data()[b / D] >> (b % D)) & 1; }
    std::string show() const {
        std::ostringstream o; o << "[" << n << "w:";
        for (size_t i = 0; i < n && i < 24; ++i) { o << ' ' << std::hex; if (D > 64) o << (uint64_t)(word(m, i) >> (D / 2)) << '_'; o << (uint64_t)word(m, i) << std::dec; }
        if (n > 24) o << " ...";
        o << "]"; return o.str();
    }
};

// --------------------------------------------------------------- generators
template <class W> W rnd_word(Expand& e) { W x = (W)e.next(); if constexpr (sizeof(W) > 8) x = (W)(x << 32 << 32 | (W)e.next()); return x; }
template <class W>
std::vector<W> gen_words(Source& s, size_t n) {
    constexpr size_t D = DIG<W>;
    std::vector<W> v(n);
    if (s.small_scope) {
        switch (s.draw(3)) {
        case 0: { Expand e(77 + n); for (auto& x : v) x = rnd_word<W>(e); break; }
        case 1: for (auto& x : v) x = (W)~(W)0; break;
        default: { Expand e(1234 + n); for (auto& x : v) x = (W)(rnd_word<W>(e) & rnd_word<W>(e)); }
        }
        return v;
    }
    uint64_t kind = s.draw(10);
    switch (kind) {
    case 0: case 1: case 2: { Expand e(s.draw(1 << 16)); for (auto& x : v) x = rnd_word<W>(e); break; }
    case 3: for (auto& x : v) x = (W)~(W)0; break;
    case 4: break;
    case 5: { if (n) { size_t b = s.draw(n * D); v[b / D] = (W)((W)1 << (b % D)); } break; }
    case 6: { for (auto& x : v) x = (W)~(W)0; if (n) { size_t b = s.draw(n * D); v[b / D] = (W)(v[b / D] ^ (W)((W)1 << (b % D))); } break; }
    case 7: { Expand e(s.draw(1 << 16)); for (auto& x : v) x = (W)(rnd_word<W>(e) & rnd_word<W>(e) & rnd_word<W>(e) & rnd_word<W>(e)); break; }
    case 8: { Expand e(s.draw(1 << 16)); for (auto& x : v) x = (W)(rnd_word<W>(e) | rnd_word<W>(e) | rnd_word<W>(e) | rnd_word<W>(e)); break; }
    default: { Expand e(s.draw(1 << 16)); size_t b = 0; bool bit = e.next() & 1;          // runs of random length
               while (b < n * D) { size_t len = 1 + e.next() % (3 * D); for (size_t i = 0; i < len && b < n * D; ++i, ++b) if (bit) v[b / D] = (W)(v[b / D] | (W)((W)1 << (b % D))); bit = !bit; } }
    }
    return v;
}
inline size_t gen_len(Source& s, size_t D, size_t max_small_words = 3, size_t big_words = 600) {
    if (s.small_scope) return s.draw(max_small_words * D + 4);
    switch (s.draw(16)) {
    case 0: return s.draw(4);
    case 1: case 2: return s.draw(D + 1);
    case 3: case 4: case 5: { int64_t v = (int64_t)(s.range(1, 4) * D) + s.irange(-2, 2); return v < 0 ? 0 : (size_t)v; }
    case 6: case 7: case 8: return s.draw(6 * D);
    case 9: case 10: return s.draw(40 * D);
    case 11: { int64_t v = (int64_t)(s.range(1, 70) * D) + s.irange(-2, 2); return (size_t)v; }
    case 12: return s.draw(140 * D);
    case 13: return s.draw(2 * D);
    case 14: return s.draw(3 * D);
    default: { size_t k = s.draw(8);
        // more than 2^16 words, rarely (not where the caller asked for small sizes)
        if (k == 7 && big_words >= 500 && s.draw(16) == 15) return s.flag() ? (size_t)s.range(65500, 70000) * D + s.draw(D) : s.draw(70000 * D);
        size_t cap = big_words >> (7 - k); return s.draw(std::max<size_t>(cap, 2) * D); }
    }
}
inline size_t gen_off(Source& s, size_t D) {
    if (s.small_scope) return s.draw(D);
    switch (s.draw(5)) {
    case 0: return 0;
    case 1: { static const int pick[] = {1, -1, 2, -2}; int p = pick[s.draw(4)]; return p > 0 ? (size_t)p : D + p; }
    default: return s.draw(D);
    }
}
inline size_t gen_align(Source& s) { return s.small_scope ? 0 : s.draw(16) * 4; }
// Where a range of `len` bits sits in its storage.
struct Place { size_t first, len, words; size_t last() const { return first + len; } };
inline Place gen_place_len(Source& s, size_t D, size_t len) {
    size_t off = gen_off(s, D);
    size_t pre = s.small_scope ? s.draw(2) : (s.draw(3) == 2 ? s.range(1, 9) : s.draw(2));
    size_t post = s.small_scope ? s.draw(2) : s.draw(3);
    size_t body = (off + len + D - 1) / D;
    if (len == 0 && off) body = 1;
    return Place{pre * D + off, len, pre + body + post};
}
inline Place gen_place(Source& s, size_t D, size_t smallw = 3, size_t bigw = 600) { return gen_place_len(s, D, gen_len(s, D, smallw, bigw)); }

template <class F> void with_word(Source& s, F f) {
#if defined(PBT_WORDS_WIDE)
    if (s.small_scope) { f(uint8_t{}); return; }
    if (s.draw(3)) f((unsigned __int128)0); else f(0ull);
#elif defined(PBT_WORDS_8_64)
    if (s.small_scope) { f(uint8_t{}); return; }
    switch (s.draw(2)) { case 0: f(uint8_t{}); break; default: f(uint64_t{}); }
#else
    if (s.small_scope) { f(uint8_t{}); return; }
    switch (s.draw(4)) {
    case 0: f(uint8_t{}); break;
    case 1: f(uint16_t{}); break;
    case 2: f(uint32_t{}); break;
    default: f(uint64_t{});
    }
#endif
}
template <class W> const char* wname() { return sizeof(W) == 16 ? "u128" : std::is_same<W, unsigned long long>::value ? "ull" : sizeof(W) == 1 ? "u8" : sizeof(W) == 2 ? "u16" : sizeof(W) == 4 ? "u32" : "u64"; }

// Non-trivial range: non-empty and either crossing a word boundary or sharing a
// word with bits outside the range.
inline bool crosses(size_t D, size_t first, size_t len) { return len && first / D != (first + len - 1) / D; }
inline bool shares(size_t D, size_t first, size_t len) { return len && (first % D || (first + len) % D); }
inline void label_range(Ctx& c, size_t D, size_t first, size_t len) {
    size_t words = len ? (first + len - 1) / D - first / D + 1 : 0;
    c.label(len == 0 ? "len: empty" : words == 1 ? "words: 1" : words == 2 ? "words: 2" : words <= 8 ? "words: 3-8" : words <= 64 ? "words: 9-64" : "words: >64");
    c.label(first % D == 0 ? "first aligned" : "first unaligned");
    c.label((first + len) % D == 0 ? "last aligned" : "last unaligned");
}
inline std::string rng(size_t D, size_t f, size_t l) { std::ostringstream o; o << "[" << f << "," << l << ") = [w" << f / D << ":" << f % D << ", w" << l / D << ":" << l % D << ")"; return o.str(); }
}  // namespace pbt
