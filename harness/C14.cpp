// C14: algorithms touch only the words their ranges overlap, and run without undefined behaviour.
#include "algos.hpp"
using namespace pbt;
namespace {
// ------------------------------------------------ exact, guarded storage per range
struct Rg { size_t off, len; };
template <class W, template <class> class S> void exact(Source& s, Ctx& c, int alg) {
    constexpr size_t D = DIG<W>; size_t len = gen_len(s, D, 3, 300); int nr = ranges_of(alg);
    Buf<W, S> x[3];
    size_t off[3] = {0, 0, 0};
    for (int i = 0; i < nr; ++i) {
        off[i] = gen_off(s, D);
        size_t words = (off[i] + len + D - 1) / D;
        if (len == 0) { words = s.draw(2); off[i] = words ? off[i] : 0; if (words && s.flag()) off[i] = D; }   // nothing at all, or at the very end of the storage
        x[i].init(gen_words<W>(s, words), gen_align(s));
    }
    if (alg == A_EQUAL && len && s.draw(4)) { for (size_t i = 0; i < len; ++i) { bit::bit_reference<W> r(x[1].st.data()[(off[1] + i) / D], (off[1] + i) % D); r = x[0].m[off[0] + i] ? bit::bit1 : bit::bit0; x[1].m[off[1] + i] = x[0].m[off[0] + i]; } }
    int64_t par = gen_par(s, alg, D, len);
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " len=" << len << " offsets " << off[0] << "," << off[1] << "," << off[2] << " par=" << par << " in exactly sized storage of " << x[0].n << "," << x[1].n << "," << x[2].n << " words; first " << x[0].show(); });
    c.nontrivial(len == 0 || (off[0] + len) % D == 0 || crosses(D, off[0], len)); c.label(alg_name(alg)); c.label("empty", len == 0); c.label("no storage", x[0].n == 0); c.label("ends at a word boundary", len && (off[0] + len) % D == 0);
    auto r = call_alg(alg, x[0].at(off[0]), x[nr > 1 ? 1 : 0].at(off[nr > 1 ? 1 : 0]), x[nr > 2 ? 2 : 0].at(off[nr > 2 ? 2 : 0]), len, par);
    auto e = model_alg(alg, x[0].m.data() + off[0], x[1].m.data() + off[1], x[2].m.data() + off[2], len, par);
    PBT_CHECK(r == e, alg_name(alg) << " returned " << r << ", expected " << e);
    x[0].compare("first range", off[0] + e.dc_lo, off[0] + e.dc_hi); x[1].compare("second range"); x[2].compare("third range");
}
template <template <class> class S> void exact_any(Source& s, Ctx& c) {
    int alg = (int)s.draw(N_ALG);
    with_word(s, [&](auto w) { exact<decltype(w), S>(s, c, alg); });
}
void exact_raw(Source& s, Ctx& c) { exact_any<Raw>(s, c); }
void exact_vec(Source& s, Ctx& c) { exact_any<Vec>(s, c); }

#ifndef BITLIB_HWY
// ------------------------------------------------ instrumented word iterator
// Every dereference must hit a word overlapped by one of the ranges of the call.
template <class W> struct Arena { std::vector<W> w; std::vector<std::pair<int64_t, int64_t>> ok; };      // allowed word intervals
template <class W> struct It {
    using value_type = W; using difference_type = std::ptrdiff_t; using pointer = W*; using reference = W&; using iterator_category = std::random_access_iterator_tag;
    Arena<W>* a = nullptr; int64_t i = 0;
    void chk(int64_t k) const { for (auto& p : a->ok) if (k >= p.first && k < p.second) return; PBT_FAIL("word " << k << " was dereferenced, which no range of the call overlaps"); }
    W& operator*() const { chk(i); return a->w[i]; } W* operator->() const { chk(i); return &a->w[i]; } W& operator[](difference_type n) const { chk(i + n); return a->w[i + n]; }
    It& operator++() { ++i; return *this; } It& operator--() { --i; return *this; } It operator++(int) { It t = *this; ++i; return t; } It operator--(int) { It t = *this; --i; return t; }
    It& operator+=(difference_type n) { i += n; return *this; } It& operator-=(difference_type n) { i -= n; return *this; }
    friend It operator+(It x, difference_type n) { x.i += n; return x; } friend It operator+(difference_type n, It x) { x.i += n; return x; } friend It operator-(It x, difference_type n) { x.i -= n; return x; }
    friend difference_type operator-(const It& x, const It& y) { return x.i - y.i; }
    friend bool operator==(const It& x, const It& y) { return x.i == y.i; } friend bool operator!=(const It& x, const It& y) { return x.i != y.i; } friend bool operator<(const It& x, const It& y) { return x.i < y.i; }
    friend bool operator>(const It& x, const It& y) { return x.i > y.i; } friend bool operator<=(const It& x, const It& y) { return x.i <= y.i; } friend bool operator>=(const It& x, const It& y) { return x.i >= y.i; }
};
template <class W> void checked_w(Source& s, Ctx& c, int alg) {
    constexpr size_t D = DIG<W>; bool sm = s.small_scope;
    size_t len = sm ? s.draw(2 * D + 2) : gen_len(s, D, 3, 100); int nr = ranges_of(alg);
    // disjoint ranges, in word blocks separated by two words that nobody may touch
    Arena<W> ar; size_t pos[3] = {0, 0, 0}; size_t total = 2; std::vector<uint8_t> m;
    for (int i = 0; i < nr; ++i) {
        size_t off = sm && i == 2 ? 3 : gen_off(s, D), words = (off + len + D - 1) / D;
        pos[i] = total * D + off;
        if (len || off % D) ar.ok.emplace_back(total, total + std::max<size_t>(words, 1));     // an empty range inside a word may look at that word
        total += std::max<size_t>(words, 1) + 2;
    }
    auto ws = sm ? std::vector<W>(total) : gen_words<W>(s, total);
    if (sm) { Expand e(len * 7 + pos[1]); for (auto& x : ws) x = (W)e.next(); }
    ar.w = ws; m.resize(total * D); for (size_t i = 0; i < m.size(); ++i) m[i] = (ws[i / D] >> (i % D)) & 1;
    int64_t par = sm ? (alg == A_ROTATE || alg == A_SHL || alg == A_SHR ? (int64_t)s.draw(len + 1) : (int64_t)s.draw(2)) : gen_par(s, alg, D, len);
    if (sm ? par == 0 : s.flag()) if (alg == A_EQUAL || alg == A_FIND) for (size_t i = 0; i < len; ++i) {     // let the scan run to the end
        size_t t = alg == A_EQUAL ? pos[1] + i : pos[0] + i; uint8_t v = alg == A_EQUAL ? m[pos[0] + i] : !(par & 1); m[t] = v; ar.w[t / D] = (W)((ar.w[t / D] & ~((W)1 << (t % D))) | ((W)v << (t % D))); }
    s.ready();
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " len=" << len << " at bits " << pos[0] << "," << pos[1] << "," << pos[2] << " par=" << par << " through an instrumented word iterator"; });
    c.nontrivial(len == 0 || (pos[0] + len) % D == 0 || crosses(D, pos[0], len)); c.label(alg_name(alg)); c.label("empty", len == 0);
    using BI = bit::bit_iterator<It<W>>;
    auto at = [&](size_t p) { return BI(It<W>{&ar, (int64_t)(p / D)}, p % D); };
    auto r = call_alg(alg, at(pos[0]), at(pos[1]), at(pos[2]), len, par);
    auto e = model_alg(alg, m.data() + pos[0], m.data() + pos[1], m.data() + pos[2], len, par);
    PBT_CHECK(r == e, alg_name(alg) << " returned " << r << ", expected " << e);
    for (size_t i = 0; i < m.size(); ++i) { if (e.dc_hi > e.dc_lo && i >= pos[0] + e.dc_lo && i < pos[0] + e.dc_hi) continue; int v = (ar.w[i / D] >> (i % D)) & 1; PBT_CHECK(v == m[i], "bit " << i << " is " << v << ", expected " << (int)m[i]); }
}
void checked(Source& s, Ctx& c) { int alg = (int)s.draw(N_ALG); with_word(s, [&](auto w) { checked_w<decltype(w)>(s, c, alg); }); }
void checked_all(Source& s, Ctx& c) { int alg = (int)s.draw(N_ALG); checked_w<uint8_t>(s, c, alg); }
#endif
}
std::vector<Test> pbt::tests() {
    return { {"exact_raw", exact_raw, false, 300000, 8000000}, {"exact_vec", exact_vec, false, 150000, 4000000},
#ifndef BITLIB_HWY
             {"checked", checked, false, 200000, 6000000}, {"checked_all", checked_all, true, 1, 1},
#endif
    };
}
