// C36: ranges in different kinds of storage interoperate.
#include "algos.hpp"
#include "vec_model.hpp"
#include <array>
#include <deque>
using namespace pbt;
namespace {
template <class T> struct OtherAlloc {
    using value_type = T; OtherAlloc() = default; template <class U> OtherAlloc(const OtherAlloc<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { ::operator delete(p); }
    friend bool operator==(const OtherAlloc&, const OtherAlloc&) { return true; } friend bool operator!=(const OtherAlloc&, const OtherAlloc&) { return false; }
};
const char* KN[] = {"raw array", "std::vector", "bit_vector with another allocator"};
// The three storages of one side; f receives an accessor position -> bit iterator and the words.
template <class W, class F> void with_store(int kind, const std::vector<W>& w, F f) {
    constexpr size_t D = DIG<W>;
    if (kind == 0) { Raw<W> r; r.alloc(w.size(), (w.size() * 8) % 64); for (size_t i = 0; i < w.size(); ++i) r.p[i] = w[i]; f([&](size_t b) { return bit::bit_iterator<W*>(r.p + b / D, b % D); }, r.p); r.check_guard(); }
    else if (kind == 1) { std::vector<W> v(w); f([&](size_t b) { return bit::bit_iterator<typename std::vector<W>::iterator>(v.begin() + (std::ptrdiff_t)(b / D), b % D); }, v.data()); }
    else { bit::bit_vector<W, OtherAlloc<W>> v(w.size() * D); for (size_t i = 0; i < w.size(); ++i) v.data()[i] = w[i]; f([&](size_t b) { return v.begin() + (std::ptrdiff_t)b; }, v.data()); }
}
template <class W> Bits bits_of(const std::vector<W>& w) { Bits m(w.size() * DIG<W>); for (size_t i = 0; i < m.size(); ++i) m[i] = (w[i / DIG<W>] >> (i % DIG<W>)) & 1; return m; }
template <class W> void same(const char* what, const W* d, const Bits& m) { for (size_t i = 0; i < m.size(); ++i) PBT_CHECK((int)((d[i / DIG<W>] >> (i % DIG<W>)) & 1) == m[i], what << ": bit " << i << " (word " << i / DIG<W> << ") is " << (int)((d[i / DIG<W>] >> (i % DIG<W>)) & 1) << ", expected " << (int)m[i]); }
const int ALGS[] = {A_COPY, A_MOVE, A_COPYB, A_EQUAL, A_SWAP};
template <class W> void mixed_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; int alg = ALGS[s.draw(5)]; int ka = (int)s.draw(3), kb = (int)s.draw(2); if (kb >= ka) ++kb;
    Place pa = gen_place(s, D, 3, 200), pb = gen_place_len(s, D, pa.len); auto wa = gen_words<W>(s, pa.words), wb = gen_words<W>(s, pb.words);
    if (alg == A_EQUAL && s.draw(3)) {
        for (size_t i = 0; i < pa.len; ++i) { size_t q = pb.first + i, p = pa.first + i; W b = (wa[p / D] >> (p % D)) & 1; wb[q / D] = (W)((wb[q / D] & (W)~(W)((W)1 << (q % D))) | (W)(b << (q % D))); }
        if (pa.len && s.draw(3) == 0) { size_t q = pb.first + s.draw(pa.len); wb[q / D] = (W)(wb[q / D] ^ (W)((W)1 << (q % D))); }
    }
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " between " << KN[ka] << " " << rng(D, pa.first, pa.last()) << " and " << KN[kb] << " " << rng(D, pb.first, pb.last()); if (pa.words + pb.words < 24) { o << " words" << std::hex; for (auto x : wa) o << " " << (uint64_t)x; o << " |"; for (auto x : wb) o << " " << (uint64_t)x; o << std::dec; } });
    c.label(alg_name(alg)); c.label(KN[ka]); c.nontrivial(crosses(D, pa.first, pa.len) || shares(D, pb.first, pb.len));
    Bits ma = bits_of(wa), mb = bits_of(wb); AlgRes e = model_alg(alg, ma.data() + pa.first, mb.data() + pb.first, nullptr, pa.len, 0);
    with_store<W>(ka, wa, [&](auto at, const W* da) { with_store<W>(kb, wb, [&](auto bt, const W* db) {
        using BA = decltype(at(0)); using BB = decltype(bt(0));
        if constexpr (!std::is_same<BA, BB>::value) {
            BA a = at(pa.first), ae = at(pa.last()); BB b = bt(pb.first), be = bt(pb.last()); AlgRes r;
            switch (alg) { case A_COPY: r.pos = bit::copy(a, ae, b) - b; break; case A_MOVE: r.pos = bit::move(a, ae, b) - b; break; case A_COPYB: r.pos = bit::copy_backward(a, ae, be) - b; break; case A_EQUAL: r.val = bit::equal(a, ae, b); break; default: r.pos = bit::swap_ranges(a, ae, b) - b; }
            PBT_CHECK(r == e, alg_name(alg) << " returned " << r << ", expected " << e);
            same("first storage", da, ma); same("second storage", db, mb);
        }
    }); });
}
// Construction of a vector from a range in any storage, and equality of what every view of one storage shows.
template <class W> void views_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; Place p = gen_place(s, D, 3, 200); auto w = gen_words<W>(s, p.words); int k = (int)s.draw(3); Bits m = bits_of(w); Model sub(m.begin() + p.first, m.begin() + p.last());
    size_t i = s.draw(p.len + 1), j = s.draw(p.len + 1);
    c.describe([&](auto& o) { o << wname<W>() << " views of " << KN[k] << " " << rng(D, p.first, p.last()) << " at " << i << "," << j; }); c.label(KN[k]); c.nontrivial(crosses(D, p.first, p.len));
    with_store<W>(k, w, [&](auto at, W* d) {
        auto f = at(p.first), l = at(p.last());
        bit::bit_vector<W> v(f, l); check_vec(v, sub, "vector from the range"); bit::bit_vector<W, OtherAlloc<W>> u(f, l); check_vec(u, sub, "vector with another allocator from the range");
        PBT_CHECK(bit::equal(f, l, v.begin()) && bit::equal(v.begin(), v.end(), f) && bit::equal(f, l, u.begin()), "range and vector made from it differ");
        // the same bits through raw pointers
        bit::bit_iterator<W*> rf(d + p.first / D, p.first % D), rl(d + p.last() / D, p.last() % D);
        PBT_CHECK(bit::equal(f, l, rf) && bit::count(f, l, bit::bit1) == bit::count(rf, rl, bit::bit1) && bit::find(f, l, bit::bit0) - f == bit::find(rf, rl, bit::bit0) - rf, "two views of one storage disagree");
        PBT_CHECK((f + (std::ptrdiff_t)i) - (f + (std::ptrdiff_t)j) == (rf + (std::ptrdiff_t)i) - (rf + (std::ptrdiff_t)j) && ((f + (std::ptrdiff_t)i) < (f + (std::ptrdiff_t)j)) == (i < j) && ((rf + (std::ptrdiff_t)i) < (rf + (std::ptrdiff_t)j)) == (i < j), "positions of two views of one storage disagree");
        if (i < p.len) {
            auto x = f + (std::ptrdiff_t)i; auto y = rf + (std::ptrdiff_t)i; PBT_CHECK(&*x == &*y, "bit pointers through two views of one storage differ"); PBT_CHECK((*x).address() == (*y).address() && (*x).position() == (*y).position(), "references through two views of one storage differ");
            (*x).flip(); m[p.first + i] ^= 1; PBT_CHECK((bool)*y == (bool)m[p.first + i], "a write through one view is not seen through the other"); same("storage", d, m);
        }
    });
}
// Both ranges in the same words, each seen through its own kind of view.
template <class W> void same_words_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; int alg = ALGS[s.draw(5)]; bool vec = s.flag(), raw_first = s.flag(); size_t words = 1 + s.draw(s.draw(4) == 0 ? 200 : 8), total = words * D; auto w = gen_words<W>(s, words);
    size_t len = s.draw(5) == 0 ? (s.draw(words) + 1) * D : s.draw(total + 1); if (alg == A_SWAP) len = std::min(len, total / 2);
    auto place = [&](size_t room) { size_t o = s.draw(room + 1); return s.draw(3) == 0 ? o / D * D : o; };
    size_t lo = place(total - len), hi = lo + s.draw(total - len - lo + 1); if (s.draw(3) == 0) hi = lo + (hi - lo) / D * D;        // lo <= hi
    if (alg == A_SWAP) { lo = place(total - 2 * len); hi = lo + len + s.draw(total - 2 * len - lo + 1); }
    bool up = alg == A_COPYB || (alg != A_COPY && alg != A_MOVE && s.flag()); size_t from = up ? lo : hi, to = up ? hi : lo;
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " within " << (vec ? "a std::vector" : "a bit_vector") << " of " << words << " words: " << rng(D, from, from + len) << (raw_first ? " through pointers" : "") << " with " << rng(D, to, to + len) << (raw_first ? "" : " through pointers"); });
    c.label(alg_name(alg)); c.label("overlapping", hi - lo < len); c.nontrivial(len && hi - lo < len + D);
    Bits m = bits_of(w); AlgRes e = model_alg(alg, m.data() + from, m.data() + to, nullptr, len, 0);
    auto go = [&](auto own, W* d) {
        auto ptr = [&](size_t b) { return bit::bit_iterator<W*>(d + b / D, b % D); };
        auto run = [&](auto at, auto bt) {
            auto a = at(from), ae = at(from + len); auto b = bt(to), be = bt(to + len); AlgRes r;
            switch (alg) { case A_COPY: r.pos = bit::copy(a, ae, b) - b; break; case A_MOVE: r.pos = bit::move(a, ae, b) - b; break; case A_COPYB: r.pos = bit::copy_backward(a, ae, be) - b; break; case A_EQUAL: r.val = bit::equal(a, ae, b); break; default: r.pos = bit::swap_ranges(a, ae, b) - b; }
            PBT_CHECK(r == e, alg_name(alg) << " returned " << r << ", expected " << e); same("storage", d, m);
        };
        if (raw_first) run(ptr, own); else run(own, ptr);
    };
    if (vec) { std::vector<W> v(w); go([&](size_t b) { return bit::bit_iterator<typename std::vector<W>::iterator>(v.begin() + (std::ptrdiff_t)(b / D), b % D); }, v.data()); }
    else { bit::bit_vector<W> v(total); for (size_t i = 0; i < words; ++i) v.data()[i] = w[i]; go([&](size_t b) { return v.begin() + (std::ptrdiff_t)b; }, v.data()); }
}
void same_words(Source& s, Ctx& c) { with_word(s, [&](auto w) { same_words_w<decltype(w)>(s, c); }); }
void mixed(Source& s, Ctx& c) { with_word(s, [&](auto w) { mixed_w<decltype(w)>(s, c); }); }
void views(Source& s, Ctx& c) { with_word(s, [&](auto w) { views_w<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"mixed", mixed, false, 120000, 3000000}, {"views", views, false, 60000, 1500000}, {"same words", same_words, false, 120000, 3000000} }; }
