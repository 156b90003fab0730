// C39: the word-level operations the library is built on compute their bit-by-bit definitions, with and without compiler intrinsics.
#include "bits.hpp"
using namespace pbt;
namespace {
template <class W> using Bv = std::vector<uint8_t>;
template <class W> Bv<W> bits_of(W w) { Bv<W> v(DIG<W>); for (size_t i = 0; i < v.size(); ++i) v[i] = (uint8_t)((w >> i) & 1); return v; }
template <class W> W word_of(const Bv<W>& v) { W w = 0; for (size_t i = 0; i < v.size(); ++i) if (v[i]) w = (W)(w | (W)((W)1 << i)); return w; }
template <class W> std::string hex(W w) { std::string s; for (size_t i = DIG<W>; i > 0; i -= 4) s += "0123456789abcdef"[(unsigned)(w >> (i - 4)) & 15]; return s; }
// words with few or many bits, runs, single bits, all zeros or ones
template <class W> W gen_word(Source& s) {
    constexpr size_t D = DIG<W>;
    if (s.small_scope) return (W)s.draw(256);
    switch (s.draw(8)) {
    case 0: return 0;
    case 1: return (W)~(W)0;
    case 2: return (W)((W)1 << s.draw(D));
    case 3: return (W)~(W)((W)1 << s.draw(D));
    case 4: { size_t a = s.draw(D), n = s.draw(D); return (W)((W)((W)((W)1 << n) - 1) << a); }
    case 5: { Expand e(s.draw(1 << 16)); W x = rnd_word<W>(e); return (W)(x & rnd_word<W>(e) & rnd_word<W>(e)); }
    case 6: return (W)s.draw(256);
    default: { Expand e(s.draw(1 << 16)); return rnd_word<W>(e); }
    }
}
#define EQ(call, want) do { const auto got_ = (call); const W want_ = (W)(want); PBT_CHECK((W)got_ == want_, #call " is " << hex<W>((W)got_) << ", expected " << hex<W>(want_)); } while (0)
template <class W> void run(Source& s, Ctx& c) {
    using namespace bit; constexpr size_t D = DIG<W>; const auto ig = std::ignore;
    const uint64_t op = s.draw(11); const W a = gen_word<W>(s);
    static const char* on[] = {"counts", "bextr", "pdep/pext", "byteswap", "bitswap", "bitblend", "bitexch", "shld/shrd", "addcarry", "subborrow", "mulx"};
    c.label(on[op]); c.nontrivial(a != 0 && a != (W)~(W)0);
    const Bv<W> A = bits_of(a);
    auto say = [&](auto f) { c.describe([&](auto& o) { o << on[op] << " " << wname<W>() << " a=" << hex(a); f(o); }); };
    switch (op) {
    case 0: {
        say([](auto&) {}); size_t pop = 0, lz = D, tz = D; for (size_t i = 0; i < D; ++i) { pop += A[i]; if (A[i]) { lz = D - 1 - i; if (tz == D) tz = i; } }
        EQ(_popcnt(a), pop); EQ(_popcnt(a, ig), pop); EQ(_lzcnt(a), lz); EQ(_lzcnt(a, ig), lz); EQ(_tzcnt(a), tz); EQ(_tzcnt(a, ig), tz); break; }
    case 1: {
        const W st = (W)s.draw(D), len = (W)s.draw(D + 1); say([&](auto& o) { o << " start=" << (uint64_t)st << " len=" << (uint64_t)len; });
        Bv<W> R(D); for (size_t i = 0; i < (size_t)len && i + (size_t)st < D; ++i) R[i] = A[i + (size_t)st];
        EQ(_bextr<W>(a, st, len), word_of<W>(R)); EQ(_bextr<W>(a, st, len, ig), word_of<W>(R));
        {   // a field of another word: equal, or equal but for one bit, or anything
            const W s1 = (W)s.draw(D); const size_t fit = D - std::max((size_t)st, (size_t)s1), l = s.draw(fit + 1); const Bv<W> G = bits_of(gen_word<W>(s)); Bv<W> B(G); const uint64_t how = s.draw(3);
            if (how) for (size_t i = 0; i < l; ++i) B[(size_t)s1 + i] = A[(size_t)st + i];
            if (how == 2 && l) B[(size_t)s1 + s.draw(l)] ^= 1;
            bool eq = true; for (size_t i = 0; i < l; ++i) eq = eq && A[(size_t)st + i] == B[(size_t)s1 + i];
            const W b = word_of<W>(B); c.describe([&](auto& o) { o << "; compared with b=" << hex(b) << " at " << (uint64_t)s1 << ", " << l << " bits"; });
            PBT_CHECK((_bitcmp<W>(a, b, st, s1, (W)l) == 0) == eq, "_bitcmp is " << hex((W)_bitcmp<W>(a, b, st, s1, (W)l)) << " for fields that are " << (eq ? "equal" : "different"));
        }
        break; }
    case 2: {
        const W m = gen_word<W>(s); const Bv<W> M = bits_of(m); say([&](auto& o) { o << " mask=" << hex(m); }); Bv<W> P(D), X(D); size_t k = 0;
        for (size_t i = 0; i < D; ++i) if (M[i]) { P[i] = A[k]; X[k] = A[i]; ++k; }
        EQ(_pdep(a, m), word_of<W>(P)); EQ(_pdep(a, m, ig), word_of<W>(P)); EQ(_pext(a, m), word_of<W>(X)); EQ(_pext(a, m, ig), word_of<W>(X));
        EQ(_pdep(_pext(a, m), m), a & m); break; }
    case 3: {
        say([](auto&) {}); Bv<W> R(D); for (size_t i = 0; i < D; ++i) R[D - 8 - i / 8 * 8 + i % 8] = A[i];
        EQ(_byteswap(a), word_of<W>(R)); EQ(_byteswap(a, ig), word_of<W>(R)); EQ(_byteswap(_byteswap(a)), a); break; }
    case 4: {
        say([](auto&) {}); Bv<W> R(A.rbegin(), A.rend()); EQ(_bitswap(a), word_of<W>(R)); EQ(_bitswap(_bitswap(a)), a); break; }
    case 5: {
        const W b = gen_word<W>(s), m = gen_word<W>(s), st = (W)s.draw(D), len = (W)s.draw(D - (size_t)st + 1); say([&](auto& o) { o << " b=" << hex(b) << " mask=" << hex(m) << " start=" << (uint64_t)st << " len=" << (uint64_t)len; });
        const Bv<W> B = bits_of(b), M = bits_of(m); Bv<W> R(A), F(A); for (size_t i = 0; i < D; ++i) { if (M[i]) R[i] = B[i]; if (i >= (size_t)st && i < (size_t)(st + len)) F[i] = B[i]; }
        EQ(_bitblend<W>(a, b, m), word_of<W>(R)); EQ(_bitblend<W>(a, b, st, len), word_of<W>(F)); break; }
    case 6: {
        const W b = gen_word<W>(s), m = gen_word<W>(s); const size_t st = s.draw(D), len = s.draw(D - st + 1), s1 = s.draw(D - len + 1 - (len == 0)); const Bv<W> B = bits_of(b), M = bits_of(m);
        say([&](auto& o) { o << " b=" << hex(b) << " mask=" << hex(m) << " start=" << st << "/" << s1 << " len=" << len; });
        auto want = [&](auto f) { Bv<W> X(A), Y(B); f(X, Y); return std::make_pair(word_of<W>(X), word_of<W>(Y)); };
        { W x = a, y = b; _bitexch<W>(x, y, m); auto w = want([&](auto& X, auto& Y) { for (size_t i = 0; i < D; ++i) if (M[i]) std::swap(X[i], Y[i]); });
          PBT_CHECK(x == w.first && y == w.second, "_bitexch(mask) gives " << hex(x) << "," << hex(y) << ", expected " << hex(w.first) << "," << hex(w.second)); }
        { W x = a, y = b; _bitexch<W, std::size_t>(x, y, st, len); auto w = want([&](auto& X, auto& Y) { for (size_t i = st; i < st + len; ++i) std::swap(X[i], Y[i]); });
          PBT_CHECK(x == w.first && y == w.second, "_bitexch(start,len) gives " << hex(x) << "," << hex(y) << ", expected " << hex(w.first) << "," << hex(w.second)); }
        { W x = a, y = b; _bitexch<W, std::size_t>(x, y, st, s1, len); auto w = want([&](auto& X, auto& Y) { for (size_t i = 0; i < len; ++i) std::swap(X[st + i], Y[s1 + i]); });
          PBT_CHECK(x == w.first && y == w.second, "_bitexch(start0,start1,len) gives " << hex(x) << "," << hex(y) << ", expected " << hex(w.first) << "," << hex(w.second)); }
        break; }
    case 7: {
        const W b = gen_word<W>(s); const size_t n = s.draw(2 * D); const Bv<W> B = bits_of(b); say([&](auto& o) { o << " b=" << hex(b) << " count=" << n; }); Bv<W> L(D), R(D);
        for (size_t i = 0; i < D; ++i) { L[i] = i >= n ? A[i - n] : i + D >= n ? B[i + D - n] : 0; R[i] = i + n < D ? A[i + n] : i + n < 2 * D ? B[i + n - D] : 0; }      // a:b shifted left, high half; b:a shifted right, low half
        EQ(_shld<W>(a, b, (W)n), word_of<W>(L)); EQ(_shrd<W>(a, b, (W)n), word_of<W>(R)); break; }
    case 8: case 9: {
        const W b = gen_word<W>(s); const unsigned char cin = (unsigned char)s.flag(); const Bv<W> B = bits_of(b); say([&](auto& o) { o << " b=" << hex(b) << " carry=" << (int)cin; }); Bv<W> R(D); int k = cin;
        for (size_t i = 0; i < D; ++i) { int t = op == 8 ? A[i] + B[i] + k : A[i] - B[i] - k; R[i] = (uint8_t)(t & 1); k = op == 8 ? t >> 1 : t < 0; }
        const W want = word_of<W>(R);
        auto chk = [&](W d, unsigned char cout, const char* w) { PBT_CHECK(d == want && (cout != 0) == (k != 0), on[op] << w << " gives " << hex(d) << " carry " << (int)cout << ", expected " << hex(want) << " carry " << k); };
        { W d = 0; unsigned char o = op == 8 ? _addcarry(cin, a, b, &d, ig) : _subborrow(cin, a, b, &d, ig); chk(d, o, " without intrinsics"); }
        if (op == 8) { W d = 0; unsigned char o = _addcarry(cin, a, b, &d); chk(d, o, ""); } else { W d = 0; unsigned char o = _subborrow(cin, a, b, &d); chk(d, o, ""); }
        break; }
    default: {
        const W b = gen_word<W>(s); const Bv<W> B = bits_of(b); say([&](auto& o) { o << " b=" << hex(b); });
        std::vector<unsigned> sum(2 * D); for (size_t i = 0; i < D; ++i) if (A[i]) for (size_t j = 0; j < D; ++j) sum[i + j] += B[j];
        Bv<W> L(D), Hh(D); unsigned k = 0; for (size_t i = 0; i < 2 * D; ++i) { k += sum[i]; (i < D ? L[i] : Hh[i - D]) = (uint8_t)(k & 1); k >>= 1; }
        auto chk = [&](W lo, W hi, const char* w) { PBT_CHECK(lo == word_of<W>(L) && hi == word_of<W>(Hh), "mulx" << w << " gives " << hex(hi) << ":" << hex(lo) << ", expected " << hex(word_of<W>(Hh)) << ":" << hex(word_of<W>(L))); };
        { W hi = 0, lo = _mulx(a, b, &hi); chk(lo, hi, ""); } { W hi = 0, lo = _mulx(a, b, &hi, ig); chk(lo, hi, " without intrinsics"); } }
    }
}
void word(Source& s, Ctx& c) { with_word(s, [&](auto w) { run<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"word", word, false, 400000, 8000000} }; }
