// C30: one program of bit algorithms on a shared buffer, run on every word type and iterator kind.
#include "algos.hpp"
using namespace pbt;
namespace {
struct Step { int alg; size_t a, b, d, len; int64_t par; uint8_t fillv; bool chain; };
std::ostream& operator<<(std::ostream& o, const Step& s) { return o << alg_name(s.alg) << "([" << s.a << "," << s.a + s.len << ")," << s.b << "," << s.d << "," << s.par << (s.chain ? ",from find" : "") << ")"; }
#ifdef PBT_WORDS_WIDE
constexpr size_t PER = 2;            // 64-bit units per widest word
#else
constexpr size_t PER = 1;
#endif
size_t gen_pos(Source& s, size_t hi) {                 // biased to boundaries of every word type
    static const size_t G[] = {8, 16, 32, 64, 128};
    switch (s.draw(4)) {
    case 0: { size_t g = G[s.draw(5)]; return std::min(hi, s.draw(hi / g + 1) * g); }
    case 1: { size_t g = G[s.draw(5)]; int64_t p = (int64_t)(s.draw(hi / g + 1) * g) + s.irange(-2, 2); return p < 0 ? 0 : std::min(hi, (size_t)p); }
    default: return s.draw(hi + 1);
    }
}
bool apart(size_t x, size_t y, size_t len) { return x + len <= y || y + len <= x; }
Step gen_step(Source& s, size_t n) {
    Step t{}; t.alg = (int)s.draw(N_ALG); t.chain = false; t.fillv = (uint8_t)s.draw(2);
    for (int tries = 0;; ++tries) {
        size_t lim = tries < 6 ? n : n / 3;
        t.a = gen_pos(s, n); size_t e = gen_pos(s, n); if (e < t.a) std::swap(e, t.a); t.len = std::min(e - t.a, lim);
        int nr = ranges_of(t.alg); t.b = t.d = 0;
        if (nr > 1) t.b = std::min(gen_pos(s, n), n - t.len);
        if (nr > 2) t.d = std::min(gen_pos(s, n), n - t.len);
        bool ok = true;
        switch (t.alg) {
        case A_COPY: case A_MOVE: ok = t.b <= t.a || t.b >= t.a + t.len; break;
        case A_COPYB: ok = t.b >= t.a || t.b + t.len <= t.a; break;
        case A_SWAP: ok = apart(t.a, t.b, t.len); break;
        case A_TRANS1: ok = t.b == t.a || apart(t.a, t.b, t.len); break;
        case A_TRANS2: ok = (t.d == t.a || apart(t.a, t.d, t.len)) && (t.d == t.b || apart(t.b, t.d, t.len)); break;
        default: break;
        }
        if (ok) break;
        if (tries > 8) { t.b = t.a; if (t.alg == A_SWAP) t.len = 0; if (t.alg == A_TRANS2) t.d = t.a; break; }
    }
    t.par = gen_par(s, t.alg, 32, t.len);
    t.chain = s.draw(6) == 5;
    return t;
}
// The step with its first position taken from a search, as programs do; evaluated on whichever representation.
template <class At> void real_step(const Step& t, At at, AlgRes& r, size_t& a) {
    a = t.a; size_t len = t.len;
    if (t.chain) { auto f = bit::find(at(t.a), at(t.a + t.len), t.fillv ? bit::bit1 : bit::bit0); a = t.a + (size_t)(f - at(t.a)); len -= a - t.a; }
    int64_t par = t.par; if ((t.alg == A_ROTATE) && par > (int64_t)len) par = len;
    r = call_alg(t.alg, at(a), at(t.b + (a - t.a) * (ranges_of(t.alg) > 1)), at(t.d + (a - t.a) * (ranges_of(t.alg) > 2)), len, par);
    if (t.alg == A_SHL && par > 0) bit::fill(at(a + std::max<int64_t>(0, (int64_t)len - par)), at(a + len), t.fillv ? bit::bit1 : bit::bit0);
    if (t.alg == A_SHR && par > 0) bit::fill(at(a), at(a + std::min<int64_t>(len, par)), t.fillv ? bit::bit1 : bit::bit0);
}
void model_step(const Step& t, uint8_t* m, AlgRes& r, size_t& a) {
    a = t.a; size_t len = t.len;
    if (t.chain) { a = std::find(m + t.a, m + t.a + t.len, t.fillv) - m; len -= a - t.a; }
    int64_t par = t.par; if ((t.alg == A_ROTATE) && par > (int64_t)len) par = len;
    r = model_alg(t.alg, m + a, m + t.b + (a - t.a) * (ranges_of(t.alg) > 1), m + t.d + (a - t.a) * (ranges_of(t.alg) > 2), len, par);
    if (t.alg == A_SHL && par > 0) std::fill(m + a + std::max<int64_t>(0, (int64_t)len - par), m + a + len, t.fillv);
    if (t.alg == A_SHR && par > 0) std::fill(m + a, m + a + std::min<int64_t>(len, par), t.fillv);
}
template <class W, class Data, class At>
void check_bits(const char* kind, Data d, At, const Bits& m, const Step& t, size_t k) {
    for (size_t i = 0; i < m.size(); ++i) PBT_CHECK((int)((d[i / DIG<W>] >> (i % DIG<W>)) & 1) == m[i], wname<W>() << " " << kind << ": after step " << k + 1 << " " << t << ", bit " << i << " is " << (int)((d[i / DIG<W>] >> (i % DIG<W>)) & 1) << ", expected " << (int)m[i]);
}
template <class W> struct Reps {                        // the buffer in the three representations
    Raw<W> raw; std::vector<W> vec; bit::bit_vector<W> bv; size_t nbits; std::vector<Bits> hist;
    Reps(const std::vector<uint64_t>& w, size_t align) {
        size_t k = w.size() * 64 / DIG<W>; nbits = w.size() * 64; raw.alloc(k, align); vec.resize(k); bv = bit::bit_vector<W>(nbits);
        for (size_t i = 0; i < k; ++i) { W x = (W)(w[i * DIG<W> / 64] >> (i * DIG<W> % 64)); if constexpr (DIG<W> > 64) x = (W)(x | (W)w[2 * i + 1] << 32 << 32); raw.data()[i] = x; vec[i] = x; bv.data()[i] = x; }
    }
    void step(const Step& t, const AlgRes& e, size_t ea, const Bits& m, size_t k) {
        AlgRes r; size_t a;
        auto judge = [&](const char* kind) { PBT_CHECK(a == ea, wname<W>() << " " << kind << ": step " << k + 1 << " find returned position " << a << ", expected " << ea); PBT_CHECK(r == e, wname<W>() << " " << kind << ": step " << k + 1 << " " << t << " returned " << r << ", expected " << e); };
        auto A = [&](size_t p) { return bit::bit_iterator<W*>(raw.p + p / DIG<W>, p % DIG<W>); }; real_step(t, A, r, a); judge("raw pointers"); check_bits<W>("raw pointers", raw.p, 0, m, t, k); raw.check_guard();
        auto B = [&](size_t p) { return bit::bit_iterator<typename std::vector<W>::iterator>(vec.begin() + (std::ptrdiff_t)(p / DIG<W>), p % DIG<W>); }; real_step(t, B, r, a); judge("vector iterators"); check_bits<W>("vector iterators", vec.data(), 0, m, t, k);
        auto C = [&](size_t p) { return bv.begin() + (std::ptrdiff_t)p; }; real_step(t, C, r, a); judge("bit_vector"); check_bits<W>("bit_vector", bv.data(), 0, m, t, k);
    }
};
void program(Source& s, Ctx& c, size_t words, size_t nsteps) {
    auto w = gen_words<uint64_t>(s, words); Bits m(words * 64); for (size_t i = 0; i < m.size(); ++i) m[i] = (w[i / 64] >> (i % 64)) & 1;
    size_t al = gen_align(s);
#ifdef PBT_WORDS_WIDE
    Reps<unsigned __int128> r8(w, al); Reps<unsigned long long> r16(w, al); Reps<char32_t> r32(w, al); Reps<char16_t> r64(w, al);
#else
    Reps<uint8_t> r8(w, al); Reps<uint16_t> r16(w, al); Reps<uint32_t> r32(w, al); Reps<uint64_t> r64(w, al);
#endif
    c.describe([&](auto& o) { o << words * 64 << " bits [" << std::hex; for (auto x : w) o << " " << x; o << std::dec << "]"; });
    bool nt = false;
    for (size_t k = 0; k < nsteps; ++k) {
        Step t = gen_step(s, m.size()); c.describe([&](auto& o) { o << "; " << t; }); c.label(alg_name(t.alg)); if (t.len > 1 && k) nt = true;
        AlgRes e; size_t ea; model_step(t, m.data(), e, ea);
        r8.step(t, e, ea, m, k); r16.step(t, e, ea, m, k); r32.step(t, e, ea, m, k); r64.step(t, e, ea, m, k);
    }
    c.nontrivial(nt);
}
void small(Source& s, Ctx& c) { size_t w = PER * (1 + s.draw(3)), k = 1 + s.draw(8); program(s, c, w, k); }
void large(Source& s, Ctx& c) { size_t w = PER * (4 / PER + s.draw(60 / PER)), k = 1 + s.draw(12); program(s, c, w, k); }
}
std::vector<Test> pbt::tests() { return { {"small", small, false, 100000, 3000000}, {"large", large, false, 16000, 500000} }; }
