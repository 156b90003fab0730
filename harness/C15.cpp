// C15: builds with the SIMD option, at every vector width this CPU can run, give the element-wise results.
#include "algos.hpp"
using namespace pbt;
namespace {
// The words of the range are chosen around multiples of the lanes of one vector width, after a head
// that the algorithm has to step over to reach an aligned address.
struct Sz { size_t first, len, words, align; };
template <class W> Sz gen_sz(Source& s) {
    constexpr size_t D = DIG<W>; static const size_t B[] = {16, 32, 64};
    Sz z; size_t L = B[s.draw(3)] / sizeof(W);
    z.align = s.draw(64 / sizeof(W)) * sizeof(W);
    int64_t w = (int64_t)(s.draw(6) * L);
    switch (s.draw(4)) {
    case 0: w += s.irange(-2, 2); break;
    case 1: w += (int64_t)s.draw(14); break;                                    // slack the shift loops leave
    case 2: w += (int64_t)(64 - z.align) / (int64_t)sizeof(W) + s.irange(-2, 12); break;   // exactly up to the aligned address
    default: w += (int64_t)s.draw(64 / sizeof(W) + 1);
    }
    if (w < 0) w = 0;
    size_t off = gen_off(s, D), pre = s.draw(3), post = s.draw(3);
    int64_t len = w * (int64_t)D - (s.flag() ? (int64_t)off : 0) + (s.draw(3) == 0 ? 0 : (int64_t)s.draw(D));
    z.len = len < 0 ? 0 : (size_t)len; z.first = pre * D + off;
    z.words = pre + std::max<size_t>((off + z.len + D - 1) / D, off ? 1 : 0) + post;
    return z;
}
template <class W> void one(Source& s, Ctx& c, int alg) {
    constexpr size_t D = DIG<W>; Buf<W> x[3]; int nr = ranges_of(alg); size_t f[3] = {0, 0, 0};
    Sz z = gen_sz<W>(s); size_t len = z.len; f[0] = z.first; int64_t par = gen_par(s, alg, D, len);
    auto ws = gen_words<W>(s, z.words);
    if (alg == A_FIND && s.draw(4)) {       // nothing to find but for one place, anywhere in the storage
        for (auto& w : ws) w = (par & 1) ? 0 : (W)~(W)0;
        if (z.words && s.draw(4)) { size_t b = s.draw(z.words * D); ws[b / D] = (W)(ws[b / D] ^ ((W)1 << (b % D))); if (s.draw(3) == 2) { size_t b2 = s.draw(z.words * D); ws[b2 / D] = (W)(ws[b2 / D] ^ ((W)1 << (b2 % D))); } }
    }
    x[0].init(ws, z.align);
    for (int i = 1; i < nr; ++i) {
        size_t off = s.flag() ? f[0] % D : gen_off(s, D), pre = s.draw(2);
        f[i] = pre * D + off; x[i].init(gen_words<W>(s, pre + std::max<size_t>((off + len + D - 1) / D, off ? 1 : 0) + s.draw(2)), s.draw(64 / sizeof(W)) * sizeof(W));
    }
    if (alg == A_EQUAL && len && s.draw(4)) {
        for (size_t i = 0; i < len; ++i) { size_t t = f[1] + i; uint8_t v = x[0].m[f[0] + i]; x[1].m[t] = v; W& w = x[1].st.data()[t / D]; w = (W)((w & ~((W)1 << (t % D))) | ((W)v << (t % D))); }
        if (s.flag()) { size_t t = f[1] + s.draw(len); x[1].m[t] ^= 1; x[1].st.data()[t / D] ^= (W)((W)1 << (t % D)); }
    }
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " " << rng(D, f[0], f[0] + len) << " others at " << f[1] << "," << f[2] << " par=" << par << " storage of " << x[0].n << " words " << z.align << " bytes past a 64-byte boundary " << x[0].show(); });
    size_t full = len / D; c.nontrivial(full * sizeof(W) >= 16);
    c.label(alg_name(alg)); c.label("a 16-byte vector fits", full * sizeof(W) >= 16); c.label("a 32-byte vector fits", full * sizeof(W) >= 32); c.label("a 64-byte vector fits", full * sizeof(W) >= 64); c.label("storage not 64-byte aligned", z.align != 0);
    Bits before = x[0].m;
    auto r = call_alg(alg, x[0].at(f[0]), x[nr > 1 ? 1 : 0].at(f[nr > 1 ? 1 : 0]), x[nr > 2 ? 2 : 0].at(f[nr > 2 ? 2 : 0]), len, par);
    auto e = model_alg(alg, x[0].m.data() + f[0], x[1].m.data() + f[1], x[2].m.data() + f[2], len, par);
    PBT_CHECK(r == e, alg_name(alg) << " returned " << r << ", expected " << e);
    if (alg == A_COUNT || alg == A_FIND) {
        bit::bit_value v = par & 1 ? bit::bit1 : bit::bit0; auto cf = x[0].cat(f[0]), cl = x[0].cat(f[0] + len);
        AlgRes k; if (alg == A_COUNT) k.val = bit::count(cf, cl, v); else k.pos = bit::find(cf, cl, v) - cf;
        PBT_CHECK(k == e, alg_name(alg) << " over const words returned " << k << ", expected " << e);
    }
    x[0].compare("first range", f[0] + e.dc_lo, f[0] + e.dc_hi); x[1].compare("second range"); x[2].compare("third range");
}
void vectors(Source& s, Ctx& c) {
    static const int V[] = {A_FILL, A_FIND, A_SHL, A_SHR, A_TRANS1, A_COUNT, A_ROTATE}; int alg = V[s.draw(7)];
    with_word(s, [&](auto w) { one<decltype(w)>(s, c, alg); });
}
void every(Source& s, Ctx& c) { int alg = (int)s.draw(N_ALG); with_word(s, [&](auto w) { one<decltype(w)>(s, c, alg); }); }
}
std::vector<Test> pbt::tests() { return { {"vectors", vectors, false, 120000, 6000000}, {"every", every, false, 60000, 2000000} }; }
