// C06: equal <=> all corresponding bits agree.
#include "bits.hpp"
using namespace pbt;
namespace {
void run(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D);
        Place a = gen_place_len(s, D, len), b = gen_place_len(s, D, len);
        auto ca = gen_words<W>(s, a.words);
        std::vector<W> cb;
        if (s.small_scope) { cb.resize(b.words); for (size_t i = 0; i < b.words; ++i) cb[i] = (W)(i * 0x9d + 0x35); }   // differing surroundings
        else cb = gen_words<W>(s, b.words);
        size_t al1 = gen_align(s), al2 = gen_align(s);
        auto get = [&](std::vector<W>& v, size_t k) { return (v[k / D] >> (k % D)) & 1; };
        auto put = [&](std::vector<W>& v, size_t k, unsigned x) { v[k / D] = (W)((v[k / D] & (W) ~(W)((W)1 << (k % D))) | (W)((W)x << (k % D))); };
        uint64_t kind = s.small_scope ? 1 + s.draw(2) : s.draw(8);
        if (kind) for (size_t i = 0; i < len; ++i) put(cb, b.first + i, get(ca, a.first + i));
        size_t dpos = 0; bool diff = false;
        if ((kind == 2 || kind >= 5) && len) {   // exactly one differing bit
            dpos = s.small_scope ? s.draw(len) : s.draw(3) == 0 ? len - 1 - s.draw(std::min(len, D)) : s.draw(2) ? s.draw(len) : s.draw(std::min(len, D));
            put(cb, b.first + dpos, 1 ^ get(cb, b.first + dpos)); diff = true;
        }
        s.ready();
        Buf<W> x, y; x.init(ca, al1); y.init(cb, al2);
        c.describe([&](auto& o) { o << wname<W>() << " equal " << rng(D, a.first, a.last()) << " of " << x.show() << " with bit " << b.first << " of " << y.show(); });
        bool e = true; for (size_t i = 0; i < len; ++i) e = e && x.m[a.first + i] == y.m[b.first + i];
        c.nontrivial(len > 0 && kind != 0);
        c.label(kind == 0 ? "independent contents" : diff ? "one differing bit" : "equal inside"); label_range(c, D, a.first, len);
        c.label(a.first % D == b.first % D ? "same alignment" : "different alignment");
        bool r = bit::equal(x.at(a.first), x.at(a.last()), y.at(b.first));
        PBT_CHECK(r == e, "equal returned " << r << ", expected " << e);
        bool r2 = bit::equal(y.at(b.first), y.at(b.last()), x.at(a.first));
        PBT_CHECK(r2 == e, "equal with swapped arguments returned " << r2 << ", expected " << e);
        x.compare("first storage"); y.compare("second storage");
    });
}
// Two ranges of one storage, overlapping or not, periodic contents so that they can be equal.
void same(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        size_t len = gen_len(s, D), delta = s.small_scope ? s.draw(2 * D) : s.draw(3) ? s.draw(2 * D) : s.draw(len + D);
        Place u = gen_place_len(s, D, len + delta);
        auto cw = gen_words<W>(s, u.words); size_t al = gen_align(s);
        if (delta && s.draw(2)) {   // make contents delta-periodic within the union
            auto get = [&](size_t k) { return (cw[k / D] >> (k % D)) & 1; };
            auto put = [&](size_t k, unsigned x) { cw[k / D] = (W)((cw[k / D] & (W) ~(W)((W)1 << (k % D))) | (W)((W)x << (k % D))); };
            for (size_t i = u.first + delta; i < u.last(); ++i) put(i, get(i - delta));
            if (s.draw(2) && len) { size_t k = u.first + s.draw(len + delta); put(k, 1 ^ get(k)); }
        }
        s.ready();
        Buf<W> x; x.init(cw, al);
        c.describe([&](auto& o) { o << wname<W>() << " equal " << rng(D, u.first, u.first + len) << " with bit " << u.first + delta << " of the same " << x.show(); });
        bool e = true; for (size_t i = 0; i < len; ++i) e = e && x.m[u.first + i] == x.m[u.first + delta + i];
        c.nontrivial(len > 0 && delta > 0); c.label(e ? "equal" : "unequal");
        bool r = bit::equal(x.at(u.first), x.at(u.first + len), x.at(u.first + delta));
        PBT_CHECK(r == e, "equal returned " << r << ", expected " << e);
        bool r2 = bit::equal(x.at(u.first + delta), x.at(u.first + delta + len), x.at(u.first));
        PBT_CHECK(r2 == e, "equal with swapped arguments returned " << r2 << ", expected " << e);
        x.compare("storage");
    });
}
}
std::vector<Test> pbt::tests() { return {{"two_storages", run, false, 300000, 5000000}, {"one_storage", same, false, 150000, 2000000}, {"two_storages_all", run, true, 1, 1}, {"one_storage_all", same, true, 1, 1}}; }
