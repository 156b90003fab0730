// C04: count == number of equal bits; counts of 0 and 1 add up; storage untouched.
#include "bits.hpp"
using namespace pbt;
namespace {
void check(Source& s, Ctx& c, bool big) {
    with_word(s, [&](auto w) {
        using W = decltype(w); constexpr size_t D = DIG<W>;
        Place a;
        if (big) {     // block sizes in bytes: 32 (AVX2), 512 (16 vectors), 64/1024 (AVX-512), up to ~40 KiB
            size_t bytes;
            switch (s.draw(4)) { case 0: bytes = 512 * s.range(1, 8); break; case 1: bytes = 32 * s.range(1, 130); break; case 2: bytes = s.range(1, 4500); break; default: bytes = 1024 * s.range(1, 40); }
            int64_t len = (int64_t)bytes * 8 + s.irange(-70, 70);
            if (len < 0) len = 0;
            a = gen_place_len(s, D, (size_t)len);
        } else a = gen_place(s, D, 5, 1500);
        auto cw = gen_words<W>(s, a.words); size_t al = gen_align(s);
        s.ready();
        Buf<W> b; b.init(cw, al);
        c.describe([&](auto& o) { o << wname<W>() << " count " << rng(D, a.first, a.last()) << " in " << b.show() << " (byte offset " << al << ")"; });
        int64_t ones = 0;
        for (size_t i = a.first; i < a.last(); ++i) ones += b.m[i];
        c.nontrivial(a.len && ones && ones != (int64_t)a.len);
        label_range(c, D, a.first, a.len);
        size_t mid_bytes = (a.last() / D - (a.first + D - 1) / D) * sizeof(W);
        if (a.last() / D >= (a.first + D - 1) / D) c.label(mid_bytes >= 1024 ? "whole-word block >= 1024 bytes" : mid_bytes >= 512 ? "whole-word block 512-1023 bytes" : "whole-word block < 512 bytes");
        auto r1 = bit::count(b.at(a.first), b.at(a.last()), bit::bit1);
        auto r0 = bit::count(b.at(a.first), b.at(a.last()), bit::bit0);
        PBT_CHECK((int64_t)r1 == ones, "count of ones is " << r1 << ", expected " << ones);
        PBT_CHECK((int64_t)r0 == (int64_t)a.len - ones, "count of zeros is " << r0 << ", expected " << (int64_t)a.len - ones);
        if (!big) {
            auto k1 = bit::count(b.cat(a.first), b.cat(a.last()), bit::bit1); auto k0 = bit::count(b.cat(a.first), b.cat(a.last()), bit::bit0);
            PBT_CHECK((int64_t)k1 == ones && (int64_t)k0 == (int64_t)a.len - ones, "counts over const words are " << k1 << " ones and " << k0 << " zeros, expected " << ones << " ones of " << a.len);
        }
        b.compare("storage");
    });
}
void small(Source& s, Ctx& c) { check(s, c, false); }
void big(Source& s, Ctx& c) { check(s, c, true); }
}
std::vector<Test> pbt::tests() { return {{"count", small, false, 300000, 5000000}, {"count_big", big, false, 40000, 600000}, {"count_all", small, true, 1, 1}}; }
