// C24: all element access paths agree; at() is bounds-checked; LSB-first layout.
#include "vec_model.hpp"
using namespace pbt;
namespace {
void access(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        Model m = gen_bits(s, gen_size(s, D)); V v = make_vec<V>(m);
        size_t extra = s.draw(4);                            // capacity beyond the size, stale bits in the last word
        for (size_t i = 0; i < extra; ++i) v.push_back(bit::bit1);
        for (size_t i = 0; i < extra; ++i) v.pop_back();
        const V& k = v; size_t n = m.size();
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); }); c.nontrivial(n > D);
        auto all = [&](const char* when) {
            check_vec(v, m, when);
            PBT_CHECK(k.size() == n && k.empty() == !n && k.capacity() >= n, "size of the const vector");
            if (n) PBT_CHECK(k.data() == v.data(), "data() of the const vector differs");
            auto it = v.begin(); auto ki = k.begin(); auto ci = v.cbegin();
            for (size_t i = 0; i < n; ++i, ++it, ++ki, ++ci) {
                bool e = m[i];
                PBT_CHECK((bool)v[i] == e, when << ": v[" << i << "] is not " << e);
                PBT_CHECK((bool)k[i] == e, when << ": const v[" << i << "] is not " << e);
                PBT_CHECK((bool)v.at(i) == e && (bool)k.at(i) == e, when << ": at(" << i << ") is not " << e);
                PBT_CHECK((bool)*it == e && (bool)*ki == e && (bool)*ci == e, when << ": iterator at " << i << " does not yield " << e);
                PBT_CHECK((bool)((k.data()[i / D] >> (i % D)) & 1) == e, when << ": word block bit " << i << " is not " << e);
            }
            PBT_CHECK(it == v.end() && ki == k.end() && ci == v.cend() && ci == k.cend(), when << ": iteration does not end at end()");
            if (n) { PBT_CHECK((bool)v.front() == (bool)m[0] && (bool)k.front() == (bool)m[0], when << ": front()"); PBT_CHECK((bool)v.back() == (bool)m[n - 1] && (bool)k.back() == (bool)m[n - 1], when << ": back()"); }
        };
        if (n <= 400) all("initially");
        size_t past[] = {n, n + 1, n + s.draw(3 * D), (n + D - 1) / D * D, (size_t)-1, ((size_t)1 << 32) + (n ? s.draw(n) : 0), (size_t)1 << 63};
        for (size_t p : past) {
            if (p < n) continue;
            for (int q = 0; q < 2; ++q) {
                bool thrown = false;
                try { if (q) (void)(bool)k.at(p); else (void)(bool)v.at(p); } catch (const std::out_of_range&) { thrown = true; }
                PBT_CHECK(thrown, (q ? "const at(" : "at(") << p << ") of a vector of " << n << " elements did not throw out_of_range");
            }
        }
        if (!n) return;
        for (int t = 0; t < 3; ++t) {
            size_t i = s.draw(n); bool b = s.flag(); uint64_t how = s.draw(8);
            c.describe([&](auto& o) { o << "; write " << b << " at " << i << " by path " << how; });
            bit::bit_value bv = b ? bit::bit1 : bit::bit0;
            switch (how) {
            case 0: v[i] = bv; break;
            case 1: v.at(i) = bv; break;
            case 2: i = 0; v.front() = bv; break;
            case 3: i = n - 1; v.back() = bv; break;
            case 4: *(v.begin() + i) = bv; break;
            case 5: (v.begin() + i)->set(b); break;
            case 6: (*(v.end() - (n - i))).set(b); break;
            default: { W* d = v.data(); if (b) d[i / D] = (W)(d[i / D] | (W)((W)1 << (i % D))); else d[i / D] = (W)(d[i / D] & (W)~(W)((W)1 << (i % D))); }
            }
            m[i] = b;
            if (n <= 400) all("after the write"); else check_vec(v, m, "after the write");
        }
    });
}
}
std::vector<Test> pbt::tests() { return { {"access", access, false, 60000, 1500000} }; }
