// C26: capacity laws.
#include "vec_model.hpp"
using namespace pbt;
namespace {
void capacity(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>; constexpr size_t maxn = 300 * DIG<W>;
        Model m; V v; size_t peak = 0;
        switch (s.draw(5)) {
        case 0: break;
        case 1: m = gen_bits(s, std::min(gen_size(s, D), maxn)); v = make_vec<V>(m); break;
        case 2: { m = gen_bits(s, std::min(gen_size(s, D), maxn)); std::string t; for (auto b : m) t += (char)('0' + b); v = V{std::string_view(t)}; break; }
        case 3: { m = gen_bits(s, std::min(gen_size(s, D), maxn)); std::vector<bool> b(m.begin(), m.end()); v = V(b.begin(), b.end()); break; }
        default: { m = gen_bits(s, std::min(gen_size(s, D), maxn)); V t = make_vec<V>(m); v = V(t.begin(), t.end()); }
        }
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); });
        size_t steps = 2 + s.draw(10); bool within = false;
        auto bound = [&](const char* what) {
            peak = std::max(peak, m.size());
            PBT_CHECK(v.capacity() >= v.size(), what << ": capacity " << v.capacity() << " below size " << v.size());
            PBT_CHECK(v.capacity() <= 2 * peak + 2 * D, what << ": capacity " << v.capacity() << " bits, but the vector never needed more than " << peak);
        };
        bound("initially");
        size_t guaranteed = v.capacity();       // no relocation while the size stays within it
        for (size_t i = 0; i < steps; ++i) {
            OpRec r = gen_op(s, D, m.size(), maxn);
            if (r.op == COPYASSIGN || r.op == MOVEASSIGN || r.op == SELFCOPY) r = OpRec{SHRINK};
            c.describe([&](auto& o) { o << "; " << r; }); c.label(op_name(r.op));
            size_t need = m.size();
            switch (r.op) { case PUSH: need += r.a; break; case INS1: need += 1; break; case INSN: case INSR: need += r.b; break; case RESIZE: case RESIZEV: need = std::max(need, r.a); break; case RESERVE: need = std::max(need, r.a); peak = std::max(peak, r.a); break; default: break; }
            const W* before = m.empty() ? nullptr : v.data(); size_t cap = v.capacity();
            apply_op(v, m, r); check_vec(v, m, op_name(r.op)); bound(op_name(r.op));
            if (r.op != SHRINK) {
                PBT_CHECK(v.capacity() >= cap, op_name(r.op) << " reduced the capacity from " << cap << " to " << v.capacity());
                if (need <= guaranteed) { within = within || grows(r, 0); if (before && !m.empty()) PBT_CHECK(v.data() == before, op_name(r.op) << " relocated the storage within the capacity " << guaranteed); PBT_CHECK(v.capacity() == cap, op_name(r.op) << " within the capacity changed it from " << cap << " to " << v.capacity()); }
            }
            guaranteed = v.capacity();
        }
        c.nontrivial(within);
    });
}
void reserve_then_grow(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        Model m = gen_bits(s, gen_size(s, D, false)); V v = make_vec<V>(m); size_t r = m.size() + gen_size(s, D);
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m) << " reserve(" << r << ")"; }); c.nontrivial(r > m.size());
        v.reserve(r); check_vec(v, m, "after reserve"); PBT_CHECK(v.capacity() >= r, "capacity " << v.capacity() << " after reserve(" << r << ")");
        size_t cap = v.capacity(); const W* p = nullptr; size_t grown = 0;
        while (m.size() < r) {
            size_t left = r - m.size(); OpRec o;
            switch (s.draw(5)) {
            case 0: o.op = PUSH; o.a = 1 + s.draw(std::min<size_t>(left, 2 * D)); o.v = s.draw(2); break;
            case 1: o.op = INSN; o.a = s.draw(m.size() + 1); o.b = 1 + s.draw(left); o.v = s.draw(2); break;
            case 2: o.op = RESIZEV; o.a = m.size() + 1 + s.draw(left); o.v = s.draw(2); break;
            case 3: { o.op = INSR; o.a = s.draw(m.size() + 1); o.b = 1 + s.draw(left); o.bits = gen_bits(s, o.b); break; }
            default: o.op = RESIZE; o.a = m.size() + 1 + s.draw(left);
            }
            c.describe([&](auto& q) { q << "; " << o; });
            apply_op(v, m, o);
            if (!p) p = m.empty() ? nullptr : v.data();
            if (grown++ < 60 || m.size() == r) check_vec(v, m, "after growing");
            PBT_CHECK(v.data() == p && v.capacity() == cap, "growth within the reserved " << r << " bits (to " << m.size() << ") relocated the storage");
        }
    });
}
void pushes(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        size_t n = 1 + s.draw(600 * D); V v; Model m; Expand e(s.draw(1 << 16)); const W* p = nullptr; size_t moves = 0;
        bool ins = s.draw(4) == 0; if (ins) n = std::min<size_t>(n, 20 * D);
        c.describe([&](auto& o) { o << wname<W>() << " " << n << (ins ? " insert at the end" : " push_back"); }); c.nontrivial(n > 2 * D);
        for (size_t i = 0; i < n; ++i) { uint8_t b = e.next() & 1; if (ins) v.insert(v.end(), b ? bit::bit1 : bit::bit0); else v.push_back(b ? bit::bit1 : bit::bit0); m.push_back(b); if (v.data() != p) { ++moves; p = v.data(); } }
        check_vec(v, m, "after the pushes");
        size_t words = (n + D - 1) / D, lg = 0; while (((size_t)1 << lg) < words) ++lg;
        PBT_CHECK(moves <= 2 * lg + 4, moves << " relocations for " << n << " single-bit appends (" << words << " words)");
        v.shrink_to_fit(); check_vec(v, m, "after shrink_to_fit"); PBT_CHECK(v.capacity() <= n + 2 * D, "capacity " << v.capacity() << " after shrink_to_fit of " << n << " bits");
    });
}
// Removed elements give their storage back: to shrink_to_fit, and to copies.
void trim(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        Model m = gen_bits(s, D * (2 + s.draw(40)) + s.draw(D)); V v = make_vec<V>(m); const size_t start = m.size(), steps = 1 + s.draw(4);
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); });
        for (size_t i = 0; i < steps && !m.empty(); ++i) {
            const uint64_t how = s.draw(5); size_t k = 1 + s.draw(m.size());
            switch (how) {
            case 0: for (size_t j = 0; j < k; ++j) { v.pop_back(); m.pop_back(); } break;
            case 1: { size_t at = s.draw(m.size() - k + 1); v.erase(v.begin() + (std::ptrdiff_t)at, v.begin() + (std::ptrdiff_t)(at + k)); m.erase(m.begin() + (std::ptrdiff_t)at, m.begin() + (std::ptrdiff_t)(at + k)); break; }
            case 2: v.resize(m.size() - k); m.resize(m.size() - k); break;
            case 3: k = std::min<size_t>(k, 3 * D); for (size_t j = 0; j < k; ++j) { v.erase(v.begin()); } m.erase(m.begin(), m.begin() + (std::ptrdiff_t)k); break;
            default: for (size_t j = 0; j < k; ++j) { v.pop_back(); v.push_back(bit::bit1); v.pop_back(); m.pop_back(); }
            }
            static const char* hn[] = {"pop_back", "erase range", "resize", "erase first", "pop_back push_back pop_back"}; c.describe([&](auto& o) { o << "; " << hn[how] << " x" << k; }); c.label(hn[how]);
        }
        c.nontrivial(m.size() + 2 * D < start); check_vec(v, m, "after removing");
        const V copy(v); check_vec(copy, m, "copy"); PBT_CHECK(copy.capacity() <= m.size() + 2 * D, "a copy of " << m.size() << " bits has a capacity of " << copy.capacity());
        v.shrink_to_fit(); check_vec(v, m, "after shrink_to_fit"); PBT_CHECK(v.capacity() <= m.size() + 2 * D, "capacity " << v.capacity() << " after shrink_to_fit of " << m.size() << " bits, down from " << start);
    });
}
}
std::vector<Test> pbt::tests() {
    return { {"capacity", capacity, false, 50000, 1500000}, {"reserve_then_grow", reserve_then_grow, false, 25000, 600000}, {"pushes", pushes, false, 1500, 30000}, {"trim", trim, false, 20000, 400000} };
}
