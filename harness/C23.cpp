// C23: copies are independent, moves transfer the value, swap exchanges.
#include "vec_model.hpp"
using namespace pbt;
namespace {
void values(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>; constexpr size_t maxn = 60 * DIG<W>;
        constexpr int K = 3;
        V v[K]; Model m[K];
        for (int i = 0; i < K; ++i) { m[i] = gen_bits(s, std::min(gen_size(s, D), maxn)); v[i] = make_vec<V>(m[i]); c.describe([&](auto& o) { o << (i ? ", " : "") << wname<W>() << " v" << i << "=" << show_model(m[i]); }); }
        bool known[K] = {true, true, true};       // false: moved from, value unspecified
        size_t steps = 2 + s.draw(9); int shared = 0;
        for (size_t t = 0; t < steps; ++t) {
            int i = (int)s.draw(K), j = (int)s.draw(K); uint64_t op = s.draw(10);
            static const char* nm[] = {"copy assign", "move assign", "copy construct", "move construct", "std::swap", "modify", "modify", "self assign", "copy construct and modify the copy", "copy, destroy"};
            c.describe([&](auto& o) { o << "; " << nm[op] << " v" << i << " <- v" << j; }); c.label(nm[op]);
            switch (op) {
            case 0: v[i] = v[j]; m[i] = m[j]; known[i] = known[j]; shared += i != j; break;
            case 1: if (i == j) break; v[i] = std::move(v[j]); m[i] = m[j]; known[i] = known[j]; known[j] = false; ++shared; break;
            case 2: { V t2(v[j]); if (known[j]) check_vec(t2, m[j], "copy"); v[i] = t2; m[i] = m[j]; known[i] = known[j]; ++shared; break; }
            case 3: { if (i == j) break; V t2(std::move(v[j])); Model mm = m[j]; bool kk = known[j]; known[j] = false; if (kk) check_vec(t2, mm, "move-constructed"); v[i] = std::move(t2); m[i] = mm; known[i] = kk; ++shared; break; }
            case 4: if (i == j) break; std::swap(v[i], v[j]); std::swap(m[i], m[j]); std::swap(known[i], known[j]); ++shared; break;
            case 5: case 6: { if (!known[i]) { switch (s.draw(3)) {      // reuse a moved-from vector
                        case 0: v[i].clear(); m[i].clear(); break;
                        case 1: v[i] = V(5, bit::bit1); m[i].assign(5, 1); break;
                        default: v[i].clear(); v[i].resize(9, bit::bit1); m[i].assign(9, 1); }
                        known[i] = true; c.label("moved-from reused"); }
                    OpRec r = gen_op(s, D, m[i].size(), maxn); c.describe([&](auto& o) { o << " " << r; }); apply_op(v[i], m[i], r); break; }
            case 7: { V& a = v[i]; v[i] = a; break; }
            case 8: { V t2(v[j]); Model mm = m[j]; if (!known[j]) break; OpRec r = gen_op(s, D, mm.size(), maxn); c.describe([&](auto& o) { o << " " << r; }); apply_op(t2, mm, r); check_vec(t2, mm, "modified copy"); ++shared; break; }
            default: { V* p = new V(v[j]); if (known[j]) check_vec(*p, m[j], "copy"); delete p; }
            }
            for (int k = 0; k < K; ++k) {
                if (known[k]) { std::string what = "v" + std::to_string(k) + " after " + nm[op]; check_vec(v[k], m[k], what.c_str()); }
                else {   // valid but unspecified: its own observers must agree and stay inside the storage
                    PBT_CHECK(v[k].capacity() >= v[k].size(), "moved-from vector: capacity " << v[k].capacity() << " below size " << v[k].size());
                    size_t ones = 0; for (auto it = v[k].begin(); it != v[k].end(); ++it) ones += (bool)*it;
                    PBT_CHECK(ones <= v[k].size() && v[k].empty() == (v[k].size() == 0), "moved-from vector is inconsistent");
                }
            }
        }
        c.nontrivial(shared > 0);
    });
}
// A move takes constant work: the storage itself changes hands.
void move_transfers(Source& s, Ctx& c) {
    with_word(s, [&](auto w) {
        using W = decltype(w); using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>;
        Model m = gen_bits(s, 1 + gen_size(s, D)); V a = make_vec<V>(m); W* p = a.data();
        bool assign = s.flag(); V b = make_vec<V>(gen_bits(s, gen_size(s, D, false)));
        c.describe([&](auto& o) { o << wname<W>() << (assign ? " move assignment of " : " move construction of ") << show_model(m); }); c.nontrivial();
        if (assign) { b = std::move(a); check_vec(b, m, "target"); PBT_CHECK(b.data() == p, "move assignment copied the storage"); }
        else { V d(std::move(a)); check_vec(d, m, "target"); PBT_CHECK(d.data() == p, "move construction copied the storage"); }
        size_t ones = 0; for (auto it = a.begin(); it != a.end(); ++it) ones += (bool)*it;
        a.clear(); Model e; a.resize(7, bit::bit1); e.assign(7, 1); check_vec(a, e, "reused source");
    });
}
}
std::vector<Test> pbt::tests() {
    return { {"values", values, false, 80000, 2500000}, {"move_transfers", move_transfers, false, 30000, 600000} };
}
