// bit_vector<W> driven by generated operation histories, against a sequence of booleans.
#pragma once
#include "bits.hpp"
#include <string>

namespace pbt {

using Model = std::vector<uint8_t>;           // one 0/1 per element

inline std::string show_model(const Model& m) {
    std::string s = "\"";
    for (size_t i = 0; i < m.size() && i < 400; ++i) s += (char)('0' + m[i]);
    if (m.size() > 400) s += "...";
    return s + "\"(" + std::to_string(m.size()) + ")";
}

// Whole content and size; words are compared where possible, bits otherwise.
template <class V>
void check_vec(V& v, const Model& m, const char* what) {
    using W = typename V::base_type;
    constexpr size_t D = DIG<W>;
    PBT_CHECK(v.size() == m.size(), what << ": size " << v.size() << ", expected " << m.size());
    PBT_CHECK(v.empty() == m.empty(), what << ": empty() disagrees with size " << m.size());
    PBT_CHECK(v.capacity() >= v.size(), what << ": capacity " << v.capacity() << " below size " << v.size());
    PBT_CHECK(bit::distance(v.begin(), v.end()) == (std::ptrdiff_t)m.size(), what << ": end()-begin() is not the size " << m.size());
    if (m.empty()) return;
    const W* d = v.data();
    for (size_t i = 0; i < m.size(); ++i)
        PBT_CHECK(((d[i / D] >> (i % D)) & 1) == m[i], what << ": element " << i << " of " << m.size() << " is " << (int)((d[i / D] >> (i % D)) & 1) << ", expected " << (int)m[i]);
    if (m.size() <= 700) {
        size_t i = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++i) PBT_CHECK((bool)*it == (bool)m[i], what << ": iterating yields " << (bool)*it << " at " << i << ", expected " << (int)m[i]);
    }
}

inline Model gen_bits(Source& s, size_t n) {
    Model m(n);
    switch (s.draw(5)) {
    case 0: { Expand e(s.draw(1 << 16)); for (auto& x : m) x = e.next() & 1; break; }
    case 1: for (auto& x : m) x = 1; break;
    case 2: break;
    case 3: { Expand e(s.draw(1 << 16)); uint8_t b = e.next() & 1; for (size_t i = 0; i < n;) { size_t k = 1 + e.next() % 20; for (; k && i < n; --k) m[i++] = b; b = !b; } break; }
    default: { Expand e(s.draw(1 << 16)); for (auto& x : m) x = (e.next() % 9) == 0; }
    }
    return m;
}
inline Model gen_bits_small(Source& s, size_t n) {     // every content
    Model m(n); for (auto& x : m) x = (uint8_t)s.draw(2); return m;
}
// Sizes biased to word boundaries; `big` also reaches the vectorised shift paths.
inline size_t gen_size(Source& s, size_t D, bool big = true) {
    switch (s.draw(8)) {
    case 0: return s.draw(4);
    case 1: return s.draw(D + 2);
    case 2: case 3: { int64_t v = (int64_t)(s.range(1, 4) * D) + s.irange(-2, 2); return v < 0 ? 0 : (size_t)v; }
    case 4: return s.draw(4 * D);
    case 5: return s.draw(200);
    case 6: return s.draw(12 * D);
    default: if (!big) return s.draw(8 * D);
        if (s.draw(40) == 39) { size_t k = s.range(10, 18); return s.range((size_t)1 << (k - 1), (size_t)1 << k); }     // rarely, up to 2^18 bits
        return s.draw(160 * D);
    }
}
template <class V> V make_vec(const Model& m) {
    V v;
    for (auto b : m) v.push_back(bit::bit_value((bool)b));
    return v;
}

// Calls f with an initializer list of the first n (at most 300) elements of p; n is rounded down to an available size.
template <class T, class F, size_t... I> void ilist_of(const T* p, F& f, std::index_sequence<I...>) { f(std::initializer_list<T>{p[I]...}); }
template <class T, class F> void with_ilist(const T* p, size_t n, F f) {
#define PBT_IL(K) if (n >= K) { ilist_of(p, f, std::make_index_sequence<K>()); return; }
    PBT_IL(300) PBT_IL(129) PBT_IL(65) PBT_IL(64) PBT_IL(33) PBT_IL(32) PBT_IL(19) PBT_IL(17) PBT_IL(16) PBT_IL(13) PBT_IL(10) PBT_IL(9) PBT_IL(8) PBT_IL(7) PBT_IL(5) PBT_IL(4) PBT_IL(3) PBT_IL(2) PBT_IL(1)
#undef PBT_IL
    f(std::initializer_list<T>{});
}
// ------------------------------------------------------------------ histories
enum Op { PUSH, POP, INS1, INSN, INSR, ERASE1, ERASER, RESIZE, RESIZEV, CLEAR, RESERVE, SHRINK, COPYASSIGN, MOVEASSIGN, WRITE, WRITEWORD, ALGO, SELFCOPY, NOPS };
inline const char* op_name(int o) {
    static const char* n[] = {"push_back", "pop_back", "insert(1)", "insert(n)", "insert(range)", "erase(1)", "erase(range)", "resize", "resize(value)", "clear", "reserve", "shrink_to_fit",
                              "copy-assign", "move-assign", "write", "write word", "algorithm", "self copy"};
    return n[o];
}
struct OpRec { int op; size_t a = 0, b = 0; uint64_t v = 0; Model bits; size_t c = 0; };
inline std::ostream& operator<<(std::ostream& o, const OpRec& r) {
    o << op_name(r.op) << "(" << r.a << "," << r.b << "," << r.v;
    if (!r.bits.empty()) o << "," << show_model(r.bits) << "@" << r.c;
    return o << ")";
}
inline OpRec gen_op(Source& s, size_t D, size_t n, size_t maxn) {
    static const int W[] = {6, 4, 5, 6, 6, 4, 5, 5, 5, 1, 2, 2, 1, 1, 4, 1, 2, 1};
    OpRec r; uint64_t t = 0; for (int w : W) t += w;
    uint64_t x = s.draw(t); int op = 0; while (x >= (uint64_t)W[op]) x -= W[op], ++op;
    if (n == 0 && (op == POP || op == ERASE1 || op == WRITE || op == WRITEWORD)) op = PUSH;
    r.op = op;
    auto pos = [&](size_t hi) -> size_t {                // biased to ends and word boundaries, 0..hi
        switch (s.draw(5)) {
        case 0: return hi;
        case 1: return 0;
        case 2: { size_t k = s.draw(hi / D + 1) * D; return std::min(hi, k); }
        default: return s.draw(hi + 1);
        }
    };
    auto room = [&](size_t want) { return n + want > maxn ? (maxn > n ? maxn - n : 0) : want; };
    switch (op) {
    case PUSH: r.v = s.draw(2); r.a = 1 + (s.draw(4) == 3 ? s.draw(2 * D) : 0); r.a = std::max<size_t>(1, room(r.a)); break;
    case POP: r.a = 1 + (s.draw(4) == 3 ? s.draw(2 * D) : 0); r.a = std::min(r.a, n); break;
    case INS1: r.a = pos(n); r.v = s.draw(2); break;
    case INSN: r.a = pos(n); r.b = room(gen_size(s, D, s.draw(4) == 3)); r.v = s.draw(2); break;
    case INSR: { r.a = pos(n); size_t k = room(gen_size(s, D, s.draw(4) == 3)); r.c = s.draw(2 * D); size_t tail = s.draw(D); r.bits = gen_bits(s, r.c + k + tail); r.b = k; break; }
    case ERASE1: r.a = std::min(pos(n), n - 1); break;
    case ERASER: { r.a = pos(n); r.b = r.a + (s.flag() ? pos(n - r.a) : s.draw(std::min<size_t>(n - r.a, 2 * D) + 1)); break; }
    case RESIZE: case RESIZEV: r.v = s.draw(2); r.a = s.flag() ? std::min(gen_size(s, D), maxn) : std::min<size_t>(maxn, s.draw(n + 2 * D)); break;
    case RESERVE: r.a = gen_size(s, D) * (1 + s.draw(2)); break;
    case COPYASSIGN: case MOVEASSIGN: r.bits = gen_bits(s, std::min(gen_size(s, D), maxn)); break;
    case WRITE: r.a = std::min(pos(n), n - 1); r.b = s.draw(8); r.v = s.draw(2); break;
    case WRITEWORD: r.a = s.draw((n + D - 1) / D); r.v = Expand(s.draw(1 << 16)).next(); break;
    case ALGO: r.a = pos(n); r.b = r.a + pos(n - r.a); r.c = r.a + pos(r.b - r.a); r.v = s.draw(5); break;
    default: break;
    }
    return r;
}
inline bool grows(const OpRec& r, size_t n) {
    switch (r.op) { case PUSH: case INS1: return true; case INSN: case INSR: return r.b > 0; case RESIZE: case RESIZEV: return r.a > n; default: return false; }
}
// Performs r on the vector and the model, checking returned iterators.
template <class V>
void apply_op(V& v, Model& m, const OpRec& r) {
    using W = typename V::base_type;
    constexpr size_t D = DIG<W>;
    auto val = [&](uint64_t x) { return x ? bit::bit1 : bit::bit0; };
    auto at = [&](typename V::iterator it) { return (int64_t)bit::distance(v.begin(), it); };
    switch (r.op) {
    case PUSH: for (size_t i = 0; i < r.a; ++i) { uint8_t b = (r.v + i * (r.a > 3)) & 1; v.push_back(val(b)); m.push_back(b); } break;
    case POP: for (size_t i = 0; i < r.a; ++i) { v.pop_back(); m.pop_back(); } break;
    case INS1: { auto it = v.insert(v.begin() + r.a, val(r.v)); m.insert(m.begin() + r.a, (uint8_t)r.v); PBT_CHECK(at(it) == (int64_t)r.a, "insert returned position " << at(it) << ", expected " << r.a); break; }
    case INSN: { auto it = v.insert(v.begin() + r.a, r.b, val(r.v)); m.insert(m.begin() + r.a, r.b, (uint8_t)r.v); PBT_CHECK(at(it) == (int64_t)r.a, "insert returned position " << at(it) << ", expected " << r.a); break; }
    case INSR: { V o = make_vec<V>(r.bits); auto it = v.insert(v.begin() + r.a, o.begin() + r.c, o.begin() + r.c + r.b);
                 m.insert(m.begin() + r.a, r.bits.begin() + r.c, r.bits.begin() + r.c + r.b); PBT_CHECK(at(it) == (int64_t)r.a, "insert returned position " << at(it) << ", expected " << r.a);
                 check_vec(o, r.bits, "inserted range"); break; }
    case ERASE1: { auto it = v.erase(v.begin() + r.a); m.erase(m.begin() + r.a); PBT_CHECK(at(it) == (int64_t)r.a, "erase returned position " << at(it) << ", expected " << r.a); break; }
    case ERASER: { auto it = v.erase(v.begin() + r.a, v.begin() + r.b); m.erase(m.begin() + r.a, m.begin() + r.b); PBT_CHECK(at(it) == (int64_t)r.a, "erase returned position " << at(it) << ", expected " << r.a); break; }
    case RESIZE: v.resize(r.a); m.resize(r.a, 0); break;
    case RESIZEV: v.resize(r.a, val(r.v)); m.resize(r.a, (uint8_t)r.v); break;
    case CLEAR: v.clear(); m.clear(); break;
    case RESERVE: v.reserve(r.a); PBT_CHECK(v.capacity() >= r.a, "capacity " << v.capacity() << " after reserve(" << r.a << ")"); break;
    case SHRINK: v.shrink_to_fit(); break;
    case COPYASSIGN: { V o = make_vec<V>(r.bits); v = o; m = r.bits; check_vec(o, r.bits, "source of the assignment"); break; }
    case MOVEASSIGN: { V o = make_vec<V>(r.bits); v = std::move(o); m = r.bits; break; }
    case WRITE: switch (r.b) {
        case 0: v[r.a] = val(r.v); m[r.a] = (uint8_t)r.v; break;
        case 1: v.at(r.a) = val(r.v); m[r.a] = (uint8_t)r.v; break;
        case 2: v.front() = val(r.v); m.front() = (uint8_t)r.v; break;
        case 3: v.back() = val(r.v); m.back() = (uint8_t)r.v; break;
        case 4: *(v.begin() + r.a) = val(r.v); m[r.a] = (uint8_t)r.v; break;
        case 5: v[r.a].flip(); m[r.a] ^= 1; break;
        case 6: v.begin()[r.a] = val(r.v); m[r.a] = (uint8_t)r.v; break;
        default: *(v.end() - (std::ptrdiff_t)(m.size() - r.a)) = val(r.v); m[r.a] = (uint8_t)r.v;
        } break;
    case WRITEWORD: v.data()[r.a] = (W)r.v; for (size_t k = 0; k < D && r.a * D + k < m.size(); ++k) m[r.a * D + k] = ((W)r.v >> k) & 1; break;
    case ALGO: switch (r.v) {
        case 0: bit::fill(v.begin() + r.a, v.begin() + r.b, bit::bit1); std::fill(m.begin() + r.a, m.begin() + r.b, 1); break;
        case 1: bit::reverse(v.begin() + r.a, v.begin() + r.b); std::reverse(m.begin() + r.a, m.begin() + r.b); break;
        case 2: bit::rotate(v.begin() + r.a, v.begin() + r.c, v.begin() + r.b); std::rotate(m.begin() + r.a, m.begin() + r.c, m.begin() + r.b); break;
        case 3: bit::fill(v.begin() + r.a, v.begin() + r.b, bit::bit0); std::fill(m.begin() + r.a, m.begin() + r.b, 0); break;
        default: PBT_CHECK(bit::count(v.begin() + r.a, v.begin() + r.b, bit::bit1) == std::count(m.begin() + r.a, m.begin() + r.b, 1), "count of [" << r.a << "," << r.b << ") differs");
        } break;
    case SELFCOPY: { V o(v); v = o; break; }
    }
}
}  // namespace pbt
