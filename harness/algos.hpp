// One generated call of any bit algorithm, on any iterator type, with its model.
#pragma once
#include "bits.hpp"
#include <functional>
namespace pbt {
enum Alg { A_COPY, A_MOVE, A_COPYB, A_FILL, A_COUNT, A_FIND, A_EQUAL, A_REVERSE, A_ROTATE, A_SHL, A_SHR, A_SWAP, A_TRANS1, A_TRANS2, N_ALG };
inline const char* alg_name(int a) {
    static const char* n[] = {"copy", "move", "copy_backward", "fill", "count", "find", "equal", "reverse", "rotate", "shift_left", "shift_right", "swap_ranges", "transform(1)", "transform(2)"};
    return n[a];
}
inline int ranges_of(int a) { return a == A_TRANS2 ? 3 : (a == A_COPY || a == A_MOVE || a == A_COPYB || a == A_EQUAL || a == A_SWAP || a == A_TRANS1) ? 2 : 1; }
inline bool writes_first(int a) { return a == A_FILL || a == A_REVERSE || a == A_ROTATE || a == A_SHL || a == A_SHR || a == A_SWAP; }
// Position results are reported relative to the range they belong to; -1: none.
struct AlgRes { int64_t pos = -1; int64_t val = -1; int64_t dc_lo = 0, dc_hi = 0; bool operator==(const AlgRes& o) const { return pos == o.pos && val == o.val; } };
inline std::ostream& operator<<(std::ostream& o, const AlgRes& r) { return o << "(position " << r.pos << ", value " << r.val << ")"; }
// Applies the algorithm to ranges of len bits beginning at a, b, d.  par: value / pivot / shift / operation.
template <class BI> AlgRes call_alg(int alg, BI a, BI b, BI d, size_t len, int64_t par) {
    using W = typename std::remove_cv<typename BI::word_type>::type;
    BI ae = a + (std::ptrdiff_t)len, be = b + (std::ptrdiff_t)len; AlgRes r; bit::bit_value v = (par & 1) ? bit::bit1 : bit::bit0;
    switch (alg) {
    case A_COPY: r.pos = bit::copy(a, ae, b) - b; break;
    case A_MOVE: r.pos = bit::move(a, ae, b) - b; break;
    case A_COPYB: r.pos = bit::copy_backward(a, ae, be) - b; break;
    case A_FILL: bit::fill(a, ae, v); break;
    case A_COUNT: r.val = bit::count(a, ae, v); break;
    case A_FIND: r.pos = bit::find(a, ae, v) - a; break;
    case A_EQUAL: r.val = bit::equal(a, ae, b); break;
    case A_REVERSE: bit::reverse(a, ae); break;
    case A_ROTATE: r.pos = bit::rotate(a, a + (std::ptrdiff_t)par, ae) - a; break;
    case A_SHL: r.pos = bit::shift_left(a, ae, par) - a; break;
    case A_SHR: r.pos = bit::shift_right(a, ae, par) - a; break;
    case A_SWAP: r.pos = bit::swap_ranges(a, ae, b) - b; break;
    case A_TRANS1: r.pos = bit::transform(a, ae, b, std::bit_not<W>()) - b; break;
    default: switch (par % 3) { case 0: r.pos = bit::transform(a, ae, b, d, std::bit_and<W>()) - d; break; case 1: r.pos = bit::transform(a, ae, b, d, std::bit_or<W>()) - d; break; default: r.pos = bit::transform(a, ae, b, d, std::bit_xor<W>()) - d; }
    }
    return r;
}
// The same on bytes holding one bit each.  dc_lo/dc_hi: unspecified positions relative to the first range.
inline AlgRes model_alg(int alg, uint8_t* a, uint8_t* b, uint8_t* d, size_t len, int64_t par) {
    AlgRes r; uint8_t v = par & 1; int64_t L = (int64_t)len;
    switch (alg) {
    case A_COPY: case A_MOVE: if (len) std::memmove(b, a, len); r.pos = L; break;
    case A_COPYB: if (len) std::memmove(b, a, len); r.pos = 0; break;
    case A_FILL: std::fill(a, a + len, v); break;
    case A_COUNT: r.val = std::count(a, a + len, v); break;
    case A_FIND: r.pos = std::find(a, a + len, v) - a; break;
    case A_EQUAL: r.val = std::equal(a, a + len, b); break;
    case A_REVERSE: std::reverse(a, a + len); break;
    case A_ROTATE: r.pos = std::rotate(a, a + par, a + len) - a; break;
    case A_SHL: if (par <= 0) r.pos = L; else if (par >= L) r.pos = 0; else { std::memmove(a, a + par, len - par); r.pos = L - par; r.dc_lo = L - par; r.dc_hi = L; } break;
    case A_SHR: if (par <= 0) r.pos = 0; else if (par >= L) r.pos = L; else { std::memmove(a + par, a, len - par); r.pos = par; r.dc_lo = 0; r.dc_hi = par; } break;
    case A_SWAP: std::swap_ranges(a, a + len, b); r.pos = L; break;
    case A_TRANS1: for (size_t i = 0; i < len; ++i) b[i] = !a[i]; r.pos = L; break;
    default: for (size_t i = 0; i < len; ++i) d[i] = par % 3 == 0 ? a[i] & b[i] : par % 3 == 1 ? a[i] | b[i] : a[i] ^ b[i]; r.pos = L;
    }
    return r;
}
inline int64_t gen_par(Source& s, int alg, size_t D, size_t len) {
    auto cut = [&](int64_t lo, int64_t hi) -> int64_t {
        switch (s.draw(5)) {
        case 0: return (int64_t)s.draw(len + 1);
        case 1: return std::min<int64_t>(hi, std::max<int64_t>(lo, (int64_t)(s.draw(len / D + 1) * D) + s.irange(-1, 1)));
        case 2: return std::min<int64_t>(hi, (int64_t)s.draw(std::min<size_t>(len, 2 * D) + 1));
        case 3: return std::max<int64_t>(lo, (int64_t)len - (int64_t)s.draw(std::min<size_t>(len, 2 * D) + 1));
        default: return (int64_t)s.draw(len + 1);
        }
    };
    switch (alg) {
    case A_ROTATE: return cut(0, (int64_t)len);
    case A_SHL: case A_SHR: { if (s.draw(24) == 0) return s.irange(-3, 0); if (s.draw(24) == 0) return (int64_t)len + (int64_t)s.draw(4); return cut(0, (int64_t)len + 1); }
    case A_TRANS2: return (int64_t)s.draw(3);
    default: return (int64_t)s.draw(2);
    }
}
}  // namespace pbt
