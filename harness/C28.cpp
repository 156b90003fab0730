// C28: every allocation of every container operation is made to fail in turn.
#include <cstdlib>
#include <new>
// ------------------------------------------------ allocation control (global operator new)
namespace oom {
static bool armed = false;          // inside a library call
static long fail_at = -1;           // the allocation that fails (0 based), -1: none, -2: all
static long seen = 0, fired = 0;
static size_t big = ~(size_t)0;     // requests above this always fail
static constexpr int CAP = 4096; static void* live[CAP]; static int nlive = 0; static bool overflow = false;
static void* get(size_t n) {
    if (armed) {
        long k = seen++;
        if (fail_at == -2 || k == fail_at || n > big) { ++fired; return nullptr; }
        void* p = malloc(n ? n : 1); if (p) { if (nlive < CAP) live[nlive++] = p; else overflow = true; } return p;
    }
    return malloc(n ? n : 1);
}
static void put(void* p) { if (!p) return; for (int i = nlive; i-- > 0;) if (live[i] == p) { live[i] = live[--nlive]; break; } free(p); }
}
void* operator new(size_t n) { void* p = oom::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = oom::get(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return oom::get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return oom::get(n); }
void operator delete(void* p) noexcept { oom::put(p); }
void operator delete[](void* p) noexcept { oom::put(p); }
void operator delete(void* p, size_t) noexcept { oom::put(p); }
void operator delete[](void* p, size_t) noexcept { oom::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { oom::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { oom::put(p); }

#include "vec_model.hpp"
using namespace pbt;
namespace {
struct Arm { Arm(long k) { oom::fail_at = k; oom::seen = oom::fired = 0; oom::armed = true; } ~Arm() { oom::armed = false; } };
enum Out { DONE, BAD_ALLOC, LENGTH };
template <class F> Out guarded(long k, F f) {
    try { Arm a(k); f(); return DONE; }
    catch (const std::bad_alloc&) { return BAD_ALLOC; }
    catch (const std::length_error&) { return LENGTH; }
}
struct NoLeak {                                   // everything the library allocated is gone at the end of the case
    NoLeak() { oom::nlive = 0; oom::overflow = false; oom::big = ~(size_t)0; }
    void check() { PBT_CHECK(oom::nlive == 0 || oom::overflow, oom::nlive << " block(s) allocated by the library were never freed"); }
};
// The library calls of one operation.  o: prepared second vector.  ret: returned position or -1.
template <class V> void lib_op(V& v, V& o, const OpRec& r, int64_t& ret) {
    using W = typename V::base_type; constexpr size_t D = DIG<W>; (void)D;
    auto val = [](uint64_t x) { return x ? bit::bit1 : bit::bit0; };
    typename V::iterator it = v.begin(); bool pos = true;
    switch (r.op) {
    case PUSH: v.push_back(val(r.v)); pos = false; break;
    case POP: v.pop_back(); pos = false; break;
    case INS1: it = v.insert(v.begin() + r.a, val(r.v)); break;
    case INSN: it = v.insert(v.begin() + r.a, r.b, val(r.v)); break;
    case INSR: it = v.insert(v.begin() + r.a, o.begin() + r.c, o.begin() + r.c + r.b); break;
    case ERASE1: it = v.erase(v.begin() + r.a); break;
    case ERASER: it = v.erase(v.begin() + r.a, v.begin() + r.b); break;
    case RESIZE: v.resize(r.a); pos = false; break;
    case RESIZEV: v.resize(r.a, val(r.v)); pos = false; break;
    case CLEAR: v.clear(); pos = false; break;
    case RESERVE: v.reserve(r.a); pos = false; break;
    case SHRINK: v.shrink_to_fit(); pos = false; break;
    case COPYASSIGN: v = o; pos = false; break;
    case MOVEASSIGN: v = std::move(o); pos = false; break;
    case WRITE: v[r.a] = val(r.v); pos = false; break;
    case ALGO: switch (r.v % 5) {
        case 0: bit::fill(v.begin() + r.a, v.begin() + r.b, bit::bit1); break;
        case 1: bit::reverse(v.begin() + r.a, v.begin() + r.b); break;
        case 2: bit::rotate(v.begin() + r.a, v.begin() + r.c, v.begin() + r.b); break;
        case 3: bit::transform(v.begin() + r.a, v.begin() + r.b, v.begin() + r.a, std::bit_not<W>()); break;
        default: it = v.begin() + bit::count(v.begin() + r.a, v.begin() + r.b, bit::bit1);
        } pos = r.v % 5 == 4; break;
    default: pos = false;
    }
    ret = pos ? (int64_t)bit::distance(v.begin(), it) : -1;
}
void model_op(Model& m, const OpRec& r, int64_t& ret) {
    ret = -1;
    switch (r.op) {
    case PUSH: m.push_back((uint8_t)r.v); break;
    case POP: m.pop_back(); break;
    case INS1: m.insert(m.begin() + r.a, (uint8_t)r.v); ret = r.a; break;
    case INSN: m.insert(m.begin() + r.a, r.b, (uint8_t)r.v); ret = r.a; break;
    case INSR: m.insert(m.begin() + r.a, r.bits.begin() + r.c, r.bits.begin() + r.c + r.b); ret = r.a; break;
    case ERASE1: m.erase(m.begin() + r.a); ret = r.a; break;
    case ERASER: m.erase(m.begin() + r.a, m.begin() + r.b); ret = r.a; break;
    case RESIZE: m.resize(r.a, 0); break;
    case RESIZEV: m.resize(r.a, (uint8_t)r.v); break;
    case CLEAR: m.clear(); break;
    case COPYASSIGN: case MOVEASSIGN: m = r.bits; break;
    case WRITE: m[r.a] = (uint8_t)r.v; break;
    case ALGO: switch (r.v % 5) {
        case 0: std::fill(m.begin() + r.a, m.begin() + r.b, 1); break;
        case 1: std::reverse(m.begin() + r.a, m.begin() + r.b); break;
        case 2: std::rotate(m.begin() + r.a, m.begin() + r.c, m.begin() + r.b); break;
        case 3: for (size_t i = r.a; i < r.b; ++i) m[i] ^= 1; break;
        default: ret = std::count(m.begin() + r.a, m.begin() + r.b, 1);
        } break;
    default: break;
    }
}
// Operations that never need memory, in this state.
bool needs_none(const OpRec& r, size_t n, size_t cap) {
    switch (r.op) {
    case POP: case ERASE1: case ERASER: case CLEAR: case WRITE: case ALGO: case MOVEASSIGN: return true;
    case PUSH: case INS1: return n + 1 <= cap;
    case INSN: return n + r.b <= cap;
    case INSR: return r.b == 0;                       // may buffer the inserted bits (self-insertion)
    case RESIZE: case RESIZEV: case RESERVE: return r.a <= cap;
    case COPYASSIGN: return false;                    // may be copy-and-swap
    default: return false;
    }
}
template <class W> void hist_w(Source& s, Ctx& c) {
    using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>; NoLeak leak; bool failed_alloc = false;
    {
        Model m = gen_bits(s, gen_size(s, D, false)); V v;
        { Arm a(-1); for (auto b : m) v.push_back(b ? bit::bit1 : bit::bit0); if (s.flag()) v.shrink_to_fit(); }
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); });
        size_t nops = 1 + s.draw(6);
        for (size_t i = 0; i < nops; ++i) {
            OpRec r = gen_op(s, D, m.size(), 60 * D);
            if (r.op == WRITEWORD || r.op == SELFCOPY) r.op = RESERVE, r.a = s.draw(40 * D);
            c.describe([&](auto& o) { o << "; " << r; });
            c.label(op_name(r.op));
            V src; if (!r.bits.empty()) { Arm a(-1); src.reserve(r.bits.size()); for (auto b : r.bits) src.push_back(b ? bit::bit1 : bit::bit0); }
            bool none = needs_none(r, m.size(), v.capacity()); Model after = m; int64_t want, got = -1; model_op(after, r, want);
            if (none) {
                Out o = guarded(-2, [&] { lib_op(v, src, r, got); });
                PBT_CHECK(o == DONE, op_name(r.op) << " needs no memory, but " << (o == BAD_ALLOC ? "failed with bad_alloc" : "threw length_error"));
                PBT_CHECK(oom::seen == 0, op_name(r.op) << " needs no memory, but tried to allocate");
                c.label("needs no memory");
            } else for (long k = 0;; ++k) {
                PBT_CHECK(k < 200, "still failing after 200 allocations");
                Out o = guarded(k, [&] { lib_op(v, src, r, got); });
                PBT_CHECK(o != LENGTH, op_name(r.op) << " threw length_error");
                if (o == BAD_ALLOC) {
                    PBT_CHECK(oom::fired > 0, op_name(r.op) << " threw bad_alloc although no allocation failed");
                    failed_alloc = true; c.label("failed allocation"); c.label((std::string("failed: ") + op_name(r.op)).c_str());
                    check_vec(v, m, "after a failed allocation");
                    if (!r.bits.empty()) check_vec(src, r.bits, "source operand after a failed allocation");
                    if (m.size()) { v.back().flip(); v.back().flip(); *(v.begin()) = (m[0] ? bit::bit1 : bit::bit0); }      // still usable
                    continue;
                }
                if (oom::fired) { PBT_CHECK(r.op == SHRINK, op_name(r.op) << " swallowed a failed allocation"); continue; }
                break;
            }
            PBT_CHECK(got == want, op_name(r.op) << " returned position or count " << got << ", expected " << want);
            m = after; check_vec(v, m, op_name(r.op));
        }
    }
    leak.check(); c.nontrivial(failed_alloc);
}
void hist(Source& s, Ctx& c) { with_word(s, [&](auto w) { hist_w<decltype(w)>(s, c); }); }

template <class W> void ctor_w(Source& s, Ctx& c) {
    using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>; NoLeak leak; bool failed = false;
    Model m = gen_bits(s, gen_size(s, D, false)); int kind = (int)s.draw(10); uint8_t x = (uint8_t)s.draw(2);
    static const char* K[] = {"(count)", "(count,value)", "copy", "(bit range)", "(bool range)", "(word range)", "(string)", "{bit values}", "{words}", "move"};
    if (kind == 0 || kind == 1) m.assign(m.size(), kind == 1 ? x : 0);
    if (kind == 5) m.resize(m.size() / D * D);
    if (kind == 7) m = Model{1, 0, 0, 1, 1}; if (kind == 8) { m.clear(); for (W w : {(W)5, (W)0, (W)255}) for (size_t i = 0; i < D; ++i) m.push_back((w >> i) & 1); }
    c.describe([&](auto& o) { o << wname<W>() << " constructor " << K[kind] << " for " << show_model(m); }); c.label(K[kind]);
    V src; std::vector<W> ws((m.size() + D - 1) / D); std::string str; std::unique_ptr<bool[]> bs(new bool[m.size() + 1]);
    { Arm a(-1); src.reserve(m.size()); for (auto b : m) src.push_back(b ? bit::bit1 : bit::bit0); }
    for (size_t i = 0; i < m.size(); ++i) { if (m[i]) ws[i / D] |= (W)((W)1 << (i % D)); str += (char)('0' + m[i]); bs[i] = m[i]; }
    auto make = [&]() -> V {
        switch (kind) {
        case 0: return V(m.size()); case 1: return V(m.size(), x ? bit::bit1 : bit::bit0); case 2: return V(src); case 3: return V(src.begin(), src.end());
        case 4: return V(bs.get(), bs.get() + m.size()); case 5: return V(ws.begin(), ws.end()); case 6: return V(std::string_view(str));
        case 7: return V({bit::bit1, bit::bit0, bit::bit0, bit::bit1, bit::bit1}); case 8: return V({(W)5, (W)0, (W)255}); default: return V(std::move(src));
        }
    };
    for (long k = 0;; ++k) {
        PBT_CHECK(k < 200, "still failing after 200 allocations");
        int before = oom::nlive;
        Out o = guarded(k, [&] { V v = make(); oom::armed = false; check_vec(v, m, K[kind]); });
        if (o == DONE) { PBT_CHECK(!oom::fired, "constructor " << K[kind] << " swallowed a failed allocation"); break; }
        PBT_CHECK(o == BAD_ALLOC, "length_error"); PBT_CHECK(oom::fired, "bad_alloc although no allocation failed"); PBT_CHECK(kind != 9, "move construction failed with bad_alloc");
        PBT_CHECK(oom::nlive == before, "a failed construction leaked " << oom::nlive - before << " block(s)");
        check_vec(src, m, "source after a failed construction"); failed = true;
    }
    { V gone = std::move(src); } { V t; src = t; }
    leak.check(); c.nontrivial(failed);
}
void ctors(Source& s, Ctx& c) { with_word(s, [&](auto w) { ctor_w<decltype(w)>(s, c); }); }

// Requests beyond any memory: refused with bad_alloc or length_error, nothing changed.
template <class W> void oversize_w(Source& s, Ctx& c) {
    using V = bit::bit_vector<W>; constexpr size_t D = DIG<W>; NoLeak leak; oom::big = 1u << 28;
    {
        Model m = gen_bits(s, gen_size(s, D, false)); V v; { Arm a(-1); for (auto b : m) v.push_back(b ? bit::bit1 : bit::bit0); }
        size_t n = 0, mx = v.max_size(); 
        PBT_CHECK(mx >= m.size() && mx <= (size_t)PTRDIFF_MAX, "max_size() is " << mx << ", not a size whose positions iterators can express");
        switch (s.draw(6)) { case 0: n = ~(size_t)0 - s.draw(2 * D); break; case 1: n = mx - s.draw(2 * D); break; case 2: n = mx + 1 + s.draw(2 * D); break; case 3: n = (size_t)1 << (35 + s.draw(29)); n += s.draw(3) - 1; break; case 4: n = ~(size_t)0 - m.size() + s.draw(2 * D); if (n < ((size_t)1 << 62)) n = ~(size_t)0; break; default: n = (size_t)PTRDIFF_MAX - D + s.draw(2 * D); }
        int kind = (int)s.draw(6); size_t pos = s.draw(m.size() + 1);
        static const char* K[] = {"resize", "resize(value)", "reserve", "insert", "constructor", "constructor(value)"};
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m) << " " << K[kind] << " of " << n << " bits at " << pos; }); c.label(K[kind]); c.nontrivial();
        Out o = guarded(-1, [&] { switch (kind) { case 0: v.resize(n); break; case 1: v.resize(n, bit::bit1); break; case 2: v.reserve(n); break; case 3: v.insert(v.begin() + (std::ptrdiff_t)pos, n, bit::bit1); break; case 4: { V t(n); asm volatile("" :: "r"(t.data()) : "memory"); break; } default: { V t(n, bit::bit1); asm volatile("" :: "r"(t.data()) : "memory"); } } });
        PBT_CHECK(o != DONE, K[kind] << " of " << n << " bits reported success");
        check_vec(v, m, "after a refused request");
        { Arm a(-1); v.push_back(bit::bit1); } m.push_back(1); check_vec(v, m, "push_back after a refused request");
    }
    oom::big = ~(size_t)0; leak.check();
}
void oversize(Source& s, Ctx& c) { with_word(s, [&](auto w) { oversize_w<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"hist", hist, false, 80000, 3000000}, {"ctors", ctors, false, 60000, 1500000}, {"oversize", oversize, false, 60000, 1000000} }; }
