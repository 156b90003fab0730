// C35: exceptions thrown by user-supplied operations, iterators and allocators pass through and spoil nothing else.
#include "algos.hpp"
#include "vec_model.hpp"
#include <unordered_map>
using namespace pbt;
namespace {
struct Boom { int tag; };
struct Fuse { int64_t left = -1; uint64_t calls = 0; void hit() { ++calls; if (left >= 0 && left-- == 0) throw Boom{4711}; } };
Fuse& fuse() { static Fuse f; return f; }
// ------------------------------------------------------------- operations
template <class W> void ops_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; bool two = s.flag(); int alias = (int)s.draw(3);      // 0: apart, 1: destination is the first source, 2: the second
    if (!two && alias == 2) alias = 1;
    size_t len = gen_len(s, D, 3, 120); size_t off[3]; size_t words[3]; Buf<W, Raw> b[3];
    for (int i = 0; i < 3; ++i) { off[i] = gen_off(s, D) + D * s.draw(2); words[i] = (off[i] + len + D - 1) / D + s.draw(2); if (len == 0) ++words[i]; b[i].init(gen_words<W>(s, words[i]), gen_align(s)); }
    int d = alias == 0 ? 2 : alias - 1; int64_t at = (int64_t)s.draw(len / D + 4); if (s.draw(6) == 5) at = -1; int kind = (int)s.draw(3);
    c.describe([&](auto& o) { o << wname<W>() << " transform(" << (two ? 2 : 1) << ") of " << len << " bits at " << off[0] << "," << off[1] << " to storage " << d << " at " << off[d] << ", operation throws at call " << at << "; " << b[0].show() << " " << b[1].show() << " " << b[2].show(); });
    auto f1 = [&](W x) -> W { fuse().hit(); return (W)~x; };
    auto f2 = [&](W x, W y) -> W { fuse().hit(); return kind == 0 ? (W)(x & y) : kind == 1 ? (W)(x | y) : (W)(x ^ y); };
    Bits want = b[d].m; AlgRes e; { Bits s0 = b[0].m, s1 = b[1].m; if (two) for (size_t i = 0; i < len; ++i) { uint8_t x = s0[off[0] + i], y = s1[off[1] + i]; want[off[d] + i] = kind == 0 ? x & y : kind == 1 ? x | y : x ^ y; } else for (size_t i = 0; i < len; ++i) want[off[d] + i] = !s0[off[0] + i]; }
    fuse() = Fuse{at, 0}; bool threw = false; int64_t ret = -1;
    auto r0 = b[0].at(off[0]), r1 = b[1].at(off[1]), rd = b[d].at(off[d]);
    try { if (two) ret = bit::transform(r0, r0 + (std::ptrdiff_t)len, r1, rd, f2) - rd; else ret = bit::transform(r0, r0 + (std::ptrdiff_t)len, rd, f1) - rd; }
    catch (const Boom& x) { threw = true; PBT_CHECK(x.tag == 4711, "another exception arrived"); }
    bool should = at >= 0 && fuse().calls > (uint64_t)at; fuse() = Fuse{};
    PBT_CHECK(threw == should, (should ? "the operation's exception was swallowed" : "an exception without cause"));
    c.label(threw ? "thrown" : "not thrown"); c.nontrivial(threw);
    if (!threw) { PBT_CHECK(ret == (int64_t)len, "returned position " << ret << ", expected " << len); b[d].m = want; }
    else for (size_t i = 0; i < len; ++i) { size_t q = off[d] + i; int g = (b[d].st.data()[q / D] >> (q % D)) & 1; PBT_CHECK(g == b[d].m[q] || g == want[q], "destination bit " << i << " is neither its old value nor the result"); b[d].m[q] = (uint8_t)g; }
    b[0].compare("storage 0"); b[1].compare("storage 1"); b[2].compare("storage 2");
}
void ops(Source& s, Ctx& c) { with_word(s, [&](auto w) { ops_w<decltype(w)>(s, c); }); }
// ------------------------------------------------- iterators and allocators
std::unordered_map<void*, size_t>& live() { static std::unordered_map<void*, size_t> m; return m; }
template <class T> struct ThrowAlloc {
    using value_type = T; ThrowAlloc() = default; template <class U> ThrowAlloc(const ThrowAlloc<U>&) {}
    T* allocate(size_t n) { fuse().hit(); T* p = static_cast<T*>(malloc(n * sizeof(T) + 1)); live()[p] = n * sizeof(T); return p; }
    void deallocate(T* p, size_t n) { auto it = live().find(p); if (it == live().end() || it->second != n * sizeof(T)) { fprintf(stderr, "bad deallocation\n"); abort(); } live().erase(it); free((void*)p); }
    friend bool operator==(const ThrowAlloc&, const ThrowAlloc&) { return true; } friend bool operator!=(const ThrowAlloc&, const ThrowAlloc&) { return false; }
};
// A random access iterator whose dereference may throw.
template <class T> struct ThrowIt {
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&;
    const T* p = nullptr;
    reference operator*() const { fuse().hit(); return *p; } reference operator[](difference_type n) const { fuse().hit(); return p[n]; } pointer operator->() const { fuse().hit(); return p; }
    ThrowIt& operator++() { ++p; return *this; } ThrowIt operator++(int) { auto t = *this; ++p; return t; } ThrowIt& operator--() { --p; return *this; } ThrowIt operator--(int) { auto t = *this; --p; return t; }
    ThrowIt& operator+=(difference_type n) { p += n; return *this; } ThrowIt& operator-=(difference_type n) { p -= n; return *this; }
    friend ThrowIt operator+(ThrowIt a, difference_type n) { return a += n; } friend ThrowIt operator+(difference_type n, ThrowIt a) { return a += n; } friend ThrowIt operator-(ThrowIt a, difference_type n) { return a -= n; }
    friend difference_type operator-(ThrowIt a, ThrowIt b) { return a.p - b.p; }
    friend bool operator==(ThrowIt a, ThrowIt b) { return a.p == b.p; } friend bool operator!=(ThrowIt a, ThrowIt b) { return a.p != b.p; } friend bool operator<(ThrowIt a, ThrowIt b) { return a.p < b.p; } friend bool operator>(ThrowIt a, ThrowIt b) { return a.p > b.p; } friend bool operator<=(ThrowIt a, ThrowIt b) { return a.p <= b.p; } friend bool operator>=(ThrowIt a, ThrowIt b) { return a.p >= b.p; }
};
template <class W> void ctors_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; using V = bit::bit_vector<W, ThrowAlloc<W>>; for (auto& x : live()) free(x.first); live().clear();
    Model m = gen_bits(s, gen_size(s, D)); bool words = s.flag(); if (words) m.resize(m.size() / D * D); size_t n = words ? m.size() / D : m.size();
    int64_t at = (int64_t)s.draw(s.flag() ? 3 : n + 2);
    c.describe([&](auto& o) { o << wname<W>() << " vector from " << (words ? "words " : "booleans ") << show_model(m) << ", exception at event " << at; }); c.label(words ? "words" : "booleans");
    std::unique_ptr<bool[]> pb(new bool[n + 1]); std::vector<W> pw(n + 1); if (words) { for (size_t i = 0; i < m.size(); ++i) if (m[i]) pw[i / D] |= (W)((W)1 << (i % D)); } else for (size_t i = 0; i < n; ++i) pb[i] = m[i];
    bool threw = false; fuse() = Fuse{at, 0};
    try {
        if (words) { ThrowIt<W> f{pw.data()}; V v(f, f + (std::ptrdiff_t)n); fuse().left = -1; check_vec(v, m, "vector"); }
        else { ThrowIt<bool> f{pb.get()}; V v(f, f + (std::ptrdiff_t)n); fuse().left = -1; check_vec(v, m, "vector"); }
    } catch (const Boom& x) { threw = true; PBT_CHECK(x.tag == 4711, "another exception arrived"); }
    fuse() = Fuse{}; c.nontrivial(threw); c.label(threw ? "thrown" : "not thrown");
    PBT_CHECK(live().empty(), "construction " << (threw ? "ended by an exception" : "and destruction") << " leaked " << live().size() << " block(s)");
}
void ctors(Source& s, Ctx& c) { with_word(s, [&](auto w) { ctors_w<decltype(w)>(s, c); }); }
// Each allocation of a history fails once with an exception of the user's own.
template <class W> void hist_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; using V = bit::bit_vector<W, ThrowAlloc<W>>; for (auto& x : live()) free(x.first); live().clear();
    {
        Model m = gen_bits(s, gen_size(s, D, false)); V v = make_vec<V>(m); size_t n = 1 + s.draw(8); bool nt = false;
        c.describe([&](auto& o) { o << wname<W>() << " " << show_model(m); });
        for (size_t k = 0; k < n; ++k) {
            OpRec r = gen_op(s, D, m.size(), 40 * D); if (r.op == MOVEASSIGN) r.op = COPYASSIGN; if (r.op == PUSH || r.op == POP) r.a = 1; c.describe([&](auto& o) { o << "; " << r; }); c.label(op_name(r.op));
            Model other; V src = make_vec<V>(r.bits); auto val = r.v ? bit::bit1 : bit::bit0; size_t a = r.a, b = r.b;
            for (int64_t at = 0; at < 6; ++at) {
                bool threw = false; fuse() = Fuse{at, 0};
                try {
                    switch (r.op) {
                    case PUSH: v.push_back(val); break; case INS1: v.insert(v.begin() + (std::ptrdiff_t)a, val); break; case INSN: v.insert(v.begin() + (std::ptrdiff_t)a, b, val); break;
                    case INSR: v.insert(v.begin() + (std::ptrdiff_t)a, src.begin() + (std::ptrdiff_t)r.c, src.begin() + (std::ptrdiff_t)(r.c + b)); break;
                    case RESIZE: v.resize(a); break; case RESIZEV: v.resize(a, val); break; case RESERVE: v.reserve(a); break; case COPYASSIGN: v = src; break; case SELFCOPY: { V o(v); break; }
                    case SHRINK: v.shrink_to_fit(); break;
                    default: at = 99; fuse().left = -1; apply_op(v, m, r);
                    }
                } catch (const Boom& x) { threw = true; }
                fuse() = Fuse{};
                if (threw) { nt = true; c.label("thrown"); check_vec(v, m, "vector after the exception"); continue; }
                if (at < 90) { Model q = m; V dummy; switch (r.op) { case PUSH: m.push_back((uint8_t)r.v); break; case INS1: m.insert(m.begin() + a, (uint8_t)r.v); break; case INSN: m.insert(m.begin() + a, b, (uint8_t)r.v); break; case INSR: m.insert(m.begin() + a, r.bits.begin() + r.c, r.bits.begin() + r.c + b); break; case RESIZE: m.resize(a, 0); break; case RESIZEV: m.resize(a, (uint8_t)r.v); break; case COPYASSIGN: m = r.bits; break; default: break; } }
                check_vec(v, m, "vector"); break;
            }
        }
        c.nontrivial(nt);
    }
    PBT_CHECK(live().empty(), live().size() << " block(s) leaked");
}
void hist(Source& s, Ctx& c) { with_word(s, [&](auto w) { hist_w<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"ops", ops, false, 100000, 2500000}, {"ctors", ctors, false, 40000, 1000000}, {"hist", hist, false, 30000, 1000000} }; }
