// C32: uses that only read never write: sources live in write-protected memory.
#include "algos.hpp"
#include "vec_model.hpp"
using namespace pbt;
namespace {
constexpr size_t PG = 4096;
// A block of words ending (or beginning) at a page boundary, that can be write-protected.
struct Pages {
    char* mem = nullptr; size_t bytes = 0;
    explicit Pages(size_t n) { bytes = (n + PG - 1) / PG * PG; if (!bytes) bytes = PG; mem = (char*)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (mem == MAP_FAILED) throw std::bad_alloc(); }
    ~Pages() { munmap(mem, bytes); }
    Pages(const Pages&) = delete;
    void protect() { mprotect(mem, bytes, PROT_READ); }
    void unprotect() { mprotect(mem, bytes, PROT_READ | PROT_WRITE); }
};
template <class W> struct RoBuf {
    Pages pg; W* p; size_t n; Bits m;
    RoBuf(const std::vector<W>& w, size_t align) : pg(w.size() * sizeof(W) + 64), n(w.size()) {
        p = (W*)(pg.mem + align / sizeof(W) * sizeof(W) % 64); for (size_t i = 0; i < n; ++i) p[i] = w[i];
        m.resize(n * DIG<W>); for (size_t i = 0; i < m.size(); ++i) m[i] = (w[i / DIG<W>] >> (i % DIG<W>)) & 1;
    }
    bit::bit_iterator<W*> at(size_t b) { return bit::bit_iterator<W*>(p + b / DIG<W>, b % DIG<W>); }
    bit::bit_iterator<const W*> cat(size_t b) { return bit::bit_iterator<const W*>(p + b / DIG<W>, b % DIG<W>); }
};
const int RO_ALGS[] = {A_COPY, A_MOVE, A_COPYB, A_COUNT, A_FIND, A_EQUAL, A_TRANS1, A_TRANS2};
template <class W> void alg_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; int alg = RO_ALGS[s.draw(8)]; size_t len = gen_len(s, D, 3, 200); size_t off[3]; size_t words[3];
    for (int i = 0; i < 3; ++i) { off[i] = gen_off(s, D) + D * s.draw(2); words[i] = (off[i] + len + D - 1) / D + s.draw(2); }
    RoBuf<W> a(gen_words<W>(s, words[0]), gen_align(s)), b(gen_words<W>(s, words[1]), gen_align(s)); Buf<W, Raw> d; d.init(gen_words<W>(s, words[2]), gen_align(s));
    if (alg == A_EQUAL && s.draw(3)) for (size_t i = 0; i < len; ++i) { size_t t = off[1] + i; uint8_t v = a.m[off[0] + i]; b.m[t] = v; W& w = b.p[t / D]; w = (W)((w & ~((W)1 << (t % D))) | ((W)v << (t % D))); }
    int64_t par = gen_par(s, alg, D, len);
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " of " << len << " bits at " << off[0] << "," << off[1] << "," << off[2] << " par=" << par << " from write-protected memory"; });
    c.label(alg_name(alg)); c.nontrivial(crosses(D, off[0], len) || shares(D, off[0], len));
    Bits ma = a.m, mb = b.m;
    a.pg.protect(); b.pg.protect();
    AlgRes r, e;
    bool one_src = alg == A_COPY || alg == A_MOVE || alg == A_COPYB || alg == A_TRANS1;
    if (one_src) { r = call_alg(alg, a.at(off[0]), d.at(off[2]), d.at(off[2]), len, par); e = model_alg(alg, ma.data() + off[0], d.m.data() + off[2], nullptr, len, par); }
    else { r = call_alg(alg, a.at(off[0]), b.at(off[1]), d.at(off[2]), len, par); e = model_alg(alg, ma.data() + off[0], mb.data() + off[1], d.m.data() + off[2], len, par); }
    PBT_CHECK(r == e, alg_name(alg) << " returned " << r << ", expected " << e); d.compare("destination");
    if (alg == A_COUNT || alg == A_FIND) { bit::bit_value v = par & 1 ? bit::bit1 : bit::bit0; auto f = a.cat(off[0]), l = a.cat(off[0] + len); int64_t g = alg == A_COUNT ? bit::count(f, l, v) : bit::find(f, l, v) - f; PBT_CHECK(g == (alg == A_COUNT ? e.val : e.pos), alg_name(alg) << " over const words gives " << g << ", expected " << e); }
}
void algs(Source& s, Ctx& c) { with_word(s, [&](auto w) { alg_w<decltype(w)>(s, c); }); }

// -------- a whole vector, object and elements, in write-protected memory
std::vector<std::pair<void*, size_t>>& blocks() { static std::vector<std::pair<void*, size_t>> b; return b; }
template <class T> struct PageAlloc {
    using value_type = T; PageAlloc() = default; template <class U> PageAlloc(const PageAlloc<U>&) {}
    T* allocate(size_t n) { size_t by = (n * sizeof(T) + PG) / PG * PG; void* p = mmap(nullptr, by, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) throw std::bad_alloc(); blocks().emplace_back(p, by); return (T*)p; }
    void deallocate(T* p, size_t) { for (auto it = blocks().begin(); it != blocks().end(); ++it) if (it->first == (void*)p) { munmap(p, it->second); blocks().erase(it); return; } }
    friend bool operator==(const PageAlloc&, const PageAlloc&) { return true; } friend bool operator!=(const PageAlloc&, const PageAlloc&) { return false; }
};
template <class W> void vec_w(Source& s, Ctx& c) {
    using V = bit::bit_vector<W, PageAlloc<W>>; constexpr size_t D = DIG<W>; Model m = gen_bits(s, gen_size(s, D, s.draw(4) == 3));
    Pages home(sizeof(V)); V* v = new (home.mem) V(); 
    struct Guard { Pages& h; V* v; std::vector<std::pair<void*, size_t>> frozen; void thaw() { h.unprotect(); for (auto& b : frozen) mprotect(b.first, b.second, PROT_READ | PROT_WRITE); frozen.clear(); } ~Guard() { thaw(); v->~V(); } } g{home, v, {}};
    for (auto b : m) v->push_back(b ? bit::bit1 : bit::bit0);
    c.describe([&](auto& o) { o << wname<W>() << " reads of a write-protected " << show_model(m); }); c.nontrivial(m.size() > D);
    g.frozen = blocks(); for (auto& b : g.frozen) mprotect(b.first, b.second, PROT_READ); home.protect();
    const V& k = *v; size_t n = 1 + s.draw(6); size_t N = m.size();
    static const char* K[] = {"operator[]", "at", "front/back", "iterators", "sizes", "copy constructor", "copy assignment", "insert source", "range constructor", "debug_string", "count/find", "equal", "std algorithms", "pointer", "const iteration"};
    for (size_t i = 0; i < n; ++i) {
        int op = (int)s.draw(15); size_t a = s.draw(N + 1), b = a + s.draw(N - a + 1); uint8_t x = (uint8_t)s.draw(2); auto bv = x ? bit::bit1 : bit::bit0;
        c.describe([&](auto& o) { o << "; " << K[op] << " [" << a << "," << b << ")"; }); c.label(K[op]);
        switch (op) {
        case 0: if (N) { size_t j = std::min(a, N - 1); PBT_CHECK((bool)k[j] == (bool)m[j] && (bool)(*v)[j] == (bool)m[j], "element " << j); } break;
        case 1: if (N) { size_t j = std::min(a, N - 1); PBT_CHECK((bool)k.at(j) == (bool)m[j] && (bool)v->at(j) == (bool)m[j], "element " << j); } break;
        case 2: if (N) PBT_CHECK((bool)k.front() == (bool)m[0] && (bool)k.back() == (bool)m[N - 1] && (bool)v->front() == (bool)m[0] && (bool)v->back() == (bool)m[N - 1], "front or back"); break;
        case 3: { size_t j = 0; for (auto it = v->begin(); it != v->end(); ++it, ++j) PBT_CHECK((bool)*it == (bool)m[j] && (bool)v->begin()[(std::ptrdiff_t)j] == (bool)m[j], "element " << j); break; }
        case 4: PBT_CHECK(k.size() == N && k.empty() == (N == 0) && k.capacity() >= N && k.max_size() >= N && (N == 0 || k.data() != nullptr) && k.end() - k.begin() == (int64_t)N && k.cend() - k.cbegin() == (int64_t)N, "sizes"); break;
        case 5: { V o(k); check_vec(o, m, "copy"); V q(k, PageAlloc<W>()); check_vec(q, m, "copy with allocator"); break; }
        case 6: { V o(a, bv); o = k; check_vec(o, m, "assigned copy"); break; }
        case 7: { V o(3, bv); o.insert(o.begin() + 1, v->begin() + (std::ptrdiff_t)a, v->begin() + (std::ptrdiff_t)b); Model e(3, x); e.insert(e.begin() + 1, m.begin() + a, m.begin() + b); check_vec(o, e, "vector after insertion"); break; }
        case 8: { V o(v->begin() + (std::ptrdiff_t)a, v->begin() + (std::ptrdiff_t)b); check_vec(o, Model(m.begin() + a, m.begin() + b), "vector from range"); break; }
        case 9: { if (N > 3000) break; std::string t = v->debug_string(), u; for (char ch : t) if (ch == '0' || ch == '1') u += ch; std::string e; for (auto y : m) e += (char)('0' + y); PBT_CHECK(u == e, "debug_string gives bits " << u.substr(0, 200) << ", expected " << e.substr(0, 200)); break; }
        case 10: PBT_CHECK(bit::count(k.begin() + a, k.begin() + b, bv) == std::count(m.begin() + a, m.begin() + b, x) && bit::find(k.begin() + a, k.begin() + b, bv) - k.begin() == std::find(m.begin() + a, m.begin() + b, x) - m.begin(), "count or find"); break;
        case 11: { size_t len = std::min(b - a, N - b); PBT_CHECK(bit::equal(v->begin() + a, v->begin() + a + len, v->begin() + b) == std::equal(m.begin() + a, m.begin() + a + len, m.begin() + b), "equal"); break; }
        case 12: { auto f = v->begin() + (std::ptrdiff_t)a, l = v->begin() + (std::ptrdiff_t)b; PBT_CHECK(std::count(f, l, bv) == std::count(m.begin() + a, m.begin() + b, x) && std::is_sorted(f, l) == std::is_sorted(m.begin() + a, m.begin() + b) && std::max_element(f, l) - f == std::max_element(m.begin() + a, m.begin() + b) - (m.begin() + a), "standard algorithms"); break; }
        case 13: if (N) { size_t j = std::min(a, N - 1); auto p = &(*v)[j]; PBT_CHECK((bool)*p == (bool)m[j] && (bool)p[-(std::ptrdiff_t)j] == (bool)m[0], "bit pointer"); auto q = &k[j]; PBT_CHECK((bool)*q == (bool)m[j], "const bit pointer"); } break;
        default: { size_t j = 0; for (auto y : k) { PBT_CHECK((bool)y == (bool)m[j], "element " << j); ++j; } }
        }
    }
    g.thaw(); check_vec(*v, m, "vector afterwards");
}
void vectors(Source& s, Ctx& c) { with_word(s, [&](auto w) { vec_w<decltype(w)>(s, c); }); }
}
std::vector<Test> pbt::tests() { return { {"algs", algs, false, 100000, 3000000}, {"vectors", vectors, false, 50000, 1500000} }; }
