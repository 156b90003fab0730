// C33: work is proportional to words, not bits; growth is amortised.
#include "algos.hpp"
#include <unordered_map>
using namespace pbt;
namespace {
uint64_t& ticks() { static uint64_t t = 0; return t; }
// Random-access word iterator that counts dereferences.
template <class W> struct It {
    using value_type = W; using difference_type = std::ptrdiff_t; using pointer = W*; using reference = W&; using iterator_category = std::random_access_iterator_tag;
    W* p = nullptr;
    W& operator*() const { ++ticks(); return *p; } W* operator->() const { ++ticks(); return p; } W& operator[](difference_type n) const { ++ticks(); return p[n]; }
    It& operator++() { ++p; return *this; } It& operator--() { --p; return *this; } It operator++(int) { It t = *this; ++p; return t; } It operator--(int) { It t = *this; --p; return t; }
    It& operator+=(difference_type n) { p += n; return *this; } It& operator-=(difference_type n) { p -= n; return *this; }
    friend It operator+(It x, difference_type n) { x.p += n; return x; } friend It operator+(difference_type n, It x) { x.p += n; return x; } friend It operator-(It x, difference_type n) { x.p -= n; return x; }
    friend difference_type operator-(const It& x, const It& y) { return x.p - y.p; }
    friend bool operator==(const It& x, const It& y) { return x.p == y.p; } friend bool operator!=(const It& x, const It& y) { return x.p != y.p; } friend bool operator<(const It& x, const It& y) { return x.p < y.p; }
    friend bool operator>(const It& x, const It& y) { return x.p > y.p; } friend bool operator<=(const It& x, const It& y) { return x.p <= y.p; } friend bool operator>=(const It& x, const It& y) { return x.p >= y.p; }
};
// Accesses allowed per overlapped word of one range, plus a constant.  One access per bit would be 32 or 64 per word.
constexpr uint64_t PER_WORD = 16, CONST = 256;
template <class W> void alg_w(Source& s, Ctx& c) {
    constexpr size_t D = DIG<W>; int alg = (int)s.draw(N_ALG), nr = ranges_of(alg); size_t len = s.draw(3) == 0 ? gen_len(s, D, 3, 400) : s.draw(300 * D); size_t off[3] = {0, 0, 0}; std::vector<W> x[3];
    for (int i = 0; i < 3; ++i) { off[i] = gen_off(s, D); if (i < nr) x[i] = gen_words<W>(s, (off[i] + len + D - 1) / D + 1); }
    int64_t par = gen_par(s, alg, D, len);
    if (alg == A_EQUAL && s.draw(5)) for (size_t i = 0; i < len; ++i) { size_t t = off[1] + i, u = off[0] + i; W& w = x[1][t / D]; w = (W)((w & ~((W)1 << (t % D))) | ((W)((x[0][u / D] >> (u % D)) & 1) << (t % D))); }
    if (alg == A_FIND && s.draw(5)) for (auto& w : x[0]) w = par & 1 ? 0 : (W)~(W)0;
    c.describe([&](auto& o) { o << wname<W>() << " " << alg_name(alg) << " of " << len << " bits at " << off[0] << "," << off[1] << "," << off[2] << " par=" << par << ", counting word accesses"; });
    auto at = [&](int i, size_t b) { return bit::bit_iterator<It<W>>(It<W>{x[i].data() + b / D}, b % D); };
    uint64_t words = (off[0] % D + len + D - 1) / D; c.label(alg_name(alg)); c.nontrivial(words >= 32);
    ticks() = 0; call_alg(alg, at(0, off[0]), at(nr > 1, off[nr > 1]), at(nr > 2 ? 2 : 0, off[nr > 2 ? 2 : 0]), len, par); uint64_t t = ticks();
    if (getenv("PBT_COST")) { static double best[N_ALG]; static uint64_t small[N_ALG]; if (words >= 20 && (double)t / words > best[alg]) { best[alg] = (double)t / words; fprintf(stderr, "COST %s %s %.1f\n", wname<W>(), alg_name(alg), best[alg]); } if (words < 5 && t > small[alg]) { small[alg] = t; fprintf(stderr, "SMALL %s %s %llu\n", wname<W>(), alg_name(alg), (unsigned long long)t); } }
    PBT_CHECK(t <= PER_WORD * words + CONST, alg_name(alg) << " made " << t << " word accesses for a range of " << words << " words (" << len << " bits)");
}
void algs(Source& s, Ctx& c) { if (s.flag()) alg_w<uint64_t>(s, c); else alg_w<uint32_t>(s, c); }

// ---- container growth: allocations, counted by the allocator
uint64_t& nalloc() { static uint64_t n = 0; return n; } uint64_t& nbytes() { static uint64_t n = 0; return n; }
template <class T> struct CA {
    using value_type = T; CA() = default; template <class U> CA(const CA<U>&) {}
    T* allocate(size_t n) { ++nalloc(); nbytes() += n * sizeof(T); return static_cast<T*>(malloc(n * sizeof(T) + 1)); } void deallocate(T* p, size_t) { free(p); }
    friend bool operator==(const CA&, const CA&) { return true; } friend bool operator!=(const CA&, const CA&) { return false; }
};
template <class W> void growth_w(Source& s, Ctx& c) {
    using V = bit::bit_vector<W, CA<W>>; constexpr size_t D = DIG<W>; int kind = (int)s.draw(4); size_t n = 200 * D + s.draw(3000 * D); if (kind == 3) n = 20 * D + s.draw(60 * D); size_t start = s.draw(3) ? 0 : s.draw(40 * D); size_t chunk = 1 + s.draw(D);
    static const char* K[] = {"push_back", "insert(end, n, value)", "resize by small steps", "insert(end, value)"};
    c.describe([&](auto& o) { o << wname<W>() << " " << K[kind] << " from " << start << " to about " << start + n << " bits, steps of " << chunk; }); c.label(K[kind]); c.nontrivial();
    V v(start, bit::bit1); nalloc() = nbytes() = 0; size_t end = start + n;
    while (v.size() < end) switch (kind) { case 0: v.push_back(bit::bit1); break; case 1: v.insert(v.end(), chunk, bit::bit1); break; case 2: v.resize(v.size() + chunk, bit::bit1); break; default: v.insert(v.end(), bit::bit1); }
    uint64_t w = v.size() / D + 1; int lg = 0; while ((1ull << lg) < w) ++lg;
    PBT_CHECK(nalloc() <= (uint64_t)(4 * lg + 8), K[kind] << " up to " << v.size() << " bits allocated " << nalloc() << " times");
    PBT_CHECK(v.capacity() <= 4 * v.size() + 64 * D, "capacity " << v.capacity() << " for " << v.size() << " bits");
    PBT_CHECK(bit::count(v.begin(), v.end(), bit::bit1) == (int64_t)v.size(), "content");
}
void growth(Source& s, Ctx& c) { with_word(s, [&](auto w) { growth_w<decltype(w)>(s, c); }); }

// ---- container operations: word accesses, counted by the allocator's pointer type
template <class X> struct Ptr {
    using element_type = X; using value_type = std::remove_cv_t<X>; using difference_type = std::ptrdiff_t; using pointer = X*; using reference = std::add_lvalue_reference_t<X>; using iterator_category = std::random_access_iterator_tag;
    template <class U> using rebind = Ptr<U>;
    X* p = nullptr; Ptr() = default; Ptr(std::nullptr_t) {} explicit Ptr(X* q) : p(q) {}
    template <class U, class = std::enable_if_t<std::is_convertible<U*, X*>::value>> Ptr(const Ptr<U>& o) : p(o.p) {}
    static Ptr pointer_to(reference r) { return Ptr(std::addressof(r)); }
    explicit operator bool() const { return p; }
    reference operator*() const { ++ticks(); return *p; } X* operator->() const { ++ticks(); return p; } reference operator[](difference_type n) const { ++ticks(); return p[n]; }
    Ptr& operator++() { ++p; return *this; } Ptr& operator--() { --p; return *this; } Ptr operator++(int) { Ptr t = *this; ++p; return t; } Ptr operator--(int) { Ptr t = *this; --p; return t; }
    Ptr& operator+=(difference_type n) { p += n; return *this; } Ptr& operator-=(difference_type n) { p -= n; return *this; }
    friend Ptr operator+(Ptr x, difference_type n) { x.p += n; return x; } friend Ptr operator+(difference_type n, Ptr x) { x.p += n; return x; } friend Ptr operator-(Ptr x, difference_type n) { x.p -= n; return x; }
    friend difference_type operator-(const Ptr& x, const Ptr& y) { return x.p - y.p; }
    friend bool operator==(const Ptr& x, const Ptr& y) { return x.p == y.p; } friend bool operator!=(const Ptr& x, const Ptr& y) { return x.p != y.p; } friend bool operator<(const Ptr& x, const Ptr& y) { return x.p < y.p; }
    friend bool operator>(const Ptr& x, const Ptr& y) { return x.p > y.p; } friend bool operator<=(const Ptr& x, const Ptr& y) { return x.p <= y.p; } friend bool operator>=(const Ptr& x, const Ptr& y) { return x.p >= y.p; }
};
template <class X> struct PA {
    using value_type = X; using pointer = Ptr<X>; using const_pointer = Ptr<const X>; using void_pointer = void*; using const_void_pointer = const void*; using size_type = size_t; using difference_type = ptrdiff_t; template <class U> struct rebind { using other = PA<U>; };
    PA() = default; template <class U> PA(const PA<U>&) {}
    Ptr<X> allocate(size_t n) { return Ptr<X>(static_cast<X*>(malloc(n * sizeof(X) + 1))); } void deallocate(Ptr<X> p, size_t) { free(p.p); }
    friend bool operator==(const PA&, const PA&) { return true; } friend bool operator!=(const PA&, const PA&) { return false; }
};
template <class W> void vec_w(Source& s, Ctx& c) {
    using V = bit::bit_vector<W, PA<W>>; constexpr size_t D = DIG<W>; size_t n = s.draw(3) ? s.draw(200 * D) : s.draw(20 * D); int op = (int)s.draw(14); size_t a = s.draw(n + 1), k = s.draw(3) ? s.draw(60 * D) : s.draw(2 * D); bool room = s.flag();
    static const char* K[] = {"construction of n equal bits", "construction from a range", "copy construction", "copy assignment", "move construction and assignment", "swap", "insert(pos, n, value)", "insert(pos, range)", "insert(pos, value)", "erase(range)", "erase(pos)", "resize", "reserve and shrink_to_fit", "element access", "push_back and pop_back"};
    if (op == 13 && s.flag()) op = 14;
    c.describe([&](auto& o) { o << wname<W>() << " " << K[op] << ": vector of " << n << " bits, position " << a << ", count " << k << (room ? ", capacity reserved" : ""); }); c.label(K[op]); c.nontrivial(n >= 32 * D);
    V v(n, s.flag() ? bit::bit1 : bit::bit0), w(k, bit::bit1); if (room) v.reserve(n + k + 1); uint64_t words = n / D + 1 + k / D + 1, bound = PER_WORD * words + CONST; ticks() = 0;
    switch (op) {
    case 0: { V x(n + k, bit::bit1); break; } case 1: { V x(v.begin() + a, v.end()); break; } case 2: { V x(v); break; } case 3: w = v; break;
    case 4: { V x(std::move(v)); w = std::move(x); bound = 64; break; } case 5: std::swap(v, w); bound = 64; break;
    case 6: v.insert(v.begin() + a, k, bit::bit1); break; case 7: v.insert(v.begin() + a, w.begin(), w.end()); break; case 8: v.insert(v.begin() + a, bit::bit1); break;
    case 9: { size_t b = a + (k < n - a ? k : n - a); v.erase(v.begin() + a, v.begin() + b); break; } case 10: if (a < n) v.erase(v.begin() + a); break;
    case 11: v.resize(room ? n + k : a, bit::bit1); break; case 12: v.reserve(n + k); v.shrink_to_fit(); break;
    case 13: { const V& x = v; size_t h = 0; if (n && a < n) { h += x[a] == bit::bit1; h += v[a] == bit::bit1; h += x.at(a) == bit::bit1; h += v.at(a) == bit::bit1; h += x.front() == bit::bit1; h += v.back() == bit::bit1; h += v.size() + x.capacity() + x.empty(); v[a] = bit::bit1; h += *(v.end() - 1) == bit::bit1; } (void)h; bound = 256; break; }
    default: for (size_t i = 0; i < k; ++i) v.push_back(bit::bit1); for (size_t i = 0; i < k; ++i) v.pop_back(); bound += 32 * k; }
    uint64_t t = ticks();
    if (getenv("PBT_COST")) { static double best[15]; if (words >= 20 && (double)t / bound > best[op]) { best[op] = (double)t / bound; fprintf(stderr, "COST %s %s %.2f of bound\n", wname<W>(), K[op], best[op]); } }
    PBT_CHECK(t <= bound, K[op] << " made " << t << " word accesses (vector of " << n << " bits, count " << k << ", " << words << " words)");
}
void vec(Source& s, Ctx& c) { if (s.flag()) vec_w<uint64_t>(s, c); else vec_w<uint32_t>(s, c); }
}
std::vector<Test> pbt::tests() { return { {"algs", algs, false, 60000, 2000000}, {"vec", vec, false, 60000, 2000000}, {"growth", growth, false, 1500, 40000} }; }
