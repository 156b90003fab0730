// C29: standard algorithms on bit iterators, against the same algorithms on bytes holding one bit each.
#include "bits.hpp"
#include <numeric>
#include <random>
using namespace pbt;
namespace {
struct Call { int alg; size_t n, k, k2; uint8_t v; size_t n2; };
enum { FIND, FIND_IF, COUNT, EQUAL, MISMATCH, SEARCH, SEARCH_N, FIND_END, ADJ, ANYALL, LEX, IS_SORTED, BOUNDS, MAXMIN, FIRST_OF, ACCUM, IS_PERM, FOREACH,
       COPY, COPY_BACK, COPY_IF, FILL, GENERATE, TRANS, TRANS2, REPLACE, REMOVE, UNIQUE, REVERSE, ROTATE, SWAPR, PARTITION, STABLE_PART, SORT, STABLE_SORT, PARTIAL_SORT, NTH, MERGE, INPLACE, HEAP, PERM, SHUFFLE, ITERSWAP, REVCOPY, ROTCOPY, UNIQCOPY, REMCOPY, SETOPS, PARTIALSUM, MOVE_, INSERTION, NALG };
const char* NAMES[] = {"find", "find_if", "count", "equal", "mismatch", "search", "search_n", "find_end", "adjacent_find", "any/all/none_of", "lexicographical_compare", "is_sorted_until", "lower/upper_bound", "max/min_element", "find_first_of", "accumulate/inner_product", "is_permutation", "for_each",
       "copy", "copy_backward", "copy_if", "fill/fill_n", "generate", "transform", "transform(2)", "replace", "remove", "unique", "reverse", "rotate", "swap_ranges", "partition", "stable_partition", "sort", "stable_sort", "partial_sort", "nth_element", "merge", "inplace_merge", "heap", "permutation", "shuffle", "iter_swap", "reverse_copy", "rotate_copy", "unique_copy", "remove_copy", "set operations", "partial_sum", "move/move_backward", "insertion sort by hand"};
// What the call returned (positions as offsets), and which positions of the first range are unspecified afterwards.
struct Res { std::vector<int64_t> r; size_t dlo = 0, dhi = 0; bool operator==(const Res& o) const { return r == o.r; } };
std::ostream& operator<<(std::ostream& o, const Res& r) { for (auto x : r.r) o << x << " "; return o; }
template <class T> T mk(uint8_t v);
template <> uint8_t mk<uint8_t>(uint8_t v) { return v; }
template <> bit::bit_value mk<bit::bit_value>(uint8_t v) { return v ? bit::bit1 : bit::bit0; }
// a: first range (n elements), b: second range, d: destination, disjoint.
template <class T, class It> Res run(const Call& q, It a, It b, It d) {
    using std::swap; Res R; It ae = a + q.n, be = b + q.n2; const T v = mk<T>(q.v), w = mk<T>(!q.v); auto& r = R.r;
    auto is = [&](const auto& x) { return (bool)x == (bool)q.v; };
    switch (q.alg) {
    case FIND: r = {std::find(a, ae, v) - a}; break;
    case FIND_IF: r = {std::find_if(a, ae, is) - a, std::find_if_not(a, ae, is) - a}; break;
    case COUNT: r = {std::count(a, ae, v), std::count_if(a, ae, is)}; break;
    case EQUAL: r = {std::equal(a, ae, b), std::equal(a, ae, b, be)}; break;
    case MISMATCH: { auto p = std::mismatch(a, ae, b, be); r = {p.first - a, p.second - b}; break; }
    case SEARCH: r = {std::search(a, ae, b, b + std::min<size_t>(q.k2, q.n2)) - a}; break;
    case SEARCH_N: r = {std::search_n(a, ae, q.k2 % 9, v) - a}; break;
    case FIND_END: r = {std::find_end(a, ae, b, b + std::min<size_t>(q.k2, q.n2)) - a}; break;
    case ADJ: r = {std::adjacent_find(a, ae) - a, std::adjacent_find(a, ae, [](const auto& x, const auto& y) { return (bool)x != (bool)y; }) - a}; break;
    case ANYALL: r = {std::any_of(a, ae, is), std::all_of(a, ae, is), std::none_of(a, ae, is)}; break;
    case LEX: r = {std::lexicographical_compare(a, ae, b, be), std::lexicographical_compare(b, be, a, ae)}; break;
    case IS_SORTED: r = {std::is_sorted_until(a, ae) - a, std::is_sorted(a, ae), std::is_heap_until(a, ae) - a}; break;
    case BOUNDS: { std::sort(a, ae); auto e = std::equal_range(a, ae, v); r = {std::lower_bound(a, ae, v) - a, std::upper_bound(a, ae, v) - a, std::binary_search(a, ae, v), e.first - a, e.second - a, std::partition_point(a, ae, [](const auto& x) { return !(bool)x; }) - a, std::is_partitioned(a, ae, [](const auto& x) { return !(bool)x; })}; break; }
    case MAXMIN: { r = {std::max_element(a, ae) - a, std::min_element(a, ae) - a}; auto p = std::minmax_element(a, ae); r.push_back(p.first - a); r.push_back(p.second - a); break; }
    case FIRST_OF: r = {std::find_first_of(a, ae, b, be) - a}; break;
    case ACCUM: r = {std::accumulate(a, ae, (int64_t)0, [](int64_t s, const auto& x) { return s * 3 % 1000003 + (bool)x; }), (int64_t)std::inner_product(a, ae, b, (int64_t)0, std::plus<int64_t>(), [](const auto& x, const auto& y) { return (int64_t)((bool)x && (bool)y); })}; break;
    case IS_PERM: r = {std::is_permutation(a, a + std::min<size_t>(q.n, 60), b)}; break;
    case FOREACH: std::for_each(a, ae, [](auto&& x) { x = (bool)x ? mk<T>(0) : mk<T>(1); }); break;
    case COPY: r = {std::copy(a, ae, d) - d, std::copy_n(b, q.n2 / 2, d + q.n / 2) - d}; break;
    case COPY_BACK: r = {std::copy_backward(a, a + (q.n - q.k), ae) - a}; break;       // overlapping, to the right
    case COPY_IF: r = {std::copy_if(a, ae, d, is) - d}; break;
    case FILL: std::fill(a, a + q.k, v); r = {std::fill_n(a + q.k, q.n - q.k, w) - a}; break;
    case GENERATE: { uint64_t s = q.k; auto g = [&] { s = mix64(s); return mk<T>(s & 1); }; std::generate(a, a + q.k, g); std::generate_n(a + q.k, q.n - q.k, g); break; }
    case TRANS: r = {std::transform(a, ae, d, [](const auto& x) { return (bool)x ? mk<T>(0) : mk<T>(1); }) - d}; break;
    case TRANS2: r = {std::transform(a, ae, b, d, [](const auto& x, const auto& y) { return ((bool)x != (bool)y) ? mk<T>(1) : mk<T>(0); }) - d}; break;
    case REPLACE: std::replace(a, a + q.k, v, w); std::replace_if(a + q.k, ae, is, w); r = {std::replace_copy(a, ae, d, v, w) - d}; break;
    case REMOVE: r = {(q.k & 1 ? std::remove(a, ae, v) : std::remove_if(a, ae, is)) - a}; R.dlo = r[0]; R.dhi = q.n; break;
    case UNIQUE: r = {std::unique(a, ae) - a}; R.dlo = r[0]; R.dhi = q.n; break;
    case REVERSE: std::reverse(a, ae); break;
    case ROTATE: r = {std::rotate(a, a + q.k, ae) - a}; break;
    case SWAPR: r = {std::swap_ranges(a, ae, b) - b}; break;
    case PARTITION: r = {std::partition(a, ae, is) - a}; break;
    case STABLE_PART: r = {std::stable_partition(a, ae, is) - a}; break;
    case SORT: if (q.k & 1) std::sort(a, ae); else std::sort(a, ae, [](const auto& x, const auto& y) { return (bool)x > (bool)y; }); break;
    case STABLE_SORT: std::stable_sort(a, ae); break;
    case PARTIAL_SORT: std::partial_sort(a, a + q.k, ae); r = {(int64_t)std::count(a, ae, v)}; R.dlo = q.k; R.dhi = q.n; break;
    case NTH: if (q.n) { size_t k = std::min(q.k, q.n - 1); std::nth_element(a, a + k, ae); r = {(bool)a[k], (int64_t)std::count(a, ae, v), std::none_of(a, a + k, [&](const auto& x) { return (bool)a[k] < (bool)x; }), std::none_of(a + k, ae, [&](const auto& x) { return (bool)x < (bool)a[k]; })}; R.dhi = q.n; } break;
    case MERGE: std::sort(a, ae); std::sort(b, be); r = {std::merge(a, ae, b, be, d) - d, std::includes(a, ae, b, be)}; break;
    case INPLACE: std::sort(a, a + q.k); std::sort(a + q.k, ae); std::inplace_merge(a, a + q.k, ae); break;
    case HEAP: std::make_heap(a, ae); r = {std::is_heap(a, ae), (int64_t)std::count(a, ae, v)}; if (q.n) { std::pop_heap(a, ae); r.push_back(std::is_heap(a, ae - 1)); r.push_back((bool)*(ae - 1)); std::push_heap(a, ae); r.push_back(std::is_heap(a, ae)); } std::sort_heap(a, ae); break;
    case PERM: r = {q.k & 1 ? std::next_permutation(a, ae) : std::prev_permutation(a, ae)}; break;
    case SHUFFLE: { std::minstd_rand g((unsigned)q.k + 1); std::shuffle(a, ae, g); r = {(int64_t)std::count(a, ae, v)}; R.dhi = q.n; break; }
    case ITERSWAP: for (size_t i = 0; i + 1 < q.n; i += 1 + q.k % 7) { std::iter_swap(a + i, a + (i + q.k) % q.n); swap(*(a + i), *(a + q.n - 1)); } break;
    case REVCOPY: r = {std::reverse_copy(a, ae, d) - d}; break;
    case ROTCOPY: r = {std::rotate_copy(a, a + q.k, ae, d) - d}; break;
    case UNIQCOPY: r = {std::unique_copy(a, ae, d) - d}; break;
    case REMCOPY: r = {std::remove_copy(a, ae, d, v) - d}; { auto p = std::partition_copy(b, be, d + q.n, a, is); r.push_back(p.first - d); r.push_back(p.second - a); } break;
    case SETOPS: std::sort(a, ae); std::sort(b, be); switch (q.k % 4) { case 0: r = {std::set_union(a, ae, b, be, d) - d}; break; case 1: r = {std::set_intersection(a, ae, b, be, d) - d}; break; case 2: r = {std::set_difference(a, ae, b, be, d) - d}; break; default: r = {std::set_symmetric_difference(a, ae, b, be, d) - d}; } break;
    case PARTIALSUM: r = {std::partial_sum(a, ae, d, [](const auto& x, const auto& y) { return ((bool)x != (bool)y) ? mk<T>(1) : mk<T>(0); }) - d}; break;
    case MOVE_: r = {std::move(a + q.k, ae, a) - a, std::move_backward(b, b + q.n2 / 2, be) - b}; break;        // overlapping
    case INSERTION: { size_t m = std::min<size_t>(q.n, 40); for (size_t i = 1; i < m; ++i) { T x = std::move(*(a + i)); size_t j = i; while (j > 0 && (bool)x < (bool)*(a + (j - 1))) { *(a + j) = std::move(*(a + (j - 1))); --j; } *(a + j) = x; } break; }
    }
    return R;
}
template <class W> void one(Source& s, Ctx& c, int alg, bool rev) {
    constexpr size_t D = DIG<W>; Call q; q.alg = alg;
    q.n = gen_len(s, D, 3, 40); q.n = std::min<size_t>(q.n, 20 * D + 5);
    q.n2 = s.draw(4) ? q.n : s.draw(q.n + 1); q.k = s.draw(q.n + 1); q.k2 = s.draw(12); q.v = (uint8_t)s.draw(2);
    if (alg == REMCOPY || alg == MOVE_) q.n2 = std::min(q.n2, q.n);
    size_t off[3], len[3] = {q.n, q.n, 2 * q.n + q.n2}; Buf<W> x[3];
    for (int i = 0; i < 3; ++i) { off[i] = gen_off(s, D) + D * s.draw(2); x[i].init(gen_words<W>(s, (off[i] + len[i] + D - 1) / D + (off[i] % D && !len[i])), gen_align(s)); }
    if (s.draw(4) == 0) for (size_t i = 0; i < q.n; ++i) { uint8_t b = x[0].m[off[0] + i] ^ (i == q.k); size_t t = off[1] + i; x[1].m[t] = b; W& w = x[1].st.data()[t / D]; w = (W)((w & ~((W)1 << (t % D))) | ((W)b << (t % D))); }   // nearly equal
    c.describe([&](auto& o) { o << wname<W>() << (rev ? " reversed " : " ") << "std::" << NAMES[alg] << " n=" << q.n << " n2=" << q.n2 << " k=" << q.k << "," << q.k2 << " v=" << (int)q.v << " at bits " << off[0] << "," << off[1] << "," << off[2] << " " << x[0].show() << x[1].show(); });
    c.label(NAMES[alg]); c.label("reverse iterators", rev); c.nontrivial(crosses(D, off[0], q.n) || shares(D, off[0], q.n));
    Res got, want; size_t dlo, dhi;
    uint8_t* p[3]; for (int i = 0; i < 3; ++i) p[i] = x[i].m.data() + off[i];
    if (!rev) {
        got = run<bit::bit_value>(q, x[0].at(off[0]), x[1].at(off[1]), x[2].at(off[2]));
        want = run<uint8_t>(q, p[0], p[1], p[2]); dlo = off[0] + want.dlo; dhi = off[0] + want.dhi;
    } else {
        auto rb = [&](int i) { return std::make_reverse_iterator(x[i].at(off[i] + len[i])); }; auto rm = [&](int i) { return std::make_reverse_iterator(p[i] + len[i]); };
        got = run<bit::bit_value>(q, rb(0), rb(1), rb(2)); want = run<uint8_t>(q, rm(0), rm(1), rm(2)); dlo = off[0] + q.n - want.dhi; dhi = off[0] + q.n - want.dlo;
    }
    PBT_CHECK(got == want, "std::" << NAMES[alg] << " returned " << got << ", on booleans " << want);
    x[0].compare("first range", dlo, dhi); x[1].compare("second range"); x[2].compare("destination");
}
void algs(Source& s, Ctx& c) { int a = (int)s.draw(NALG); with_word(s, [&](auto w) { one<decltype(w)>(s, c, a, false); }); }
void reversed(Source& s, Ctx& c) { int a = (int)s.draw(NALG); with_word(s, [&](auto w) { one<decltype(w)>(s, c, a, true); }); }
// Every algorithm on every content of a short range that straddles a byte boundary.
void algs_all(Source& s, Ctx& c) {
    Call q; q.alg = (int)s.draw(NALG); q.n = s.draw(6); size_t off = 5; q.k = s.draw(q.n + 1); q.n2 = q.n; q.v = (uint8_t)s.draw(2); uint64_t bits = s.draw(1u << q.n); q.k2 = q.k; s.ready();
    Buf<uint8_t> x[3]; Expand e(bits * 7 + q.n);
    for (int i = 0; i < 3; ++i) { std::vector<uint8_t> w(4); for (auto& y : w) y = (uint8_t)e.next(); if (i == 0) for (size_t j = 0; j < q.n; ++j) { size_t t = off + j; w[t / 8] = (uint8_t)((w[t / 8] & ~(1 << (t % 8))) | (((bits >> j) & 1) << (t % 8))); } x[i].init(w, 0); }
    c.describe([&](auto& o) { o << "u8 std::" << NAMES[q.alg] << " n=" << q.n << " k=" << q.k << " v=" << (int)q.v << " at bit " << off << " " << x[0].show() << x[1].show(); }); c.nontrivial(q.n > 3);
    auto got = run<bit::bit_value>(q, x[0].at(off), x[1].at(off), x[2].at(off)); auto want = run<uint8_t>(q, x[0].m.data() + off, x[1].m.data() + off, x[2].m.data() + off);
    PBT_CHECK(got == want, "std::" << NAMES[q.alg] << " returned " << got << ", on booleans " << want);
    x[0].compare("first range", off + want.dlo, off + want.dhi); x[1].compare("second range"); x[2].compare("destination");
}
}
std::vector<Test> pbt::tests() { return { {"algs", algs, false, 150000, 4000000}, {"reversed", reversed, false, 80000, 2000000}, {"algs_all", algs_all, true, 1, 1} }; }
