SEEDS = [
dict(id='debug-position-narrow', property='C25',
 edits=[('bit-containers/bit_vector.hpp', '''    iterator mem = first;
    auto position = 0;''', '''    iterator mem = first;
    std::uint16_t position = 0;''')],
 needs='rendering a vector of more than 65536 bits',
 breaks='the separator in front of every 65536th bit is missing from the text',
 demo='''
int main() {
    bit::bit_vector<uint32_t> v(65536 + 40, bit::bit1);
    std::string s = v.debug_string();
    std::string want;
    for (size_t i = 0; i < v.size(); ++i) { if (i && i % 32 == 0) want += ' '; else if (i && i % 8 == 0) want += '.'; want += '1'; }
    REQ(s == want);
}'''),
dict(id='swap-mask-64', property='C30',
 edits=[('bit-iterator/bit_details.hpp', '''    constexpr T one = 1;
    const T msk = (len < digits)
        ? ((one << len) - one) << start : -1;''', '''    const T msk = (len < digits)
        ? static_cast<T>(((1ULL << len) - 1) << start) : -1;''')],
 needs='a program of operations on 128-bit words that swaps equally aligned ranges whose partial words need mask bits above bit 63',
 breaks='bits 64 and above of the partial words are not exchanged',
 flags='-std=gnu++17 -O1 -g',
 demo='''
int main() {
    typedef unsigned __int128 W;
    W a[2] = {~(W)0, ~(W)0}, b[2] = {0, 0};
    bit::swap_ranges(bit::bit_iterator<W*>(a, 40), bit::bit_iterator<W*>(a + 1, 100), bit::bit_iterator<W*>(b, 40));
    for (size_t i = 0; i < 256; ++i) REQ(get(b, i) == (i >= 40 && i < 228));
}'''),
dict(id='equal-head-mask-int', property='C30',
 edits=[('bit-algorithms/equal.hpp', '''        const word_type mask = static_cast<word_type>(
                (static_cast<word_type>(1) << partial_bits_to_check) - 1
        ) << d_first.position();''', '''        const word_type mask = static_cast<word_type>(
                (UINT64_C(1) << partial_bits_to_check) - 1
        ) << d_first.position();''')],
 needs='128-bit words, second range starting below position 64 of its word, difference at least 64 bits further in the same word',
 breaks='the difference is not noticed',
 flags='-std=gnu++17 -O0 -g',
 demo='''
int main() {
    typedef unsigned __int128 W;
    for (int d = 0; d < 128 - 7; ++d) {
        W a[2] = {0, 0}, b[2] = {0, 0};
        a[0] = (W)1 << d;
        REQ(!bit::equal(bit::bit_iterator<W*>(a, 0), bit::bit_iterator<W*>(a, 128 - 7), bit::bit_iterator<W*>(b, 7)));
    }
}'''),
dict(id='rotate-static-temp', property='C34',
 edits=[('bit-algorithms/rotate.hpp', '''        word_type temp = get_word<word_type>(first, k);
        bit_iterator<ForwardIt> new_last''', '''        static word_type temp;
        temp = get_word<word_type>(first, k);
        bit_iterator<ForwardIt> new_last''')],
 needs='two threads rotating unrelated ranges by less than a word at the same time',
 breaks='one thread writes the bits the other saved',
 libs=' -pthread',
 demo='''
#include <thread>
#include <atomic>
int main() {
    std::atomic<int> bad{0};
    auto run = [&](int t) {
        auto v = rnd<uint64_t>(400, t);
        std::vector<bool> m(400 * 64);
        for (size_t i = 0; i < m.size(); ++i) m[i] = get(v, i);
        for (int r = 0; r < 60; ++r) {
            size_t k = 1 + (r * 7 + t) % 63;
            bit::rotate(at(v, 3), at(v, 3 + k), at(v, 400 * 64 - 5));
            std::rotate(m.begin() + 3, m.begin() + 3 + k, m.end() - 5);
        }
        for (size_t i = 0; i < m.size(); ++i) if (m[i] != get(v, i)) ++bad;
    };
    for (int rep = 0; rep < 40 && !bad; ++rep) {
        std::vector<std::thread> ts;
        for (int t = 0; t < 8; ++t) ts.emplace_back(run, t);
        for (auto& t : ts) t.join();
    }
    REQ(bad == 0);
}'''),
dict(id='getword-static', property='C34',
 edits=[('bit-algorithms/bit_algorithm_details.hpp', '''    T ret_word = *first.base() >> first.position();

    // We've already assigned enough bits
    if (len <= offset) {
        return ret_word;
    }

    InputIt it''', '''    // We've already assigned enough bits
    if (len <= offset) {
        return *first.base() >> first.position();
    }

    static T ret_word;
    ret_word = *first.base() >> first.position();
    InputIt it''')],
 needs='two threads reading unaligned ranges of unrelated storage at the same time',
 breaks='the word assembled by one thread contains bits of the other',
 libs=' -pthread',
 demo='''
#include <thread>
#include <atomic>
int main() {
    std::atomic<int> bad{0};
    auto run = [&](int t) {
        auto v = rnd<uint64_t>(600, t);
        std::vector<uint64_t> d(600);
        for (int r = 0; r < 60; ++r) {
            size_t k = 1 + (r * 7 + t) % 63;
            bit::copy(at(v, k), at(v, 599 * 64 + k), at(d, 0));
            for (size_t i = 0; i < 599; ++i) if (d[i] != ((v[i] >> k) | (v[i + 1] << (64 - k)))) ++bad;
        }
    };
    for (int rep = 0; rep < 40 && !bad; ++rep) {
        std::vector<std::thread> ts;
        for (int t = 0; t < 8; ++t) ts.emplace_back(run, t);
        for (auto& t : ts) t.join();
    }
    REQ(bad == 0);
}'''),
dict(id='transform-clear-first', property='C35',
 edits=[('bit-algorithms/transform.hpp', '''        if (remaining_bits_to_op > 0) {
            *it = _bitblend(
                    *it,
                    unary_op(get_word<word_type>(first, remaining_bits_to_op)),
                    static_cast<word_type>(
                        (static_cast<word_type>(1) << remaining_bits_to_op) - 1)
            );
        }''', '''        if (remaining_bits_to_op > 0) {
            const word_type mask = static_cast<word_type>(
                    (static_cast<word_type>(1) << remaining_bits_to_op) - 1);
            const word_type argument = get_word<word_type>(first, remaining_bits_to_op);
            *it &= static_cast<word_type>(~mask);
            *it |= static_cast<word_type>(unary_op(argument) & mask);
        }''')],
 needs='the operation throws on the last partial word',
 breaks='the last bits of the destination are zeroed although the operation never produced a result',
 demo='''
int main() {
    std::vector<uint64_t> s{5, 6}, d{~0ull, ~0ull};
    int calls = 0;
    try {
        bit::transform(at(s, 0), at(s, 64 + 20), at(d, 0), [&](uint64_t w) -> uint64_t { if (++calls == 2) throw 1; return w; });
        return 2;
    } catch (int) {}
    REQ(d[1] == ~0ull);
}'''),
dict(id='resize-length-first', property='C28',
 edits=[('bit-containers/bit_vector.hpp', '''    word_vector.resize(word_count(count));
    length_ = count;
    if (length_ > old_length) {''', '''    length_ = count;
    word_vector.resize(word_count(count));
    if (length_ > old_length) {''')],
 needs='an allocation failure while a resize grows the vector',
 breaks='the size has already grown when std::bad_alloc reaches the caller',
 demo='''
static bool fail = false;
template <class T> struct A { typedef T value_type; A() {} template <class U> A(const A<U>&) {}
    T* allocate(size_t n) { if (fail) throw std::bad_alloc(); return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    bool operator==(const A&) const { return true; } bool operator!=(const A&) const { return false; } };
int main() {
    bit::bit_vector<uint16_t, A<uint16_t>> v(10, bit::bit1);
    fail = true;
    try { v.resize(1000, bit::bit1); return 2; } catch (const std::bad_alloc&) {}
    REQ(v.size() == 10);
}'''),
dict(id='equal-mixed-memcmp', property='C36',
 edits=[('bit-algorithms/equal.hpp', '''            bool found_mismatch = !::std::equal(first.base(), last.base(), it);''', '''            bool found_mismatch = false;
            if constexpr (::std::is_pointer<RandomAccessIt1>::value && !::std::is_pointer<RandomAccessIt2>::value) {
                const auto* lhs = reinterpret_cast<const unsigned char*>(first.base());
                const auto* rhs = reinterpret_cast<const unsigned char*>(&*it);
                found_mismatch = !::std::equal(lhs, lhs + N, rhs);
            } else {
                found_mismatch = !::std::equal(first.base(), last.base(), it);
            }''')],
 needs='comparing an aligned array range with an aligned range of a std::vector or bit_vector that differs only in later words',
 breaks='only the first eighth of the words (as bytes) is compared',
 demo='''
int main() {
    uint64_t a[4] = {1, 2, 3, 4};
    bit::bit_vector<uint64_t> v({uint64_t(1), uint64_t(2), uint64_t(3), uint64_t(5)});
    REQ(!bit::equal(bit::bit_iterator<uint64_t*>(a), bit::bit_iterator<uint64_t*>(a + 4), v.begin()));
}'''),
dict(id='copy-mixed-memcpy', property='C36',
 edits=[('bit-algorithms/copy.hpp', '''            it = ::std::copy(first.base(), last.base(), it);''', '''            if constexpr (::std::is_same<RandomAccessIt1, RandomAccessIt2>::value) {
                it = ::std::copy(first.base(), last.base(), it);
            } else {
                // different containers never overlap
                auto src = last.base();
                for (auto dst = it + N; src != first.base(); ) *--dst = *--src;
                it += N;
            }''')],
 needs='an overlapping copy toward the front between two kinds of views (pointer and vector iterator) of the same words',
 breaks='source words are overwritten before they are read',
 demo='''
int main() {
    std::vector<uint64_t> v{1, 2, 3, 4, 5, 6};
    bit::copy(bit::bit_iterator<uint64_t*>(v.data() + 1), bit::bit_iterator<uint64_t*>(v.data() + 6), bit::bit_iterator<std::vector<uint64_t>::iterator>(v.begin()));
    REQ((v == std::vector<uint64_t>{2, 3, 4, 5, 6, 6}));
}'''),
dict(id='erase-reallocates', property='C37',
 edits=[('bit-containers/bit_vector.hpp', '''    shift_left(first, end(), count);
    length_ -= count;
    word_vector.resize(word_count(length_));''', '''    shift_left(first, end(), count);
    length_ -= count;
    word_vector.resize(word_count(length_));
    if (word_vector.size() < word_vector.capacity() / 4) {
        word_vector.shrink_to_fit();
    }''')],
 needs='an erase that leaves less than a quarter of the capacity in use, with a handle to an element before the erased range',
 breaks='iterators, references and pointers before the erased range dangle',
 flags='-std=c++17 -O1 -g',
 demo='''
int main() {
    bit::bit_vector<uint32_t> v(1000, bit::bit1);
    const uint32_t* p = v.data();
    v.erase(v.begin() + 5, v.begin() + 990);
    REQ(v.data() == p);
}'''),
dict(id='pop-shrinks', property='C37',
 edits=[('bit-containers/bit_vector.hpp', '''    length_ -= 1;
    if (length_ % digits == 0) {
        word_vector.pop_back();
    }
    return;''', '''    length_ -= 1;
    if (length_ % digits == 0) {
        word_vector.pop_back();
        if (word_vector.capacity() > 16 && word_vector.size() == word_vector.capacity() / 4) {
            word_vector.shrink_to_fit();
        }
    }
    return;''')],
 needs='popping a vector down to a quarter of a capacity above 16 words while holding a handle to an earlier element',
 breaks='the handle dangles (and room obtained with reserve is given back)',
 demo='''
int main() {
    bit::bit_vector<uint8_t> v(400, bit::bit1);
    const uint8_t* p = v.data();
    while (v.size() > 8) v.pop_back();
    REQ(v.data() == p);
}'''),
dict(id='rotate-int-count', property='C27',
 edits=[('bit-algorithms/rotate.hpp', '''    difference_type k = n_first - first;
    difference_type n = last - first;''', '''    difference_type k = n_first - first;
    int n = last - first;''')
        , ('bit-algorithms/rotate.hpp', '''            n %= k;
            if (n == 0)
                return ret;
            std::swap(n, k);
            k = n - k;''', '''            n %= k;
            if (n == 0)
                return ret;
            difference_type old_k = k;
            k = old_k - n;
            n = old_k;''')
        , ('bit-algorithms/rotate.hpp', '''            n %= k;
            if (n == 0)
                return ret;
            std::swap(n, k);
        }''', '''            n %= k;
            if (n == 0)
                return ret;
            difference_type old_k = k;
            k = n;
            n = old_k;
        }''')],
 needs='rotating more than 2^31 bits with both parts longer than a word',
 breaks='the length wraps and the range is rotated wrongly',
 flags='-std=c++17 -O2 -g',
 demo='''
int main() {
    const size_t W = (1ull << 25) + 1000;              // 2^31 + 64000 bits
    std::vector<uint64_t> v(W, 0);
    v[0] = 1; v[W / 2] = 2; v[W - 1] = 4;
    auto r = bit::rotate(at(v, 0), at(v, 64 * 300), at(v, 64 * W));
    REQ(r - at(v, 0) == (std::ptrdiff_t)(64 * (W - 300)));
    REQ(v[W - 300] == 1); REQ(v[W / 2 - 300] == 2); REQ(v[W - 1 - 300] == 4);
}'''),
dict(id='move-assign-keeps-length', property='C23',
 edits=[('bit-containers/bit_vector.hpp', '''    length_ = other.length_;
    word_vector = std::move(other.word_vector);
    other.length_ = 0;
    return *this;''', '''    std::swap(length_, other.length_);
    word_vector = std::move(other.word_vector);
    return *this;''')],
 needs='using the source of a move assignment whose target was not empty',
 breaks='the source reports the old size of the target but has no storage',
 demo='''
int main() {
    bit::bit_vector<uint32_t> a(100, bit::bit1), b(70, bit::bit0);
    a = std::move(b);
    b.push_back(bit::bit1);
    REQ(b.size() * 1u <= b.capacity());
    REQ(b.size() == 1);
}'''),
dict(id='rotate-small-blocks', property='C33',
 edits=[('bit-algorithms/rotate.hpp', '''            if (k <= digits) {
                // BENCHMARK''', '''            if (k == digits) {
                // BENCHMARK''')],
 needs='a rotation whose block exchange (first part shorter) reduces to a remainder of less than one word while much of the range is left',
 breaks='the remainder is exchanged bit by bit over the rest of the range',
 demo='''
static uint64_t ticks = 0;
struct It {
    using value_type = uint64_t; using difference_type = std::ptrdiff_t; using pointer = uint64_t*; using reference = uint64_t&; using iterator_category = std::random_access_iterator_tag;
    uint64_t* p = nullptr;
    uint64_t& operator*() const { ++ticks; return *p; } uint64_t& operator[](difference_type n) const { ++ticks; return p[n]; }
    It& operator++() { ++p; return *this; } It& operator--() { --p; return *this; } It operator++(int) { It t = *this; ++p; return t; } It operator--(int) { It t = *this; --p; return t; }
    It& operator+=(difference_type n) { p += n; return *this; } It& operator-=(difference_type n) { p -= n; return *this; }
    friend It operator+(It x, difference_type n) { x.p += n; return x; } friend It operator-(It x, difference_type n) { x.p -= n; return x; }
    friend difference_type operator-(const It& x, const It& y) { return x.p - y.p; }
    friend bool operator==(const It& x, const It& y) { return x.p == y.p; } friend bool operator!=(const It& x, const It& y) { return x.p != y.p; } friend bool operator<(const It& x, const It& y) { return x.p < y.p; }
    friend bool operator>(const It& x, const It& y) { return x.p > y.p; } friend bool operator<=(const It& x, const It& y) { return x.p <= y.p; } friend bool operator>=(const It& x, const It& y) { return x.p >= y.p; }
};
int main() {
    const size_t D = 64, k = 3000 * D, n = 3 * k - 1;
    auto v = rnd<uint64_t>(n / D + 1, 5), w = v;
    typedef bit::bit_iterator<It> B;
    auto p = [&](size_t i) { return B(It{v.data() + i / D}, i % D); };
    ticks = 0;
    bit::rotate(p(0), p(k), p(n));
    uint64_t t = ticks;
    for (size_t i = 0; i < n; ++i) REQ(get(v, i) == get(w, (i + k) % n));
    REQ(t < 20 * v.size());
    return 0;
}'''),
dict(id='ref-assign-32', property='C18',
 edits=[('bit-iterator/bit_reference.hpp', '''    assert(pos < binary_digits<word_type>::value);
    val >> pos & 1 ? set() : reset();''', '''    assert(pos < binary_digits<word_type>::value);
    val & 1 << pos ? set() : reset();''')],
 needs='assigning from a position of 31 or more of a 64-bit word',
 breaks='a wrong bit is tested',
 flags='-std=c++17 -O0 -g',
 demo='''
int main() {
    for (size_t p = 0; p < 64; ++p) {
        uint64_t w = 0; bit::bit_reference<uint64_t> r(w, 3);
        r.assign(uint64_t(1) << p, p); REQ(w == 8);
        r.assign(~(uint64_t(1) << p), p); REQ(w == 0);
    }
}'''),
dict(id='stream-wide-lowbyte', property='C20',
 edits=[('bit-iterator/bit_reference.hpp', '''                if (traits_type::eq(char_value, is.widen(zero))) {
                    tmp.reset();''', '''                if (is.narrow(char_value, zero) == zero) {
                    tmp.reset();''')],
 needs='reading a reference from a wide stream whose next character has no narrow form',
 breaks='the character is consumed and read as 0',
 demo='''
#include <sstream>
int main() {
    std::wistringstream s(L"\\u0431");
    uint8_t w = 0xff; bit::bit_reference<uint8_t> r(w, 2);
    s >> r;
    REQ(s.fail()); REQ(w == 0xff);
}'''),
]
