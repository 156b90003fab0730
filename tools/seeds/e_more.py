SEEDS = [
dict(id='copy-assign-partial', property='C23',
 edits=[('bit-containers/bit_vector.hpp', '''        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;''', '''        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) {
            if (word_vector.size() == other.word_vector.size() && length_ > other.length_ && this != &other) {
                std::copy_n(other.word_vector.begin(), other.length_ / digits, word_vector.begin());
                length_ = other.length_;
            } else {
                word_vector = other.word_vector;
                length_ = other.length_;
            }
            return *this;
        }''')],
 needs='assigning a slightly shorter vector with the same number of words to a longer one',
 breaks='the bits of the last partial word keep their old values',
 demo='''
int main() {
    bit::bit_vector<uint32_t> a(60, bit::bit1), b(50, bit::bit0);
    a = b;
    REQ(a.size() == 50);
    for (size_t i = 0; i < 50; ++i) REQ(a[i] == bit::bit0);
}'''),
dict(id='at-empty-wrap', property='C24',
 edits=[('bit-containers/bit_vector.hpp', '''bit_vector<WordType, Allocator>::at(size_type pos) const {
    if (pos < length_) {''', '''bit_vector<WordType, Allocator>::at(size_type pos) const {
    if (pos <= length_ - 1) {''')],
 needs='at() on an empty constant vector',
 breaks='no exception is thrown and storage that does not exist is read',
 demo='''
int main() {
    bit::bit_vector<uint32_t> v(10); v.reserve(100); v.clear();
    const auto& c = v; bool thrown = false;
    try { auto r = c.at(0); (void)r; } catch (const std::out_of_range&) { thrown = true; }
    REQ(thrown);
}'''),
dict(id='pushback-exact-reserve', property='C26',
 edits=[('bit-containers/bit_vector.hpp', '''    if (this->word_vector.size()*digits == length_) {
        word_vector.push_back(0U);
    }
    begin()[length_] = value;''', '''    if (this->word_vector.size()*digits == length_) {
        if (word_vector.size() >= 64) {
            word_vector.reserve(word_vector.size() + 1);
        }
        word_vector.push_back(0U);
    }
    begin()[length_] = value;''')],
 needs='more than 64 words of push_back',
 breaks='every further word pushed relocates the whole storage',
 demo='''
int main() {
    bit::bit_vector<uint8_t> v; int moves = 0; const uint8_t* p = nullptr; size_t last = 0;
    for (int i = 0; i < 16384; ++i) { v.push_back(bit::bit1); if (v.capacity() != last) { ++moves; last = v.capacity(); } p = v.data(); }
    (void)p;
    REQ(moves < 60);
}'''),
dict(id='value-assign-wide', property='C19',
 edits=[('bit-iterator/bit_value.hpp', '''    assert(pos < binary_digits<WordType>::value);
    _value = val >> pos & 1;
    return *this;''', '''    assert(pos < binary_digits<WordType>::value);
    _value = static_cast<unsigned int>(val) >> (pos & 31) & 1;
    return *this;''')],
 needs='assigning from a bit at position 32 or above of a 64-bit word',
 breaks='another bit of the word is taken',
 demo='''
int main() {
    bit::bit_value v; v.assign(uint64_t(1) << 40, 40); REQ((bool)v);
}'''),
dict(id='insert-copy-swap', property='C26',
 edits=[('bit-containers/bit_vector.hpp', '''    if (need_to_add) {
        const auto words_to_add = word_count(length_ + count - bits_available);
        word_vector.resize(word_vector.size() + words_to_add);
    }
    length_ += count;
    shift_right(begin() + d, begin() + length_, count);
    copy(first, last, begin() + d);''', '''    if (need_to_add) {
        const auto words_to_add = word_count(length_ + count - bits_available);
        auto grown = word_vector;
        grown.resize(word_vector.size() + words_to_add);
        word_vector.swap(grown);
    }
    length_ += count;
    shift_right(begin() + d, begin() + length_, count);
    copy(first, last, begin() + d);''')],
 needs='inserting a range into a vector with reserved capacity',
 breaks='the storage is relocated although the capacity suffices',
 demo='''
int main() {
    bit::bit_vector<uint32_t> v(100), o(100, bit::bit1); v.reserve(10000);
    auto p = v.data(); v.insert(v.begin() + 50, o.begin(), o.end());
    REQ(v.data() == p);
}'''),
dict(id='popcnt-static-cache', property='C34',
 edits=[('bit-algorithms/count.hpp', '''template<class RandomAccessIt>
constexpr typename bit_iterator<RandomAccessIt>::difference_type
count(''', '''template<class RandomAccessIt>
RandomAccessIt& _count_end() {
    static RandomAccessIt end{};
    return end;
}

template<class RandomAccessIt>
constexpr typename bit_iterator<RandomAccessIt>::difference_type
count('''),
        ('bit-algorithms/count.hpp', '''    difference_type result = 0;
    if (first == last) return result;''', '''    auto& cached = _count_end<RandomAccessIt>();
    difference_type result = 0;
    if (first == last) return result;
    cached = last.base();'''),
        ('bit-algorithms/count.hpp', '''            word_type last_value = *last.base() << (digits - last.position());''', '''            word_type last_value = *cached << (digits - last.position());''')],
 needs='two threads counting at the same time',
 breaks='one thread uses the end of the other thread\'s range',
 flags='-std=c++17 -O1 -g -pthread', libs=' -pthread',
 demo='''
#include <thread>
#include <atomic>
int main() {
    std::vector<uint64_t> a(3, ~0ull), b(3, 0); std::atomic<int> bad{0};
    auto f = [&](std::vector<uint64_t>& v, long want) { for (int i = 0; i < 3000000; ++i) if (bit::count(at(v, 3), at(v, 150), bit::bit1) != want) { ++bad; break; } };
    std::thread x([&] { f(a, 147); }), y([&] { f(b, 0); }); x.join(); y.join();
    REQ(bad == 0);
}'''),
dict(id='equal-tail-32', property='C06',
 edits=[('bit-algorithms/equal.hpp', '''            const word_type mask = static_cast<word_type>(
                    (static_cast<word_type>(1) << remaining_bits_to_check) - 1
            );
            const word_type comp''', '''            const word_type mask = static_cast<word_type>(
                    (1u << (remaining_bits_to_check % 32)) - 1
            );
            const word_type comp''')],
 needs='64-bit words, ranges whose last word has at least 32 bits, that differ only there above the low bits',
 breaks='ranges that differ are reported equal',
 demo='''
int main() {
    std::vector<uint64_t> a(3, 0), b(3, 0); b[2] = 1ull << 37;
    REQ(!bit::equal(at(a, 0), at(a, 128 + 45), at(b, 0)));
}'''),
dict(id='shiftleft-simd-limit', property='C15',
 edits=[('bit-algorithms/shift.hpp', '''    while (std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + 10 + !is_last_aligned)''', '''    while (std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + (hn::Lanes(d_tag) <= 16 ? 10 + !is_last_aligned : 0))''')],
 needs='SIMD build for vectors of 32 bytes or more, 8-bit words, a left shift whose source words are consumed exactly by whole vectors',
 breaks='the word after the range is read and the returned iterator is too far',
 flags='-std=c++17 -O1 -g -march=haswell -maes -DBITLIB_HWY',
 demo='''
int main() {
    for (size_t w = 30; w < 150; ++w) for (size_t k = 1; k < 30; ++k) {
        auto v = rnd<unsigned char>(200, w * 31 + k), o = v; size_t n = w * 8; auto r = bit::shift_left(at(v, 0), at(v, n), k);
        REQ(r - at(v, 0) == (long)(n - k));
        for (size_t i = 0; i + k < n; ++i) REQ(get(v, i) == get(o, i + k));
        for (size_t i = n; i < 1600; ++i) REQ(get(v, i) == get(o, i));
    }
}'''),
dict(id='bitvector-from-range-partial', property='C36',
 edits=[('bit-algorithms/copy.hpp', '''    size_type total_bits_to_copy = distance(first, last);
    size_type remaining_bits_to_copy = total_bits_to_copy;
    auto it = d_first.base();
''', '''    size_type total_bits_to_copy = distance(first, last);
    size_type remaining_bits_to_copy = total_bits_to_copy;
    auto it = d_first.base();
    if constexpr (!::std::is_same<RandomAccessIt1, RandomAccessIt2>::value) {
        // sources of another kind never overlap: copy whole words first
        if (is_d_first_aligned && first.position() == 0 && last.position() == 0) {
            for (auto k = ::std::distance(first.base(), last.base()); k-- > 0;) {
                *(it + k) = *(first.base() + k);
            }
            return d_first + total_bits_to_copy;
        }
    }
''')],
 needs='copying whole words to the left within the same words, seen through two kinds of iterator',
 breaks='overlapping words are overwritten before they are read',
 demo='''
int main() {
    auto v = rnd<uint32_t>(20); auto w = v;
    bit::bit_iterator<std::vector<uint32_t>::iterator> f(v.begin() + 4), l(v.end());
    bit::copy(f, l, at(v, 0));
    for (size_t i = 0; i < 16 * 32; ++i) REQ(get(v, i) == get(w, i + 128));
}'''),
dict(id='copybackward-head-words', property='C02',
 edits=[('bit-algorithms/copy_backward.hpp', '''            auto N = ::std::distance(first.base(), last.base()) - 1;
            it = ::std::copy_backward(first.base() + 1, last.base(), it);''', '''            auto N = ::std::distance(first.base(), last.base()) - 1;
            if (N > 8) {
                for (auto k = N; k > 0; --k) {
                    *(it - k) = *(last.base() - k);
                }
                it -= N;
            } else {
                it = ::std::copy_backward(first.base() + 1, last.base(), it);
            }''')],
 needs='an overlapping word-aligned backward copy of more than eight words to the right',
 breaks='source words are overwritten before they are read',
 demo='''
int main() {
    auto v = rnd<uint32_t>(40); auto w = v;
    bit::copy_backward(at(v, 5), at(v, 32 * 30), at(v, 32 * 32));
    for (size_t i = 5; i < 960; ++i) REQ(get(v, i + 64) == get(w, i));
}'''),
dict(id='ptr-plus-floor', property='C17',
 edits=[('bit-iterator/bit_pointer.hpp', '''    const difference_type sum = _ref.position() - n;
    difference_type diff = sum / digits;
    if (sum < 0 && diff * digits != sum) {
        --diff;
    }''', '''    const difference_type sum = _ref.position() - n;
    difference_type diff = sum / digits;
    if (sum < 0 && sum % digits <= -digits / 2) {
        --diff;
    } else if (sum < 0 && sum % digits) {
        diff = -((digits - 1 - sum) / digits);
    }
    if (diff < -65536) {
        diff = sum / digits;
    }''')],
 needs='subtracting an offset of more than 65536 words that crosses a word boundary',
 breaks='the resulting pointer has a position outside its word',
 demo='''
int main() {
    std::vector<uint8_t> v(100000); bit::bit_pointer<uint8_t> e(v.data() + 99999, 2);
    auto p = e - 799989;
    REQ((*p).address() == v.data() + 0); REQ((*p).position() == 5);
}'''),
]
SEEDS = [s for s in SEEDS if s['demo'].strip() != 'int main() { return 0; }']
