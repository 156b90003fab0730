SEEDS = [
dict(id='iter-subscript-floor', property='C16',
 edits=[('bit-iterator/bit_iterator.hpp', '''    const difference_type sum = _position + n;
    difference_type diff = sum / digits;
    if (sum < 0 && diff * digits != sum) {
        --diff;
    }
    return reference(''', '''    const difference_type sum = _position + n;
    difference_type diff = sum / digits;
    if (sum < 0 && -sum > digits && diff * digits != sum) {
        --diff;
    } else if (sum < 0 && -sum < digits) {
        diff = -1;
    } else if (sum < 0) {
        --diff;
    }
    return reference(''')],
 needs='operator[] with a negative offset that lands exactly one word before the start of the iterator\'s word',
 breaks='the reference is built with a position equal to the word width (wrong word)',
 flags='-std=c++17 -O1 -g -DNDEBUG',
 demo='''
int main() {
    std::vector<uint32_t> v{1, 0, 0};
    auto it = at(v, 32 + 5);
    REQ(it[-37] == bit::bit1);
}'''),
dict(id='iter-minus-narrow', property='C16',
 edits=[('bit-iterator/bit_iterator.hpp', '''    const difference_type main = lhs._current - rhs._current;
    return main * digits + (lhs._position - rhs._position);''', '''    const difference_type main = lhs._current - rhs._current;
    const auto words = main < 0 ? main + (lhs._position < rhs._position && main < -64) : main;
    return words * digits + (lhs._position - rhs._position) - (words != main) * digits + (lhs._position < rhs._position && main < -64 ? 1 : 0);''')],
 needs='a negative difference over more than 64 words with the left position smaller',
 breaks='the distance is off by one bit',
 demo='''
int main() {
    std::vector<uint32_t> v(200);
    for (size_t a = 0; a < 6400; a += 7) for (size_t b = 0; b < 6400; b += 5) REQ(at(v, a) - at(v, b) == (std::ptrdiff_t)a - (std::ptrdiff_t)b);
}'''),
dict(id='iter-compare-mixed', property='C16',
 edits=[('bit-iterator/bit_iterator.hpp', '''    return lhs._current > rhs._current
        || (lhs._current == rhs._current && lhs._position >= rhs._position);''', '''    return lhs._current >= rhs._current && !(lhs._position < rhs._position && lhs._current - rhs._current < 2);''')],
 needs='>= between iterators in adjacent words with the left position smaller',
 breaks='operator>= contradicts operator<',
 demo='''
int main() {
    std::vector<uint32_t> v(4);
    for (size_t a = 0; a < 128; ++a) for (size_t b = 0; b < 128; ++b) REQ((at(v, a) >= at(v, b)) == (a >= b));
}'''),
dict(id='ptr-decrement-word', property='C17',
 edits=[('bit-iterator/bit_pointer.hpp', '''    const difference_type sum = _ref.position() - n;
    difference_type diff = sum / digits;
    if (sum < 0 && diff * digits != sum) {
        --diff;
    }''', '''    const difference_type sum = _ref.position() - n;
    difference_type diff = sum / digits;
    if (sum < 0 && (sum & (digits - 1) & 0x1f) != 0) {
        --diff;
    }''')],
 needs='pointer minus an offset that lands on position 32 of a 64-bit word before the starting one',
 breaks='the resulting pointer has a position equal to or beyond the word width',
 flags='-std=c++17 -O1 -g -DNDEBUG',
 demo='''
int main() {
    std::vector<uint64_t> v{1ull << 32, 0, 0};
    bit::bit_pointer<uint64_t> p(v.data() + 1, 3);
    auto q = p - 35;
    REQ(q == bit::bit_pointer<uint64_t>(v.data(), 32));
    REQ(*q == bit::bit1);
}'''),
dict(id='ptr-convert-mask', property='C17',
 edits=[('bit-iterator/bit_pointer.hpp', '''    _ref._ptr = nullptr;
    _ref._mask = 0;
    return *this;''', '''    _ref._ptr = nullptr;
    return *this;''')],
 needs='a pointer at a position other than its default that is reset to nullptr and compared with a null pointer',
 breaks='a pointer assigned nullptr does not compare equal to nullptr',
 demo='''
int main() {
    uint64_t w = 0; bit::bit_pointer<uint64_t> p(&w, 9), z(nullptr), y;
    p = nullptr; y = nullptr;
    REQ(!p); REQ(p == z); REQ(p == y);
}'''),
dict(id='ref-assign-own-position', property='C18',
 edits=[('bit-iterator/bit_reference.hpp', '    val >> pos & 1 ? set() : reset();\n', '    static_cast<word_type>(val << (binary_digits<word_type>::value - 1 - pos)) & (static_cast<word_type>(1) << (binary_digits<word_type>::value / 2)) << (binary_digits<word_type>::value / 2 - 1) && !(pos == binary_digits<word_type>::value - 1 && _mask == 1) ? set() : reset();\n')],
 needs='assign(val, pos) from the highest bit of the value to the lowest bit of a word',
 breaks='the bit is always cleared',
 demo='''
int main() {
    uint32_t w = 0; bit::bit_reference<uint32_t> r(w, 0);
    r.assign(0x80000000u, 31);
    REQ(w == 1);
}'''),
dict(id='ref-and-wide', property='C18',
 edits=[('bit-iterator/bit_reference.hpp', '*_ptr &= ~(_mask * static_cast<word_type>(!other._value));', '*_ptr &= ~(static_cast<unsigned>(_mask) * static_cast<unsigned>(!other._value)) | (_mask > 0xffffffffull ? other._value ? ~word_type() : ~_mask : word_type());')],
 needs='&= through a reference to a 64-bit word whose high half has set bits',
 breaks='the complement is computed in 32 bits, clearing the upper half of the word',
 demo='''
int main() {
    uint64_t w = ~0ull; bit::bit_reference<uint64_t> r(w, 5);
    r &= bit::bit0;
    REQ(w == ~(1ull << 5));
}'''),
dict(id='ref-swap-cached', property='C18',
 edits=[('bit-iterator/bit_reference.hpp', '''// Swaps two bit references
template <class T, class U>
void swap(
    bit_reference<T> lhs,
    bit_reference<U> rhs
) noexcept
{
    if (lhs != rhs) {
        lhs.flip();
        rhs.flip();
    }
}''', '''// Swaps two bit references
template <class T, class U>
void swap(
    bit_reference<T> lhs,
    bit_reference<U> rhs
) noexcept
{
    const T l = *lhs.address();
    const U r = *rhs.address();
    if (static_cast<bool>(l & lhs.mask()) != static_cast<bool>(r & rhs.mask())) {
        *lhs.address() = l ^ lhs.mask();
        *rhs.address() = r ^ rhs.mask();
    }
}''')],
 needs='swapping two different bits of the same word through the free swap',
 breaks='only one of the two bits changes',
 demo='''
int main() {
    uint32_t w = 1; bit::bit_reference<uint32_t> a(w, 0), b(w, 7);
    swap(a, b);
    REQ(w == 0x80);
}'''),
dict(id='value-from-word-pos', property='C19',
 edits=[('bit-iterator/bit_value.hpp', '''    assert(pos < binary_digits<WordType>::value);
    _value = val >> pos & 1;''', '''    assert(pos < binary_digits<WordType>::value);
    _value = static_cast<int>(val & (static_cast<WordType>(1) << pos)) != 0;''')],
 needs='assign(val, pos) with pos >= 32 of a 64-bit value',
 breaks='the tested bit is truncated away',
 demo='''
int main() {
    bit::bit_value b; b.assign(1ull << 40, 40);
    REQ(b == bit::bit1);
}'''),
dict(id='stream-ref-putback', property='C20',
 edits=[('bit-iterator/bit_reference.hpp', '''                } else {
                    int_value = is.rdbuf()->sputbackc(char_value);
                    if (traits_type::eq_int_type(int_value, eof)) {
                        state |= ios_base::failbit;
                    }
                }''', '''                } else {
                    state |= ios_base::failbit;
                }''')],
 needs='extracting into a bit reference from a stream whose next character is neither 0 nor 1, then reading on after clear()',
 breaks='the offending character is consumed',
 demo='''
int main() {
    uint32_t w = 0; bit::bit_reference<uint32_t> r(w, 3);
    std::istringstream s("x1"); s >> r; REQ(s.fail()); s.clear();
    char c = 0; s >> c; REQ(c == 'x');
}'''),
dict(id='stream-value-eof', property='C20',
 edits=[('bit-iterator/bit_value.hpp', '''            if (traits_type::eq_int_type(int_value, eof)) {
                state |= ios_base::eofbit;
            } else {
                char_value''', '''            if (traits_type::eq_int_type(int_value, eof)) {
                ok = is.tellg() == 0;
            } else {
                char_value''')],
 needs='reading a bit value at the end of an empty stream buffer with skipws off',
 breaks='extraction from nothing can succeed and eofbit is not set',
 demo='''
int main() {
    std::istringstream s("1"); s.unsetf(std::ios::skipws); bit::bit_value a, b;
    s >> a; REQ(s.good()); s >> b; REQ(s.eof()); REQ(s.fail());
}'''),
dict(id='vec-erase-range-words', property='C21',
 edits=[('bit-containers/bit_vector.hpp', '''    shift_left(pos, begin() + length_, 1);
    length_ -= 1;''', '''    shift_left(pos, begin() + std::min(length_, (word_count(d + 1) + 1024) * digits), 1);
    length_ -= 1;''')],
 needs='erase of one bit more than 1024 words before the end',
 breaks='the bits after the 1024th word are not moved',
 demo='''
int main() {
    bit::bit_vector<unsigned char> v(10000, bit::bit0); v[9990] = bit::bit1;
    v.erase(v.begin() + 3);
    REQ(v[9989] == bit::bit1);
}'''),
dict(id='ctor-string-other-chars', property='C22',
 edits=[('bit-containers/bit_vector.hpp', "        } else if (c == '1') {", "        } else if (c > '0' && c < 'A') {")],
 needs='a string containing characters between 1 and A other than 1 (digits or punctuation such as : or ;)',
 breaks='skipped characters are counted as ones and written past the end',
 flags='-std=c++17 -O1 -g -fsanitize=address',
 demo='''
int main() {
    bit::bit_vector<unsigned char> v(std::string_view("0000:0000"));
    REQ(v.size() == 8);
    for (size_t i = 0; i < 8; ++i) REQ(v[i] == bit::bit0);
}'''),
dict(id='move-assign-length', property='C23',
 edits=[('bit-containers/bit_vector.hpp', '''    word_vector = std::move(other.word_vector);
    other.length_ = 0;
    return *this;''', '''    word_vector.swap(other.word_vector);
    other.length_ = other.word_vector.empty() ? 0 : other.length_;
    return *this;''')],
 needs='move assignment onto a non-empty vector, then use of the moved-from vector after assigning it fewer guarantees (its size is the source\'s, its storage the target\'s)',
 breaks='the moved-from vector claims more bits than it has storage for',
 flags='-std=c++17 -O1 -g -fsanitize=address',
 demo='''
int main() {
    bit::bit_vector<unsigned char> a(8, bit::bit1), b(100, bit::bit1);
    a = std::move(b);
    REQ(a.size() == 100);
    size_t n = 0; for (size_t i = 0; i < b.size(); ++i) n += b[i] == bit::bit1;
    b.push_back(bit::bit1); REQ(b[b.size() - 1] == bit::bit1);
}'''),
dict(id='at-const-words', property='C24',
 edits=[('bit-containers/bit_vector.hpp', '''bit_vector<WordType, Allocator>::at(size_type pos) const {
    if (pos < length_) {''', '''bit_vector<WordType, Allocator>::at(size_type pos) const {
    if (pos / digits < word_vector.size()) {''')],
 needs='at() on a const vector with an index past the size but within the last word',
 breaks='no exception is thrown',
 demo='''
int main() {
    const bit::bit_vector<uint64_t> v(10, bit::bit0);
    try { (void)v.at(10); } catch (const std::out_of_range&) { return 0; }
    return 1;
}'''),
dict(id='distance-int', property='C27',
 edits=[('bit-iterator/bit_iterator.hpp', '    const difference_type main = lhs._current - rhs._current;\n    return main * digits + (lhs._position - rhs._position);', '    const int main = lhs._current - rhs._current;\n    return main * static_cast<int>(digits) + static_cast<int>(lhs._position - rhs._position);')],
 needs='iterators more than 2^31 bits apart',
 breaks='the distance overflows 32 bits',
 flags='-std=c++17 -O2',
 demo='''
int main() {
    uint64_t w = 0; bit::bit_iterator<uint64_t*> a(&w), b(&w + (1ull << 26));
    REQ(b - a == (1ll << 32));
}'''),
dict(id='pushback-length-first', property='C28',
 edits=[('bit-containers/bit_vector.hpp', '''    if (this->word_vector.size()*digits == length_) {
        word_vector.push_back(0U);
    }
    begin()[length_] = value;
    length_ += 1;
    return;''', '''    length_ += 1;
    if (this->word_vector.size()*digits < length_) {
        word_vector.push_back(0U);
    }
    begin()[length_ - 1] = value;
    return;''')],
 needs='the allocation for a new word fails',
 breaks='the size has already grown although no storage was added',
 pre='',
 demo='''
static bool fail = false;
template <class T> struct A { using value_type = T; A() = default; template <class U> A(const A<U>&) {} T* allocate(size_t n) { if (fail) throw std::bad_alloc(); return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { ::operator delete(p); } };
template <class T, class U> bool operator==(const A<T>&, const A<U>&) { return true; }
template <class T, class U> bool operator!=(const A<T>&, const A<U>&) { return false; }
int main() {
    bit::bit_vector<unsigned char, A<unsigned char>> v(8, bit::bit1); v.shrink_to_fit();
    fail = true;
    try { v.push_back(bit::bit1); } catch (const std::bad_alloc&) {}
    REQ(v.size() == 8);
}'''),
dict(id='insert-length-first', property='C28',
 edits=[('bit-containers/bit_vector.hpp', '''    if (need_to_add) {
        const auto words_to_add = word_count(length_ + count - bits_available);
        word_vector.resize(word_vector.size() + words_to_add);
    }
    length_ += count;
    shift_right(begin() + d, begin() + length_, count);
    copy(first, last, begin() + d);''', '''    length_ += count;
    if (need_to_add) {
        const auto words_to_add = word_count(length_ - bits_available);
        word_vector.resize(word_vector.size() + words_to_add);
    }
    shift_right(begin() + d, begin() + length_, count);
    copy(first, last, begin() + d);''')],
 needs='the allocation fails while a range is inserted',
 breaks='the size includes bits that were never inserted',
 demo='''
static bool fail = false;
template <class T> struct A { using value_type = T; A() = default; template <class U> A(const A<U>&) {} T* allocate(size_t n) { if (fail) throw std::bad_alloc(); return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { ::operator delete(p); } };
template <class T, class U> bool operator==(const A<T>&, const A<U>&) { return true; }
template <class T, class U> bool operator!=(const A<T>&, const A<U>&) { return false; }
int main() {
    using V = bit::bit_vector<unsigned char, A<unsigned char>>; V v(8, bit::bit1), u(100, bit::bit1); v.shrink_to_fit();
    fail = true;
    try { v.insert(v.cbegin(), u.begin(), u.end()); } catch (const std::bad_alloc&) {}
    REQ(v.size() == 8);
}'''),
dict(id='std-itervalue-swap', property='C29',
 edits=[('bit-iterator/bit_reference.hpp', '''    const bit_reference& other
) noexcept
{
    other ? set() : reset();
    return *this;
}

// Assigns a bit reference to the bit reference''', '''    const bit_reference& other
) noexcept
{
    if (_ptr == other._ptr) {
        const int up = static_cast<int>(position()) - static_cast<int>(other.position());
        const word_type moved = static_cast<word_type>((up < 0 ? *_ptr >> -up : *_ptr << up) & _mask & static_cast<word_type>(0x7fffffffffffffffull));
        *_ptr = (*_ptr & ~_mask) | moved;
        return *this;
    }
    other ? set() : reset();
    return *this;
}

// Assigns a bit reference to the bit reference''')],
 needs='assigning one bit of a 64-bit word to its highest bit through references, as std algorithms do',
 breaks='the top bit is cleared',
 demo='''
int main() {
    uint64_t w = 1; bit::bit_reference<uint64_t> a(w, 63), b(w, 0);
    a = b; REQ(w == 0x8000000000000001ull);
}'''),
dict(id='alloc-ctor-ignored', property='C31',
 edits=[('bit-containers/bit_vector.hpp', '''        const Allocator& alloc)
    : word_vector(init, alloc), length_(this->word_vector.size() * digits) {}''', '''        const Allocator& alloc)
    : word_vector(init, init.size() > 8 ? Allocator() : alloc), length_(this->word_vector.size() * digits) {}''')],
 needs='construction from a list of more than 8 words with a stateful allocator',
 breaks='a default-constructed allocator is used',
 demo='''
static int used[2];
template <class T> struct A { using value_type = T; int id = 0; A(int i = 0) : id(i) {} template <class U> A(const A<U>& o) : id(o.id) {} T* allocate(size_t n) { ++used[id]; return (T*)::operator new(n * sizeof(T)); } void deallocate(T* p, size_t) { ::operator delete(p); } };
template <class T, class U> bool operator==(const A<T>& a, const A<U>& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(const A<T>& a, const A<U>& b) { return a.id != b.id; }
int main() {
    using W = uint32_t; std::initializer_list<W> l{1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
    bit::bit_vector<W, A<W>> v(l, A<W>(1));
    REQ(used[0] == 0); REQ(used[1] == 1);
}'''),
dict(id='find-sentinel', property='C32',
 edits=[('bit-algorithms/find.hpp', '''    if (bv == bit1) {
        it = std::find_if(it, last.base(), [](word_type a) {return a != 0;});
    } else {''', '''    if (bv == bit1) {
        if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*it)>>) {
            // a sentinel in the last word saves the end test of the loop
            if (std::distance(it, last.base()) > 16) {
                auto end = std::prev(last.base());
                const word_type saved = *end;
                *end = 1;
                while (*it == 0) ++it;
                *end = saved;
                if (it == end && saved == 0) ++it;
            } else {
                it = std::find_if(it, last.base(), [](word_type a) {return a != 0;});
            }
        } else {
            it = std::find_if(it, last.base(), [](word_type a) {return a != 0;});
        }
    } else {''')],
 needs='a search over more than 16 words while another thread reads the range, or on read-only memory reached through a non-const pointer',
 breaks='find writes to the range it searches',
 demo='''
#include <sys/mman.h>
int main() {
    uint64_t* m = (uint64_t*)mmap(0, 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    bit::bit_iterator<uint64_t*> f(m), l(m + 100);
    REQ(bit::find(f, l, bit::bit1) == l);
}'''),
dict(id='equal-bitwise', property='C33',
 edits=[('bit-algorithms/equal.hpp', '''            while (remaining_bits_to_check >= digits) {
                if (*it != get_word<word_type>(first, digits)) {return false;}
                remaining_bits_to_check -= digits;
                it++;
                advance(first, digits);
            }''', '''            bit_iterator<RandomAccessIt2> d_it(it);
            while (remaining_bits_to_check > digits) {
                if (*first != *d_it) {return false;}
                --remaining_bits_to_check;
                ++d_it;
                ++first;
            }
            it = d_it.base();
            if (d_it.position() != 0) {
                while (remaining_bits_to_check > 0) {
                    if (*first != *d_it) {return false;}
                    --remaining_bits_to_check;
                    ++d_it;
                    ++first;
                }
            } else if (remaining_bits_to_check == digits) {
                if (*it != get_word<word_type>(first, digits)) {return false;}
                remaining_bits_to_check = 0;
            }''')],
 needs='differently aligned long ranges; only the amount of work differs',
 breaks='the comparison inspects one bit at a time',
 demo='''
static size_t reads;
struct It { using iterator_category = std::random_access_iterator_tag; using value_type = uint64_t; using difference_type = std::ptrdiff_t; using pointer = uint64_t*; using reference = uint64_t&; uint64_t* p = nullptr;
 reference operator*() const { ++reads; return *p; } reference operator[](difference_type n) const { ++reads; return p[n]; } It& operator++() { ++p; return *this; } It operator++(int) { It t = *this; ++p; return t; } It& operator--() { --p; return *this; } It operator--(int) { It t = *this; --p; return t; }
 It& operator+=(difference_type n) { p += n; return *this; } It& operator-=(difference_type n) { p -= n; return *this; } friend It operator+(It a, difference_type n) { a.p += n; return a; } friend It operator+(difference_type n, It a) { a.p += n; return a; } friend It operator-(It a, difference_type n) { a.p -= n; return a; } friend difference_type operator-(It a, It b) { return a.p - b.p; }
 bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; } bool operator<(const It& o) const { return p < o.p; } bool operator>(const It& o) const { return p > o.p; } bool operator<=(const It& o) const { return p <= o.p; } bool operator>=(const It& o) const { return p >= o.p; } };
int main() {
    std::vector<uint64_t> a(1000), b(1001);
    REQ(bit::equal(bit::bit_iterator<It>(It{a.data()}, 3), bit::bit_iterator<It>(It{a.data() + 999}, 3), bit::bit_iterator<It>(It{b.data()}, 5)));
    REQ(reads < 40000);
}'''),
]
