SEEDS = [
dict(id='stream-clear-state', property='C20',
 edits=[('bit-iterator/bit_reference.hpp', '''    state ? is.setstate(state) : void();''', '''    state ? is.clear(state) : void();''')],
 needs='a stream buffer that throws while a bit reference is read',
 breaks='badbit set by the handler is overwritten: the stream looks merely failed',
 demo='''
struct B : std::streambuf { int_type underflow() override { throw 1; } };
int main() {
    B b; std::istream is(&b); is.unsetf(std::ios::skipws);
    uint8_t w = 1; bit::bit_reference<uint8_t> r(w, 0);
    is >> r;
    REQ(is.bad()); REQ(w == 1);
}'''),
dict(id='move-assign-into-capacity', property='C38',
 edits=[('bit-containers/bit_vector.hpp', '''    length_ = other.length_;
    word_vector = std::move(other.word_vector);
''', '''    length_ = other.length_;
    if (other.word_vector.size() * 8 < word_vector.capacity()) {
        word_vector.assign(other.word_vector.begin(), other.word_vector.begin() + length_ / digits);
        word_vector.resize(word_count(length_));
    } else {
        word_vector = std::move(other.word_vector);
    }
''')],
 needs='moving a short vector (with a partial last word) onto one with more than eight times its words, as when a std::vector of bit vectors of mixed lengths is sorted or has an element erased',
 breaks='the bits of the last partial word become zero',
 demo='''
#include <vector>
int main() {
    std::vector<bit::bit_vector<uint16_t>> v;
    v.emplace_back(500, bit::bit0); v.emplace_back(21, bit::bit1); v.emplace_back(37, bit::bit1);
    v.erase(v.begin());
    REQ(v[0].size() == 21); REQ(bit::count(v[0].begin(), v[0].end(), bit::bit1) == 21);
    REQ(v[1].size() == 37); REQ(bit::count(v[1].begin(), v[1].end(), bit::bit1) == 37);
}'''),
dict(id='addcarry-carry-in', property='C39',
 edits=[('bit-iterator/bit_details.hpp', '''    return carry ? *dst <= src0 || *dst <= src1 : *dst < src0 || *dst < src1;''', '''    return *dst < src0 || *dst < src1;''')],
 needs='adding with a carry when both operands are all ones, in the portable variant (also used for 128-bit words)',
 breaks='the carry out is lost',
 demo='''
#include <tuple>
int main() {
    uint32_t d = 0; unsigned char c = bit::_addcarry((unsigned char)1, ~0u, ~0u, &d, std::ignore);
    REQ(d == ~0u); REQ(c == 1);
}'''),
dict(id='lzcnt-portable-zero', property='C39',
 edits=[('bit-iterator/bit_details.hpp', '''    T dst = src != T();
    while (src >>= 1) {
        ++dst;
    }
    return digits - dst;''', '''    T dst = 1;
    while (src >>= 1) {
        ++dst;
    }
    return digits - dst;''')],
 needs='the portable leading zero count of a zero word (128-bit words, or without intrinsics)',
 breaks='one too few zeros',
 demo='''
#include <tuple>
int main() {
    REQ(bit::_lzcnt((uint8_t)0, std::ignore) == 8); REQ(bit::_lzcnt((uint8_t)1, std::ignore) == 7);
}'''),
dict(id='pext-all-positions', property='C39',
 edits=[('bit-iterator/bit_details.hpp', '''        if (msk & 1) {
            dst >>= 1;
            dst |= src << (digits - 1);
            ++cnt;
        }
        src >>= 1;
        msk >>= 1;''', '''        if (msk & 1) {
            dst >>= 1;
            dst |= src << (digits - 1);
            cnt += cnt < digits - 1;
        }
        src >>= 1;
        msk >>= 1;''')],
 needs='extracting with a mask of all ones',
 breaks='the result is shifted down by one bit',
 demo='''
#include <tuple>
int main() {
    REQ(bit::_pext((uint16_t)0x8421, (uint16_t)0x7fff, std::ignore) == 0x0421);
    REQ(bit::_pext((uint16_t)0x8421, (uint16_t)0xffff, std::ignore) == 0x8421);
}'''),
dict(id='erase-range-loop', property='C33',
 edits=[('bit-containers/bit_vector.hpp', '''    shift_left(first, end(), count);
    length_ -= count;
    word_vector.resize(word_count(length_));
    return begin() + d;''', '''    for (auto n = count; n > 0; n -= std::min<difference_type>(n, digits)) {
        shift_left(begin() + d, end(), std::min<difference_type>(n, digits));
        length_ -= std::min<difference_type>(n, digits);
    }
    word_vector.resize(word_count(length_));
    return begin() + d;''')],
 needs='erasing a long range from the front of a long vector',
 breaks='the tail is moved once per erased word: quadratic work',
 demo='''
#include <chrono>
int main() {
    bit::bit_vector<uint8_t> v(8000000, bit::bit1);
    auto t = std::chrono::steady_clock::now();
    v.erase(v.begin(), v.begin() + 4000000);
    double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
    REQ(v.size() == 4000000); REQ(s < 5);
}'''),
dict(id='debug-subrange-words', property='C25',
 edits=[('bit-containers/bit_vector.hpp', '''    const_iterator mem = first;
    auto position = 0;
    for (const_iterator it = first; it != last; ++it) {
        if (position % digits == 0 && position != 0) {''', '''    const_iterator mem = first;
    auto position = 0;
    for (const_iterator it = first; it != last; ++it) {
        if (it.position() == 0 && position != 0) {''')],
 needs='rendering a sub-range that does not start at a word boundary',
 breaks='the separator between words is put after fewer bits than a word, inside an 8-bit group',
 demo='''
int main() {
    bit::bit_vector<uint16_t> v(64, bit::bit1);
    std::string s = v.debug_string(v.cbegin() + 3, v.cbegin() + 35);
    REQ(s == "11111111.11111111 11111111.11111111");
}'''),
dict(id='copy-assign-no-propagate', property='C31',
 edits=[('bit-containers/bit_vector.hpp', '''        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;''', '''        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) {
            if (this != &other) {
                word_vector.assign(other.word_vector.begin(), other.word_vector.end());
                length_ = other.length_;
            }
            return *this;
        }''')],
 needs='copy assignment between vectors whose allocators differ and propagate on copy assignment',
 breaks='the target keeps its own allocator',
 demo='''
static int last = 0;
template <class T> struct A { using value_type = T; using propagate_on_container_copy_assignment = std::true_type; int id; A(int i = 0) : id(i) {} template <class U> A(const A<U>& o) : id(o.id) {}
  T* allocate(size_t n) { last = id; return (T*)std::malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { std::free(p); }
  bool operator==(const A& o) const { return id == o.id; } bool operator!=(const A& o) const { return id != o.id; } };
int main() {
    bit::bit_vector<uint8_t, A<uint8_t>> v(100, bit::bit1, A<uint8_t>(1)), w(20, bit::bit0, A<uint8_t>(2));
    w = v; last = 0; w.reserve(100000);
    REQ(w.size() == 100); REQ(last == 1);
}'''),
dict(id='fill-long-blocks', property='C03',
 edits=[('bit-algorithms/fill.hpp', '''        std::fill(it, last.base(), fill_word);
''', '''        if (std::distance(it, last.base()) > 4096) {
            for (; std::distance(it, last.base()) > 16; it += 16) {
                std::fill_n(it, 16, fill_word);
            }
            if (fill_word == 0 && std::distance(it, last.base()) == 16) {
                return;
            }
        }
        std::fill(it, last.base(), fill_word);
''')],
 needs='filling a range of more than 4096 words, a multiple of 16, with zeros',
 breaks='the last 16 words and the partial word after them are not cleared',
 demo='''
int main() {
    std::vector<uint8_t> w(16 * 400 + 1, 0xff);
    bit::fill(bit::bit_iterator<uint8_t*>(w.data()), bit::bit_iterator<uint8_t*>(w.data() + 16 * 400) + 3, bit::bit0);
    for (size_t i = 0; i < 6400; ++i) REQ(w[i] == 0);
    REQ(w[6400] == 0xf8);
}'''),
dict(id='shiftleft-aligned-count', property='C09',
 edits=[('bit-algorithms/shift.hpp', '''    if (n >= d) 
    {
        //bit::fill(first, last, bit::bit0);    
        return first;
    }
    auto middle = first + n;
''', '''    if (n >= d) 
    {
        //bit::fill(first, last, bit::bit0);    
        return first;
    }
    auto middle = first + n;
    if (n % digits == 0 && n > 2 * static_cast<difference_type>(digits) && d / n >= 16 && middle.base() < last.base()) {
        std::move(middle.base(), last.base(), first.base());
        if (!is_last_aligned) {
            write_word<word_type>(*last.base(), bit_iterator<RandomAccessIt>(last - n - last.position()), last.position());
        }
        return first + d - n;
    }
''')],
 needs='shifting left by three or more whole words a range at least sixteen times as long that does not start at a word boundary',
 breaks='the bits before the range in its first word are overwritten',
 demo='''
int main() {
    uint8_t w[80]; for (int i = 0; i < 80; ++i) w[i] = (uint8_t)(i * 37 + 1);
    uint8_t old = w[0];
    bit::shift_left(bit::bit_iterator<uint8_t*>(w, 3), bit::bit_iterator<uint8_t*>(w + 80), 24);
    REQ((w[0] & 7) == (old & 7)); REQ(w[1] == (uint8_t)(4 * 37 + 1));
}'''),
dict(id='find-pair-sum', property='C05',
 edits=[('bit-algorithms/find.hpp', '''    if (bv == bit1) {
        it = std::find_if(it, last.base(), [](word_type a) {return a != 0;});''', '''    if (bv == bit1) {
        for (; std::distance(it, last.base()) >= 2; it += 2) {
            if (static_cast<word_type>(*it + *std::next(it)) != 0) {
                break;
            }
        }
        it = std::find_if(it, last.base(), [](word_type a) {return a != 0;});''')],
 needs='searching for a one over whole words of which the first two that are not zero stand together and add up to zero modulo the word, such as two words with only the top bit',
 breaks='both words are passed over',
 demo='''
int main() {
    uint32_t w[8] = {0, 0, 0x80000000u, 0x80000000u, 0, 0, 0, 1}; const bit::bit_iterator<uint32_t*> f(w), l(w + 8);
    REQ(bit::find(f, l, bit::bit1) - f == 95);
}'''),
]
