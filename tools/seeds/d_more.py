A = '''
template <class T> struct A { typedef T value_type; int id = 0; A(int i = 0) : id(i) {} template <class U> A(const A<U>& o) : id(o.id) {}
    static int& allocs() { static int n = 0; return n; }
    T* allocate(size_t n) { ++allocs(); return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    bool operator==(const A& o) const { return id == o.id; } bool operator!=(const A& o) const { return id != o.id; } };
'''
SEEDS = [
dict(id='resize-zero-stale', property='C21',
 edits=[('bit-containers/bit_vector.hpp', '''    length_ = count;
    if (length_ > old_length) {''', '''    length_ = count;
    if (length_ > old_length && (value == bit1 || length_ - old_length < digits)) {''')],
 needs='growing with zeros by a word or more after a shrink left ones behind in the last word',
 breaks='new elements in the last partial word read as one',
 demo='''
int main() {
    bit::bit_vector<uint16_t> v(30, bit::bit1);
    v.resize(20); v.resize(60);
    for (size_t i = 20; i < 60; ++i) REQ(v[i] == bit::bit0);
}'''),
dict(id='resize-exact-reserve', property='C33',
 edits=[('bit-containers/bit_vector.hpp', '''    word_vector.resize(word_count(count));
    length_ = count;''', '''    word_vector.reserve(word_count(count));
    word_vector.resize(word_count(count));
    length_ = count;''')],
 needs='growing by many small resizes',
 breaks='every resize that needs another word reallocates: growth is quadratic',
 demo=A + '''
int main() {
    bit::bit_vector<uint64_t, A<uint64_t>> v;
    for (int i = 0; i < 4000; ++i) v.resize(v.size() + 64);
    REQ(A<uint64_t>::allocs() < 100);
}'''),
dict(id='push-rollback-bad-alloc-only', property='C35',
 edits=[('bit-containers/bit_vector.hpp', '''    if (this->word_vector.size()*digits == length_) {
        word_vector.push_back(0U);
    }
    begin()[length_] = value;
    length_ += 1;
    return;''', '''    length_ += 1;
    if (this->word_vector.size()*digits < length_) {
        try {
            word_vector.push_back(0U);
        } catch (const std::bad_alloc&) {
            length_ -= 1;
            throw;
        }
    }
    begin()[length_ - 1] = value;
    return;''')],
 needs='an allocator that reports failure with an exception of another type',
 breaks='the size has grown although the element was not added',
 demo='''
static bool fail = false;
struct Quota {};
template <class T> struct B { typedef T value_type; B() {} template <class U> B(const B<U>&) {}
    T* allocate(size_t n) { if (fail) throw Quota(); return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    bool operator==(const B&) const { return true; } bool operator!=(const B&) const { return false; } };
int main() {
    bit::bit_vector<uint8_t, B<uint8_t>> v(16, bit::bit1);
    v.shrink_to_fit();
    fail = true;
    bool thrown = false;
    try { for (int i = 0; i < 100; ++i) v.push_back(bit::bit0); } catch (Quota) { thrown = true; }
    REQ(thrown); REQ(v.size() % 8 == 0);
}'''),
dict(id='resize-copy-swap', property='C37',
 edits=[('bit-containers/bit_vector.hpp', '''    auto old_length = length_;
    word_vector.resize(word_count(count));''', '''    auto old_length = length_;
    if (count < length_ && word_count(count) < word_vector.size()) {
        std::vector<WordType, Allocator> words(word_vector.begin(), word_vector.begin() + word_count(count), word_vector.get_allocator());
        word_vector.swap(words);
    }
    word_vector.resize(word_count(count));''')],
 needs='a handle to an element that stays when a resize removes whole words behind it',
 breaks='the handle dangles',
 demo='''
int main() {
    bit::bit_vector<uint32_t> v(300, bit::bit1);
    const uint32_t* p = v.data();
    v.resize(40);
    REQ(v.data() == p);
}'''),
dict(id='copybackward-one-word-left', property='C02',
 edits=[('bit-algorithms/copy_backward.hpp', '''        if (is_last_aligned && remaining_bits_to_copy > digits) {''', '''        if (is_last_aligned && remaining_bits_to_copy >= digits && first.base() != last.base()) {''')],
 needs='', breaks='', demo='int main() { return 0; }'),
dict(id='ptr-diff-unsigned', property='C17',
 edits=[('bit-iterator/bit_pointer.hpp', '''    const difference_type main = lhs._ref.address() - rhs._ref.address();
    return main * digits + (lhs._ref.position() - rhs._ref.position());''', '''    const difference_type main = lhs._ref.address() - rhs._ref.address();
    return main * digits + static_cast<unsigned>(lhs._ref.position() - rhs._ref.position());''')],
 needs='difference of pointers of which the left one has the smaller position in its word',
 breaks='the difference is off by 2^32',
 demo='''
int main() {
    std::vector<uint32_t> v(4);
    bit::bit_iterator<uint32_t*> b(v.data());
    REQ(&b[40] - &b[15] == 25); REQ(&b[3] - &b[5] == -2);
}'''),
dict(id='iter-order-positions', property='C16',
 edits=[('bit-iterator/bit_iterator.hpp', '''    return lhs._current > rhs._current
        || (lhs._current == rhs._current && lhs._position > rhs._position);''', '''    const auto words = lhs._current - rhs._current;
    constexpr auto digits = binary_digits<typename bit_iterator<T>::word_type>::value;
    return static_cast<int>(words * digits + lhs._position - rhs._position) > 0;''')],
 needs='comparing positions more than 2^31 bits apart with >',
 breaks='the order is reversed',
 demo='''
int main() {
    uint64_t* p = (uint64_t*)0x10000000;
    bit::bit_iterator<uint64_t*> a(p), b(p + (1ull << 25) + 5);
    REQ(b > a); REQ(!(a > b));
}'''),
dict(id='count-zero-int', property='C27',
 edits=[('bit-algorithms/count.hpp', '''        result = std::distance(first, last) - result;''', '''        result = static_cast<difference_type>(std::distance(first, last) - static_cast<unsigned>(result)) & 0xffffffff;''')],
 needs='counting zeros of more than 2^32 bits',
 breaks='the count wraps',
 flags='-std=c++17 -O2',
 demo='''
int main() {
    std::vector<uint64_t> v((1ull << 26) + 3, 0);
    REQ(bit::count(at(v, 0), at(v, v.size() * 64), bit::bit0) == (std::ptrdiff_t)(v.size() * 64));
}'''),
dict(id='fill-words-int', property='C27',
 edits=[('bit-algorithms/fill.hpp', '''    if (distance(first, last) == 0) {
        return;
    }''', '''    const int n = distance(first, last);
    if (n == 0) {
        return;
    }''')],
 needs='filling a multiple of 2^32 bits',
 breaks='nothing is filled',
 flags='-std=c++17 -O2',
 demo='''
int main() {
    std::vector<uint64_t> v((1ull << 26), 0);
    bit::fill(at(v, 0), at(v, v.size() * 64), bit::bit1);
    REQ(v[0] == ~0ull); REQ(v.back() == ~0ull);
}'''),
dict(id='reverse-iter-arrow', property='C16',
 edits=[('bit-iterator/bit_iterator.hpp', '''    return pointer(&*_current, _position);''', '''    return pointer(&*_current, _position & 31);''')],
 needs='member access through an iterator (or reverse_iterator) at a position above 31 of a 64-bit word',
 breaks='a bit in the lower half of the word is accessed',
 demo='''
int main() {
    std::vector<uint64_t> v{1ull << 40};
    REQ(at(v, 40)->position() == 40);
}'''),
dict(id='string-nul', property='C22',
 edits=[('bit-containers/bit_vector.hpp', '''    for (char c : s) {
        if (c == '0') {''', '''    for (char c : s) {
        if (c == '\\0') {
            break;
        }
        if (c == '0') {''')],
 needs='a string view with an embedded NUL character',
 breaks='bits behind the NUL are zero',
 demo='''
int main() {
    bit::bit_vector<uint32_t> v(std::string_view("10\\0" "11", 5));
    REQ(v.size() == 4); REQ(v[2] == bit::bit1); REQ(v[3] == bit::bit1);
}'''),
]
SEEDS = [s for s in SEEDS if s['demo'].strip() != 'int main() { return 0; }']
