SEEDS = [
dict(id='within-exact-next-word', property='C40',
 edits=[('bit-algorithms/bit_algorithm_details.hpp', '''                   && (static_cast<int>(first.position()) + remainder_bits - digits >= static_cast<int>(last.position()))''', '''                   && (static_cast<int>(first.position()) + remainder_bits - digits > static_cast<int>(last.position()))''')],
 needs='is_within<N> with a range of exactly N bits that ends in the word after its first one',
 breaks='says that N bits are not within N bits',
 demo='''
int main() {
    uint16_t w[3] = {};
    bit::bit_iterator<uint16_t*> f(w, 6), l(w + 1, 3);
    REQ(bit::distance(f, l) == 13);
    REQ(bit::is_within<13>(f, l)); REQ(bit::is_within<14>(f, l)); REQ(!bit::is_within<12>(f, l));
}'''),
dict(id='overload-retry-lvalues', property='C41',
 edits=[('bit-iterator/linear_overload.hpp', '''    return operator()<N + 1>(std::forward<Args>(args)...);''', '''    return operator()<N + 1>(args...);''')],
 needs='an rvalue argument that the first function of the set does not accept',
 breaks='the function that accepts it is given an lvalue: it copies where it should move, or another function is chosen',
 demo='''
#include "bitlib/bit-iterator/linear_overload.hpp"
#include <string>
int main() {
    int which = 0;
    auto o = bit::overload_linearly([&](int) { which = 1; }, [&](std::string& s) { which = 2; s.clear(); }, [&](const std::string&) { which = 3; });
    o(std::string("abc"));
    REQ(which == 3);
}'''),
dict(id='overload-maker-decay', property='C41',
 edits=[('bit-iterator/linear_overload.hpp', '''    template <class... G>
    friend constexpr linear_overload<G...> overload_linearly(G&&... g);''', '''    template <class... G>
    friend constexpr linear_overload<typename std::decay<G>::type...> overload_linearly(G&&... g);'''),
        ('bit-iterator/linear_overload.hpp', '''constexpr linear_overload<G...> overload_linearly(G&&... g)
{
    return linear_overload<G...>(std::forward<G>(g)...);''', '''constexpr linear_overload<typename std::decay<G>::type...> overload_linearly(G&&... g)
{
    return linear_overload<typename std::decay<G>::type...>(std::forward<G>(g)...);''')],
 needs='a named function object whose state changes when it is called',
 breaks='a copy of it is called instead',
 demo='''
#include "bitlib/bit-iterator/linear_overload.hpp"
int main() {
    struct Count { int n = 0; void operator()(int) { ++n; } } c;
    auto o = bit::overload_linearly([]() {}, c);
    o(1); o(2); o();
    REQ(c.n == 2);
}'''),
]
SEEDS += [
dict(id='erase-keeps-words', property='C26',
 edits=[('bit-containers/bit_vector.hpp', '''    shift_left(first, end(), count);
    length_ -= count;
    word_vector.resize(word_count(length_));
    return begin() + d;''', '''    shift_left(first, end(), count);
    length_ -= count;
    return begin() + d;''')],
 needs='erasing a long range, then shrink_to_fit or a copy',
 breaks='storage of the removed bits is never given back',
 demo='''
int main() {
    bit::bit_vector<uint8_t> v(8000, bit::bit1);
    v.erase(v.begin() + 3, v.end() - 2);
    v.shrink_to_fit();
    REQ(v.size() == 5); REQ(v.capacity() < 1000);
}'''),
]
