SEEDS = [
dict(id='copy-narrow-count', property='C01',
 edits=[('bit-algorithms/copy.hpp', 'auto N = ::std::distance(first.base(), last.base());', 'const unsigned short N = ::std::distance(first.base(), last.base());')],
 needs='aligned copy of at least 65536 words',
 breaks='the number of words copied is kept in 16 bits; a long copy then copies words again at a wrong place',
 demo='''
int main() {
    auto v = rnd<unsigned char>(70000, 3), d = rnd<unsigned char>(140010, 5), o = d;
    bit::copy(at(v, 0), at(v, 69990 * 8 + 3), at(d, 8));
    for (size_t i = 0; i < d.size() * 8; ++i) REQ(get(d, i) == (i >= 8 && i < 8 + 69990 * 8 + 3 ? get(v, i - 8) : get(o, i)));
}'''),
dict(id='copybackward-aligned-overlap', property='C02',
 edits=[('bit-algorithms/copy_backward.hpp', 'it = ::std::copy_backward(first.base() + 1, last.base(), it);', '''it -= N;
            for (::std::ptrdiff_t k = 0; k < N; ++k) {
                *::std::next(it, k) = *::std::next(first.base(), k + 1);
            }''')],
 needs='source and destination ends word-aligned, overlapping with the destination after the source, more than one word long',
 breaks='words are copied front to back, so a backward copy within one buffer duplicates words',
 demo='''
int main() {
    auto v = rnd<uint64_t>(10, 3), o = v;
    bit::copy_backward(at(v, 64), at(v, 384), at(v, 448));
    for (size_t i = 0; i < 320; ++i) REQ(get(v, 128 + i) == get(o, 64 + i));
}'''),
dict(id='count-avx-tail', property='C04',
 edits=[('bit-algorithms/libpopcnt.h', 'i = size - size % 32;', 'i = size - size % 64;')],
 needs='a whole-word part of at least 512 bytes whose size modulo 64 is 32 or more, on a CPU with AVX2',
 breaks='a 32-byte block is counted twice',
 demo='''
int main() {
    auto v = rnd<uint64_t>(70, 3); size_t e = 0;
    for (size_t i = 0; i < 70 * 64; ++i) e += get(v, i);
    REQ((size_t)bit::count(at(v, 0), at(v, 70 * 64), bit::bit1) == e);
}'''),
dict(id='equal-memcmp', property='C06',
 edits=[('bit-algorithms/equal.hpp', 'bool found_mismatch = !::std::equal(first.base(), last.base(), it);', 'bool found_mismatch = ::std::memcmp(&*first.base(), &*it, N > 1024 ? N : N * static_cast<decltype(N)>(sizeof(word_type))) != 0;'),
        ('bit-algorithms/equal.hpp', '#include <type_traits>\n', '#include <type_traits>\n#include <cstring>\n')],
 needs='both ranges aligned, more than 1024 words wider than a byte, difference only in the later part',
 breaks='long ranges compare only a fraction of their words',
 demo='''
int main() {
    auto v = rnd<uint64_t>(2000, 3), o = v; o[1500] ^= 4;
    REQ(!bit::equal(at(v, 0), at(v, 128000), at(o, 0)));
}'''),
dict(id='equal-partial-start', property='C06',
 edits=[('bit-algorithms/equal.hpp', '                (static_cast<word_type>(1) << partial_bits_to_check) - 1\n        ) << d_first.position();', '                (static_cast<word_type>(1) << (partial_bits_to_check - (remaining_bits_to_check < digits && partial_bits_to_check == remaining_bits_to_check && partial_bits_to_check > digits / 2 ? 1 : 0))) - 1\n        ) << d_first.position();')],
 needs='the second range starts unaligned and ends in its first word, spans more than half of it, differs only in its last bit',
 breaks='the last bit is not compared',
 demo='''
int main() {
    std::vector<uint64_t> v{0, 0}, o{0, 0}; o[0] = 1ull << 43;
    REQ(!bit::equal(at(v, 0), at(v, 41), at(o, 3)));
}'''),
dict(id='reverse-last-word', property='C07',
 edits=[('bit-algorithms/reverse.hpp', '''        // Blend bits of the last element
        if (!is_last_aligned) {''', '''        // Blend bits of the last element
        if (!is_last_aligned && !(is_first_aligned && gap == digits / 2)) {''')],
 needs='aligned start, end in the middle of a word, more than one word',
 breaks='the bits after the end of the range are overwritten',
 demo='''
int main() {
    auto v = rnd<uint32_t>(5, 3), o = v;
    bit::reverse(at(v, 0), at(v, 112));
    for (size_t i = 0; i < 160; ++i) REQ(get(v, i) == (i < 112 ? get(o, 111 - i) : get(o, i)));
}'''),
dict(id='rotate-one-word', property='C08',
 edits=[('bit-algorithms/rotate.hpp', '''                rotated,
                first.position(),
                d
''', '''                rotated,
                first.position(),
                k == p ? digits - first.position() : d
''')],
 needs='first and last inside one word, first unaligned or last unaligned, pivot exactly in the middle',
 breaks='bits of the word after the range are changed',
 demo='''
int main() {
    std::vector<uint64_t> v{~0ull};
    bit::rotate(at(v, 4), at(v, 9), at(v, 14));
    REQ(v[0] == ~0ull);
}'''),
dict(id='shiftleft-one-word', property='C09',
 edits=[('bit-algorithms/shift.hpp', '''                )) >> n,
                first.position(),
                (is_last_aligned ? digits : last.position()) - first.position()''', '''                )) >> n,
                first.position(),
                (is_last_aligned || n >= digits / 2 ? digits : last.position()) - first.position()''')],
 needs='a range inside one word that ends inside it, shifted by at least half a word',
 breaks='bits after the range are cleared',
 demo='''
int main() {
    std::vector<uint64_t> v{~0ull};
    bit::shift_left(at(v, 2), at(v, 50), 40);
    for (size_t i = 50; i < 64; ++i) REQ(get(v, i));
}'''),
dict(id='shiftright-one-word', property='C10',
 edits=[('bit-algorithms/shift.hpp', '''                ) << n,
                first.position(),
                (is_last_aligned ? digits : last.position()) - first.position()''', '''                ) << n,
                first.position(),
                (is_last_aligned || 2 * n > d ? digits : last.position()) - first.position()''')],
 needs='a range inside one word, shifted by more than half of its length',
 breaks='bits after the range change',
 demo='''
int main() {
    std::vector<uint64_t> v{0x3ff};
    bit::shift_right(at(v, 2), at(v, 10), 6);
    for (size_t i = 10; i < 64; ++i) REQ(!get(v, i));
}'''),
dict(id='swap-same-word-cached', property='C11',
 edits=[('bit-iterator/bit_details.hpp', '''    if (start0 >= start1) {
        src0 = src0 ^ (''', '''    if (start0 == start1) {
        const T diff = (src0 ^ src1) & static_cast<T>(msk << start0);
        src0 ^= diff;
        src1 ^= diff;
    } else if (start0 > start1) {
        const T diff = (src0 ^ static_cast<T>(src1 << (start0 - start1))) & static_cast<T>(msk << start0);
        const T low = src1 ^ static_cast<T>(diff >> (start0 - start1));
        src0 ^= diff;
        src1 = low;
    } else if (start0 > start1) {
        src0 = src0 ^ (''')],
 needs='both ranges in the same word, the first one higher',
 breaks='the second store overwrites the first because both refer to the same word',
 demo='''
int main() {
    std::vector<uint64_t> v{0x00f1}; 
    bit::swap_ranges(at(v, 20), at(v, 24), at(v, 4));
    REQ(v[0] == 0xf00001);
}'''),
dict(id='transform-not-simd', property='C12',
 edits=[('bit-algorithms/transform.hpp', 'if constexpr (std::is_same_v<UnaryOperation, std::bit_not<word_type>>)', 'if constexpr (std::is_empty_v<UnaryOperation> && std::is_same_v<decltype(unary_op(word_type{})), word_type>)')],
 needs='SIMD build, aligned source and destination, a stateless functor or lambda returning the word type, long enough for the vector loop',
 breaks='every stateless operation is treated as bitwise not',
 flags='-std=c++17 -O1 -g -DBITLIB_HWY',
 demo='''
int main() {
    auto v = rnd<uint64_t>(300, 3); std::vector<uint64_t> d(300);
    bit::transform(at(v, 0), at(v, 19200), at(d, 0), [](uint64_t x) -> uint64_t { return x; });
    REQ(v == d);
}'''),
dict(id='transform-binary-aligned2', property='C13',
 edits=[('bit-algorithms/transform.hpp', 'if (is_first1_aligned && is_first2_aligned && remaining_bits_to_op > digits) {', 'if (is_first1_aligned && (is_first2_aligned || remaining_bits_to_op > 64 * digits) && remaining_bits_to_op > digits) {')],
 needs='first range and destination aligned, second range unaligned, more than 64 words',
 breaks='the second range is read from the start of its first word',
 demo='''
int main() {
    auto a = rnd<uint32_t>(100, 3), b = rnd<uint32_t>(101, 4); std::vector<uint32_t> d(100);
    bit::transform(at(a, 0), at(a, 3200), at(b, 5), at(d, 0), std::bit_xor<uint32_t>());
    for (size_t i = 0; i < 3200; ++i) REQ(get(d, i) == (get(a, i) != get(b, i + 5)));
}'''),
dict(id='move-empty-end', property='C14',
 edits=[('bit-algorithms/move.hpp', '    if (first == last) return d_first;\n', '')],
 needs='an empty range whose destination is an unaligned position, with the source at the end of its storage',
 breaks='a word past the end of the source storage is read',
 pre='',
 demo='''
#include <sys/mman.h>
int main() {
    char* m = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, 4096, PROT_NONE);
    uint64_t* e = (uint64_t*)(m + 4096); uint64_t d = 7;
    bit::bit_iterator<uint64_t*> f(e, 0);
    bit::move(f, f, bit::bit_iterator<uint64_t*>(&d, 3));
    REQ(d == 7);
}'''),
dict(id='fill-simd-align', property='C15',
 edits=[('bit-algorithms/fill.hpp', '!is_aligned(&*it, 64); it++) {', '!is_aligned(&*it, 16); it++) {')],
 needs='SIMD build for a target with 32-byte or wider vectors, range long enough for the vector loop, start not 32-byte aligned',
 breaks='the aligned vector store faults',
 flags='-std=c++17 -O1 -g -DBITLIB_HWY -march=haswell -maes',
 demo='''
int main() {
    for (size_t o = 0; o < 16; ++o) {
        std::vector<uint64_t> v(200, 0);
        bit::fill(at(v, o * 64), at(v, 190 * 64), bit::bit1);
        for (size_t i = 0; i < 200 * 64; ++i) REQ(get(v, i) == (i >= o * 64 && i < 190 * 64));
    }
}'''),
]
