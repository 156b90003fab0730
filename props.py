"""Build configurations, counting rule and assumptions of every property's check."""
ALGO_Q = ['san', 'san20', 'opt']
ALGO_T = ['san', 'san20', 'opt', 'opt20', 'sanraw', 'sanvec', 'clopt', 'dbg', 'wide', 'wideopt']
SIMD_Q = ALGO_Q + ['hwyavx2']          # also for algorithms and operations without SIMD code: they share helpers with those that have it
SIMD_T = ALGO_T + ['hwysse', 'hwyavx2', 'hwynat', 'hwysan', 'hwyclnat']
R = ('Cases are choice sequences: seeded random ones (storage size, alignment, offset, length and contents biased to word and vector boundaries) plus, '
     'in the *_all tests, every choice sequence of a small scope of 8-bit words. ')
NT = 'Non-trivial: non-empty range that crosses a word boundary or shares a word with bits outside it. '
H = 'Histories are choice sequences: initial content, operations, positions, counts and values drawn with a bias to word boundaries and the ends; contents are compared with a sequence of booleans after every step. '
STATE = 'stateful model-based property testing against a sequence of booleans, with shrinking and (thorough) coverage-guided fuzzing'
LAW = 'property-based testing of algebraic laws against integer positions and booleans, with small-scope exhaustive generation'
PROPS = {
 'C01': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: non-empty range whose destination crosses a word boundary or shares a word with other bits; for overlap tests, source and destination really overlap.'),
 'C02': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: as for C01, with the destination to the right.'),
 'C03': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + NT),
 'C04': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: the range contains both zeros and ones.'),
 'C05': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: the first bit of the range does not match.'),
 'C06': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: non-empty ranges made equal, or equal except one bit (or, in one storage, at different positions).'),
 'C07': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: the range is not a palindrome.'),
 'C08': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: pivot strictly inside the range.'),
 'C09': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: 0 < n < length.'),
 'C10': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: 0 < n < length.'),
 'C11': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + 'Non-trivial: non-empty ranges.'),
 'C12': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + NT),
 'C13': dict(quick=SIMD_Q, thorough=SIMD_T, rule=R + NT),
 'C14': dict(quick=['dbg', 'san20', 'hwysan'], thorough=ALGO_T + ['hwysan', 'hwysan20'], technique='property-based testing with sanitizers, checked standard-library iterators and an instrumented word iterator as oracles, with shrinking and (thorough) coverage-guided fuzzing',
             rule=R + 'Non-trivial: the range is empty, ends at a word boundary, or crosses one.'),
 'C15': dict(quick=['opt', 'hwysse', 'hwyavx2', 'hwynat', 'hwysan'], thorough=['opt', 'clopt', 'san', 'hwysse', 'hwysse20', 'hwyavx2', 'hwynat', 'hwyclnat', 'hwysan', 'hwysan20'], technique='property-based differential testing of scalar and SIMD builds against one element-wise model, with shrinking and (thorough) coverage-guided fuzzing',
             rule=R + 'Word counts lie around multiples of 16, 32 and 64 bytes, at every storage alignment modulo 64. Non-trivial: at least one 16-byte vector of whole words fits in the range.'),
 'C21': dict(quick=['dbg', 'sanvec', 'opt', 'hwyavx2'], thorough=ALGO_T + ['hwysse', 'hwyavx2', 'hwysan'], technique=STATE,
             rule=H + 'Non-trivial: the history both grows and shrinks the vector (pairs_all: the initial vector is not empty).'),
 'C27': dict(quick=['opt'], thorough=['opt', 'clopt', 'hwynat'], workers=5, cap=300, fuzz=False, flags=['-DPBT_RSS_MB=7000', '-DPBT_HANG_S=240'], technique='stateful model-based property testing against a run-length model, with shrinking',
             rule='Histories of one to four operations on vectors of about 2^24 to 2^26 bits (mid), 2^31 and 2^32 bits (huge) and, thorough only, 2^34 bits in bytes (giant), and one rotation of 9*2^32 bits by 9 (rotate_many_blocks); contents are runs whose ends, like positions and counts, are biased to powers of two, word boundaries and the ends. The whole storage is scanned after every modifying step. Non-trivial: more than 2^24 bits.'),
 'C28': dict(quick=['dbg', 'san20', 'opt'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg'], technique='stateful model-based property testing with injected allocation failures, with shrinking and (thorough) coverage-guided fuzzing',
             rule='Histories of container operations and constructor calls in which each allocation is made to fail in turn (global operator new) until the operation completes; and requests beyond any memory. Non-trivial: at least one allocation failed (oversize: every case).'),
 'C29': dict(quick=['san', 'san20', 'opt'], thorough=ALGO_T, technique='property-based differential testing of standard algorithms on bit iterators and on bytes, with small-scope exhaustive generation, shrinking and (thorough) coverage-guided fuzzing', rule=R + NT),
 'C30': dict(quick=['san', 'san20', 'opt', 'hwyavx2', 'wide'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg', 'wide', 'wideopt', 'hwysse', 'hwyavx2', 'hwynat', 'hwysan'], technique='stateful differential property-based testing across word types and iterator kinds against a sequence of booleans, with shrinking and (thorough) coverage-guided fuzzing',
             rule='Programs of up to 12 algorithm calls with ranges anywhere in one buffer (of up to 4096 bits), run on eight word types and three iterator kinds. Non-trivial: a step after the first acts on more than one bit.'),
 'C31': dict(quick=['san', 'san20', 'dbg'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg'], technique=STATE, rule='Histories over three vectors with stateful allocators: constructors of every kind, assignments between them and modifying operations. Non-trivial: operands with different allocators met.'),
 'C32': dict(quick=['san', 'opt20', 'hwyavx2'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg', 'hwysse', 'hwyavx2', 'hwynat'], technique='property-based testing with write-protected memory as oracle, with shrinking and (thorough) coverage-guided fuzzing', rule=R + 'Sources are on write-protected pages. Non-trivial: the range crosses a word boundary or shares a word (vectors: more than one word).'),
 'C33': dict(quick=['opt', 'san20'], thorough=['opt', 'opt20', 'clopt', 'san', 'san20', 'dbg'], technique='property-based testing with access-counting iterators and allocators as oracle, with shrinking', rule=R + 'Non-trivial: ranges of at least 32 words (growth: every case).'),
 'C34': dict(quick=['opt', 'tsan', 'cltsan'], thorough=['opt', 'clopt', 'hwyavx2', 'tsan', 'cltsan', 'hwytsan'], workers=4, fuzz=False, libs=['-pthread'], technique='property-based testing of generated concurrent programs against a sequential model under ThreadSanitizer, with shrinking',
             rule='Cases are programs of two to four threads, each running generated algorithm calls on its own words of one storage and operations on its own vector while all read one shared storage and vector; adjacent segments touch at word boundaries. Non-trivial: at least one thread runs more than one step.'),
 'C35': dict(quick=['san', 'san20', 'opt'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg', 'hwyavx2', 'wide'], technique='property-based fault injection (exceptions thrown at generated points by operations, iterators and allocators) against a reference model, with shrinking and (thorough) coverage-guided fuzzing',
             rule='Cases are transforms, constructions and histories in which the user operation, iterator or allocator throws at a generated event. Non-trivial: an exception was thrown.'),
 'C36': dict(quick=['sanraw', 'san20', 'opt', 'hwyavx2'], thorough=['sanraw', 'san20', 'opt', 'opt20', 'clopt', 'dbg', 'hwyavx2', 'hwysan', 'wide', 'wideopt'], rule=R + 'Source and destination lie in storages of different kinds. ' + NT),
 'C37': dict(quick=['san', 'san20', 'opt', 'hwyavx2'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'hwyavx2', 'wide'], technique=STATE,
             rule='Histories over two vectors and up to a dozen handles into them (iterators, references, pointers to bits and words); each operation invalidates the handles std::vector would. Non-trivial: a handle is used after at least two operations.'),
 'C38': dict(quick=['san', 'dbg', 'opt', 'hwyavx2'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg', 'hwyavx2', 'wide'], technique=STATE,
             rule='Histories over a std::vector, deque or list of bit vectors and over single ones through insert iterators and adaptors, compared with the same history on sequences of booleans. Non-trivial: an operation met at least two vectors.'),
 'C22': dict(quick=SIMD_Q, thorough=SIMD_T, rule=H.replace('Histories', 'Constructor calls') + 'Non-trivial: the size is not a multiple of the word width (strings_all: the string has both bits and separators).'),
 'C23': dict(quick=SIMD_Q, thorough=SIMD_T, technique=STATE, rule=H + 'Non-trivial: at least one value was copied, moved or swapped between two vectors.'),
 'C24': dict(quick=ALGO_Q, thorough=ALGO_T, rule='Cases are vectors of generated size and content, read through every access path and written through randomly chosen ones. Non-trivial: more than one word.'),
 'C25': dict(quick=ALGO_Q, thorough=ALGO_T, technique='property-based round-trip testing with small-scope exhaustive generation', rule='Cases are vectors and sub-ranges of generated size and content (text_all: every content up to 12 bits). Non-trivial: more than one word (text_all: non-empty).'),
 'C26': dict(quick=SIMD_Q, thorough=SIMD_T, technique=STATE, rule=H + 'Non-trivial: a growth within the current capacity (capacity), a reservation beyond the size (reserve_then_grow), more than two words pushed (pushes).'),
 'C16': dict(quick=ALGO_Q, thorough=ALGO_T, technique=LAW, rule='Cases are choice sequences drawing positions, offsets and contents with a bias to word boundaries (pairs_all: every pair of positions in four bytes). Non-trivial: the two positions lie in different words.'),
 'C17': dict(quick=ALGO_Q, thorough=ALGO_T, technique=LAW, rule='Cases are choice sequences drawing positions, offsets and contents with a bias to word boundaries (pairs_all: every pair of positions in four bytes). Non-trivial: the two positions lie in different words.'),
 'C18': dict(quick=ALGO_Q, thorough=ALGO_T, technique=LAW, rule='Cases are short histories of operations through references into generated storage (ops_all: every byte, bit and operation). Non-trivial: at least one operation.'),
 'C19': dict(quick=ALGO_Q, thorough=ALGO_T, technique=LAW, rule='Cases are words, bit positions, value pairs and random expressions. Non-trivial: the word has a bit other than bit 0.'),
 'C39': dict(quick=['san', 'san20', 'opt', 'clopt', 'wide', 'wideopt'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt', 'dbg', 'wide', 'wideopt', 'hwyavx2'], technique='property-based differential testing of word operations, with and without compiler intrinsics, against bit-by-bit definitions, with shrinking and (thorough) coverage-guided fuzzing', rule='Cases are operand words (few or many bits, runs, single bits, all zeros or ones, random), fields, masks and shift counts for one of eleven families of operations. Non-trivial: the first operand is neither all zeros nor all ones.'),
 'C40': dict(quick=['san', 'san20', 'opt', 'clopt', 'wide'], thorough=['san', 'san20', 'opt', 'opt20', 'sanraw', 'sanvec', 'clopt', 'dbg', 'wide', 'wideopt'], technique='property-based differential testing of word reads and writes at random positions against one boolean per bit, with sanitizers, shrinking and (thorough) coverage-guided fuzzing', rule='Cases are a transported word type, a storage word type, a position, a length biased to the end of the first word, and contents; pairs of positions near and far apart. Non-trivial: the bits cross a word boundary or share a word with others (range, far: the positions differ, by more than 2^31 bits for far).'),
 'C41': dict(quick=['san', 'san20'], thorough=['san', 'san20', 'opt', 'opt20', 'clopt'], technique='property-based differential testing of generated lists of functions and argument kinds against a table of accepted arguments, plus exhaustive enumeration of lists and kinds, with shrinking and (thorough) coverage-guided fuzzing', rule='Cases are lists of functions, argument kinds and values, ownership and number of calls. Non-trivial: the list has at least two functions.'),
 'C20': dict(quick=ALGO_Q, thorough=ALGO_T, technique='property-based testing of stream extraction against a text-cursor model, and round trips', rule='Cases are generated texts (bits, whitespace, junk) read bit by bit, and bit sequences printed and read back; narrow and wide streams. Non-trivial: the text contains a bit (round trip: more than one bit).'),
}
# cheap properties run more cases in the quick tier than their harness's base counts
for _p, _k in {'C02': 1.5, 'C03': 4, 'C04': 2, 'C05': 2, 'C07': 4, 'C08': 4, 'C09': 3, 'C10': 3, 'C11': 2, 'C12': 2, 'C16': 2, 'C20': 2, 'C25': 2, 'C26': 3, 'C32': 2, 'C33': 2, 'C40': 2}.items():
    PROPS[_p]['qscale'] = _k
