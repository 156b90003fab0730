#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles, statements and anchors)."""
import json, os
A='include/bitlib/bit-algorithms/'; I='include/bitlib/bit-iterator/'; V='include/bitlib/bit-containers/bit_vector.hpp'
D=A+'bit_algorithm_details.hpp'; DET=I+'bit_details.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
RANGES="every word type (8/16/32/64-bit unsigned), every storage content, every start position and length (including empty, within one word, word-aligned, straddling any number of words, and flush with the start or end of the storage), over both raw word pointers and vector iterators"
p("C01","Copying or moving a bit range equals element-wise copying",
 "Copying (or moving) a range of bits to a destination writes exactly the source bits, in order, to the destination range and returns the iterator one past the last bit written. It is correct also when the destination begins before the source and overlaps it, and every bit outside the destination range keeps its value.",
 ["inputs"],RANGES+"; every pair of source/destination alignments, disjoint or overlapping with the destination starting before the source",
 "Tests compare a few hundred random sub-ranges that start in the first word and end in the last; they never use raw pointers, rarely overlap, and cannot enumerate the alignment pairs x lengths x overlap distances at which the word-wise fast paths switch.",
 [A+'copy.hpp',A+'move.hpp',D],[("single-word, aligned and shifted word paths","copy.hpp, move.hpp"),("partial word read/write helpers","bit_algorithm_details.hpp")],["destination and surrounding bits","returned iterator"])
p("C02","Backward copying of a bit range equals element-wise backward copying",
 "Copying a range backward to a destination that ends at a given position writes exactly the source bits to the equally long range ending there and returns the iterator to the first bit written. It is correct also when the destination ends after the source and overlaps it, and every bit outside the destination keeps its value.",
 ["inputs"],RANGES+"; every pair of source/destination end alignments, disjoint or overlapping with the destination ending after the source",
 "The test never overlaps source and destination and samples only long ranges.",
 [A+'copy_backward.hpp',D],[("word-wise backward copy with partial first/last words","copy_backward.hpp")],["destination and surrounding bits","returned iterator"])
p("C03","Filling a bit range sets exactly the bits of the range",
 "After filling a range with a bit value, every bit of the range has that value and every other bit of the storage, including the other bits of the words shared by the range's ends, is unchanged.",
 ["inputs"],RANGES+"; both values",
 "The test samples ranges that begin in the first word; it cannot cover each boundary combination nor the neighbours of short ranges inside larger storage.",
 [A+'fill.hpp',DET],[("masked head/tail words and whole-word middle","fill.hpp")],["all bits of the storage"])
p("C04","Counting returns the exact number of bits equal to the given value",
 "Counting a bit value in a range returns exactly how many bits of the range have it, for ranges of any length and alignment, so counts of zeros and ones always add up to the range length. The storage is not modified.",
 ["inputs"],RANGES+" (lengths up to thousands of words, so that every vectorised block size and remainder is met, at every byte alignment of the word block); both values",
 "The test counts ranges of at most a few words, so the block loops (vectorised beyond 512 bytes and beyond 1024 bytes) and their remainders never run.",
 [A+'count.hpp',A+'libpopcnt.h',DET],[("head/tail words plus block population count with CPU dispatch","count.hpp, libpopcnt.h")],["returned count"])
p("C05","Searching for a bit value returns its first occurrence",
 "Searching a range for a bit value returns the iterator to the first bit of the range that has the value, or the end of the range if none does, regardless of bits outside the range. The storage is not modified.",
 ["inputs"],RANGES+"; both values; every position of the first match including none, and matching bits placed just outside both ends",
 "The test samples a few ranges with dense random content, where the first match is nearly always within a bit or two of the start; long runs before the match and matches just past the end are not reached.",
 [A+'find.hpp',DET],[("head word, whole-word scan, tail word clipping","find.hpp")],["returned iterator"])
p("C06","Range equality holds exactly when all corresponding bits agree",
 "Comparing two equally long bit ranges returns true if and only if every pair of corresponding bits is equal, whatever bits lie outside the ranges and whatever their alignments. Neither range is modified.",
 ["inputs"],RANGES+"; every pair of alignments; ranges equal, differing in exactly one chosen bit, or differing only outside the ranges; distinct or the same storage",
 "The test compares few pairs; a difference confined to one bit at a boundary or to bits outside the range is not sampled systematically.",
 [A+'equal.hpp',D],[("word-wise comparison with masked head/tail","equal.hpp")],["returned boolean"])
p("C07","Reversing a bit range mirrors it exactly and is an involution",
 "Reversing a range puts each bit at the mirrored position within the range and changes no bit outside it; reversing twice restores the storage.",
 ["inputs"],RANGES,
 "The test samples long ranges spanning most of the storage; combined head/tail alignments with one, two or three words, and the frame, are not covered.",
 [A+'reverse.hpp',DET],[("word reversal with alignment fix-up","reverse.hpp"),("bit swap within a word","bit_details.hpp")],["all bits of the storage"])
p("C08","Rotating a bit range equals std::rotate for every pivot",
 "Rotating a range about any pivot, including both ends of the range, moves the bits exactly as std::rotate does on a sequence of booleans, changes no bit outside the range, and returns the iterator to the new position of the formerly first bit.",
 ["inputs"],RANGES+"; every pivot from the first position to one past the last",
 "The test samples few pivots strictly inside long ranges; pivots at the ends, near the internal strategy thresholds (one word, half the range) and short ranges are not reached.",
 [A+'rotate.hpp',A+'shift.hpp',A+'swap_ranges.hpp'],[("copy-and-shift for short sides, swap-based rotation otherwise","rotate.hpp")],["all bits of the storage","returned iterator"])
p("C09","Left shift moves surviving bits toward the front and nothing else",
 "Shifting a range left by n places the bit at offset i+n at offset i for every surviving bit and returns the end of the resulting range; n at or below zero, or at least the range length, changes nothing and returns the last or first iterator respectively. No bit outside the range changes; only the vacated tail of the range is unspecified.",
 ["inputs"],RANGES+"; every shift amount from negative to beyond the range length, over- and under-shooting each multiple of the word size",
 "The test samples few amounts, only on ranges that end with the storage, and never checks the bits around the range.",
 [A+'shift.hpp',D],[("single-word, word-multiple and cross-word shift paths","shift.hpp")],["surviving bits and frame","returned iterator"])
p("C10","Right shift moves surviving bits toward the back and nothing else",
 "Shifting a range right by n places the bit at offset i at offset i+n for every surviving bit and returns the beginning of the resulting range; n at or below zero, or at least the range length, changes nothing and returns the first or last iterator respectively. No bit outside the range changes; only the vacated head of the range is unspecified.",
 ["inputs"],RANGES+"; every shift amount from negative to beyond the range length, over- and under-shooting each multiple of the word size",
 "The test samples few amounts, only on ranges that begin with the storage's first word, and never checks the bits around the range.",
 [A+'shift.hpp',D],[("align-last, word-multiple and cross-word shift paths","shift.hpp")],["surviving bits and frame","returned iterator"])
p("C11","Swapping two bit ranges exchanges exactly their bits",
 "Swapping two non-overlapping, equally long ranges exchanges corresponding bits, returns the end of the second range, and changes no other bit, also when both ranges lie in the same words or are adjacent.",
 ["inputs"],RANGES+"; every pair of alignments; ranges in different storages, in one storage at a distance, adjacent, and within a single shared word",
 "The test swaps ranges in two separate containers with long lengths only.",
 [A+'swap_ranges.hpp',DET],[("bit exchange between words at three alignment relations","swap_ranges.hpp"),("bit exchange primitive","bit_details.hpp")],["all bits of both storages","returned iterator"])
p("C12","Unary transform applies the bitwise operation to exactly the range",
 "Transforming a range with a bitwise unary word operation writes, for each source bit, the operation's result to the corresponding destination bit, returns the destination end, and changes nothing else; transforming in place is allowed.",
 ["inputs"],RANGES+"; the four unary boolean functions; destination disjoint, sharing words, or identical with the source",
 "The test samples one operation on long ranges with separate destination.",
 [A+'transform.hpp',D],[("destination alignment, whole-word loop, masked tail","transform.hpp")],["all bits of the storages","returned iterator"])
p("C13","Binary transform applies the bitwise operation to exactly the range",
 "Transforming two ranges with a bitwise binary word operation writes the operation's result on each pair of corresponding bits to the corresponding destination bit, returns the destination end, and changes nothing else; the destination may be identical with either source.",
 ["inputs"],RANGES+"; all sixteen binary boolean functions; every combination of the three alignments; destination disjoint from or identical with a source",
 "The test samples a few operations on long ranges with separate destination.",
 [A+'transform.hpp',D],[("destination alignment, whole-word loop, masked tail","transform.hpp")],["all bits of the storages","returned iterator"])
p("C14","Algorithms touch only words overlapped by their ranges, without UB",
 "Every bit algorithm reads and writes only the words that its argument ranges overlap: it never accesses storage before the first or past the last such word (in particular it never dereferences a word-aligned end iterator, or anything for an empty range over empty storage), and executes no undefined behaviour.",
 ["inputs"],"every algorithm on every valid argument tuple, with the storage exactly as large as the ranges need, including empty ranges at the end of storage and over empty storage",
 "The test build has no sanitizer and its containers are larger than most ranges, so a stray access of one word goes unnoticed.",
 [A+f for f in ('copy.hpp','copy_backward.hpp','count.hpp','equal.hpp','fill.hpp','find.hpp','move.hpp','reverse.hpp','rotate.hpp','shift.hpp','swap_ranges.hpp','transform.hpp','bit_algorithm_details.hpp','libpopcnt.h')],[("explicit aligned-end checks before each dereference","all algorithm headers")],["sanitizer reports","bytes around the storage"])
p("C15","Vectorised and scalar builds give identical results",
 "Building with the SIMD option enabled, for any target vector width and optimisation level, gives bit-for-bit the same results, returned iterators and frame as the element-wise definition that the scalar build satisfies, at every memory alignment and size of the storage.",
 ["inputs","configurations"],"fill, find, both shifts, unary transform, count and the algorithms built on them; scalar build and SIMD builds at the vector widths this CPU can run; every word type, storage alignment modulo the vector size, and sizes around every multiple of the vector width",
 "The SIMD tests run one unoptimised baseline-ISA build (16-byte vectors) on vector storage; wider vectors, other alignments and the remainder loops around them never run.",
 [A+f for f in ('fill.hpp','find.hpp','shift.hpp','transform.hpp','count.hpp','libpopcnt.h')],[("align-to-vector prologue, vector loop, scalar epilogue","fill/find/shift/transform.hpp")],["all bits of the storage","returned iterators"])
p("C16","Bit iterators obey random-access iterator laws",
 "Bit iterators behave as random-access iterators over the bit sequence in least-to-most-significant order: stepping, adding or subtracting any offset (either sign, across any number of words), indexing, differences and all six comparisons agree with integer arithmetic on bit positions, and dereferencing yields the bit at that position. The library's distance, next and advance agree with these operators.",
 ["inputs","histories"],"every word type, iterator kind (raw pointer, const pointer, vector iterator, const vector iterator), every pair of positions and every offset that stays in range (positions up to 2^40 bits apart), and arbitrary walks of iterator operations",
 "The repository has no test of iterator arithmetic at all; algorithms only exercise the few forms they use.",
 [I+'bit_iterator.hpp',D],[("word/position carry and borrow arithmetic","bit_iterator.hpp")],["base word, in-word position, dereferenced bit, comparison and difference results"],[("word iterator + in-word position","denotes one bit; position stays below the word width","bit_iterator.hpp")])
p("C17","Bit pointers obey pointer laws and agree with references",
 "Bit pointers behave as pointers over the bit sequence: address-of then dereference gives the same bit, stepping and arithmetic with offsets of either sign, indexing, differences and comparisons agree with integer arithmetic on bit positions, and a null bit pointer is false, equal to null and distinct from every pointer to a bit. Member access through a bit pointer acts on the pointed-to bit.",
 ["inputs","histories"],"every word type, mutable and const, every pair of positions in an array of words, every in-range offset, and arbitrary walks of pointer operations",
 "The repository has no test of bit pointers.",
 [I+'bit_pointer.hpp',I+'bit_reference.hpp'],[("mask and word pointer carry/borrow arithmetic","bit_pointer.hpp")],["bit designated, comparison and difference results"])
p("C18","A bit reference reads and writes exactly its own bit",
 "Every operation through a bit reference (assignment from values and references, and/or/xor assignment, set, reset, flip, assign from a word, swap with a reference or a value) acts on exactly the designated bit as on a boolean and leaves all other bits unchanged; assigning one reference to another copies the bit value, it never rebinds.",
 ["inputs","histories"],"every word type, every pair of bit positions (same bit, same word, different words, different word types), every operand value, and arbitrary sequences of such operations on shared storage",
 "The repository has no test of bit references beyond reading and plain assignment.",
 [I+'bit_reference.hpp',I+'bit_value.hpp'],[("mask-based read-modify-write","bit_reference.hpp")],["all bits of the storage","returned reference"])
p("C19","Bit values form a two-element boolean algebra",
 "A bit value holds exactly one boolean: constructing or assigning it from a boolean, from any bit position of any unsigned word, or from a reference yields that bit; its not/and/or/xor operators, their assignment forms, set/reset/flip, swap and the six comparisons agree with those of booleans.",
 ["inputs","histories"],"all operand values and aliasings, every word type, word value and position, and arbitrary sequences of operations",
 "The repository has no test of bit values.",
 [I+'bit_value.hpp'],[("single boolean member","bit_value.hpp")],["boolean conversion of the value"])
p("C20","Streaming bits round-trips and fails cleanly on bad input",
 "Writing a bit value or reference to a stream prints one character 0 or 1 (padded to the stream's width as a character is), and reading one back yields the same bit and consumes exactly that character after skipping whitespace. Reading anything else leaves the target bit unchanged, leaves the offending character unread and puts the stream in a failed state (also when the stream reports failure by an exception); a stream buffer that throws while it is read from or written to leaves the stream bad and the target unchanged; it never disturbs neighbouring bits.",
 ["inputs","histories"],"all sequences of bits with arbitrary whitespace separators, and arbitrary character sequences as bad input; narrow and wide streams; targets that are values or references at any position",
 "The repository has no test of the stream operators.",
 [I+'bit_value.hpp',I+'bit_reference.hpp'],[("character extraction with put-back and failbit","bit_value.hpp, bit_reference.hpp")],["stream contents and state","target bits"])
p("C21","A bit vector behaves as a sequence of booleans under any history",
 "After any sequence of push_back, pop_back, insert (one, many, a range), erase (one, a range), resize (with or without a value), clear, reserve, shrink_to_fit, assignment and element writes, the vector's size and every element equal those of a std::vector<bool> given the same operations, and the returned iterators denote the same positions. New elements from growing without a value read as zero.",
 ["histories"],"all finite operation histories with valid arguments on vectors of every word type, starting from any construction",
 "Tests apply single operations to a handful of fixed sizes; resize and mixed histories (grow after shrink, insert after erase, stale bits in the last word) are not tested.",
 [V,A+'shift.hpp',A+'copy.hpp',A+'fill.hpp'],[("word storage grown/shrunk in step with the bit length","bit_vector.hpp"),("shift + fill/copy for insert and erase","bit_vector.hpp")],["size, elements, returned iterators"],[("bit length and word storage","length never exceeds stored bits; bits past the length are invisible","bit_vector.hpp")])
p("C22","Every constructor yields exactly the described bits",
 "Constructing a bit vector from a count, a count and value, a string, a range of booleans, of words or of bits at any alignment, an initializer list, or another vector yields exactly the described sequence, of exactly that size; strings contribute their 0 and 1 characters in order and ignore all others.",
 ["inputs"],"all argument values: sizes around and between word multiples, arbitrary strings with separators, arbitrary source alignments, every word type",
 "Tests construct a few fixed sizes; initializer lists of bits and allocator forms are not tested and strings are only of zeros, ones and one separator.",
 [V],[("per-source construction","bit_vector.hpp")],["size and elements"])
p("C23","Copies are independent and moves transfer the whole value",
 "A copy (constructed or assigned, to itself too) equals its source and later changes to either never show in the other; a move transfers the value to the target, leaves the source in a valid state that can be reassigned and reused, and std::swap exchanges values.",
 ["histories"],"all histories of copies, moves, self-assignments, swaps and modifications over a small pool of vectors of any sizes and word types",
 "Tests copy and move one vector once; they do not use the source afterwards or interleave with modification.",
 [V],[("defaulted copy, custom move","bit_vector.hpp")],["elements of every vector in the pool"])
p("C24","Element access is consistent, bounds-checked and LSB-first",
 "All ways of reading an element (index, at, front, back, mutable and const iterators, const vectors, the raw word block) agree: bit i of the vector is bit i modulo the word width, least significant first, of word i divided by the width. at() throws out_of_range exactly for positions not below the size, and writes through any mutable access are seen by all others.",
 ["inputs","histories"],"all vectors, positions (valid, equal to size, in the padding of the last word, huge), and interleavings of writes through one access path and reads through another",
 "Tests read through one path at a time and do not exercise const vectors or out-of-range positions in the last partly used word.",
 [V,I+'bit_iterator.hpp'],[("access via the begin iterator","bit_vector.hpp")],["bits read by each path","exceptions"])
p("C25","Text rendering round-trips",
 "The text rendering of a vector, or of any sub-range of it, lists its bits in order as 0 and 1 with separators only between 8-bit groups ('.') and between words (' '), and constructing a vector from that text restores the bits.",
 ["inputs"],"all vectors, sub-ranges and word types",
 "Tests never call the rendering functions.",
 [V],[("debug string and string constructor","bit_vector.hpp")],["returned string","reconstructed bits"])
p("C26","Capacity laws: reserve, no hidden relocation, proportional storage",
 "Capacity is never below size; reserve(n) makes it at least n without changing the bits, and then no growth up to that capacity relocates the storage; n push_backs relocate at most a logarithmic number of times; capacity never exceeds about twice the largest size or reservation the vector has had, and shrink_to_fit keeps the bits. Removing elements, in whatever way, makes their storage available: shrink_to_fit then brings the capacity down to about the remaining size, and a copy takes no more.",
 ["histories"],"all histories of construction, growth, reserve and shrink on every word type",
 "Tests do not observe the storage address, and check capacity in a few fixed situations.",
 [V],[("delegation to the word vector's growth policy","bit_vector.hpp")],["capacity, storage address, bits"])
p("C27","Guarantees do not degrade at large sizes",
 "Container operations and algorithms stay exact when sizes or positions exceed the precision of single-precision floats and the range of 32-bit integers.",
 ["inputs"],"vectors and ranges with more than 2^24, and with more than 2^31 and 2^32, bits; insertions, resizes, counts, searches, shifts, iterator arithmetic at such positions; algorithm calls over exactly 2^31 and 2^32 bits",
 "Tests stay below a few hundred thousand bits.",
 [V,I+'bit_iterator.hpp',A+'count.hpp',A+'fill.hpp',A+'shift.hpp',A+'find.hpp',A+'copy.hpp'],[("size computations in the container and distance computations in the algorithms","bit_vector.hpp and algorithms")],["size, capacity, elements, results"])
p("C28","Failed allocations leave the vector unchanged and usable",
 "If memory allocation fails during any container operation, std::bad_alloc reaches the caller, the vector still has exactly its previous size and bits and remains usable, no memory is leaked, and operations that need no memory neither allocate nor fail (a failing shrink_to_fit may be ignored instead of reported; inserting a range and copy assignment may buffer). Requests beyond any memory or beyond max_size() are refused with std::bad_alloc or std::length_error and change nothing; max_size() is a size that iterator differences can express.",
 ["fault_sequences","histories"],"every operation in every history, with each individual allocation made to fail; every impossible size request",
 "No test injects allocation failures.",
 [V],[("allocate-before-modify order in growth operations","bit_vector.hpp")],["exception type, size, elements, live allocations"])
p("C29","Standard algorithms work on bit iterators as on booleans",
 "Applying a standard-library algorithm that requires random-access iterators with swap, assignment and comparison of elements to a range of bit iterators produces the same bits and the same returned positions as applying it to the corresponding range of a boolean sequence.",
 ["inputs"],"sort, stable_sort, partition, remove, unique, reverse, rotate, swap_ranges, copy, search, binary search, nth_element, heap operations and others; every word type, alignment and range; also reverse iterators",
 "Tests use std algorithms only to prepare data.",
 [I+'bit_iterator.hpp',I+'bit_reference.hpp',I+'bit_value.hpp'],[("proxy reference semantics: value_type, swap overloads, assignment","bit_reference.hpp, bit_value.hpp")],["all bits of the storage","returned positions"])
p("C30","Any program of bit operations is independent of word type",
 "Running any sequence of bit algorithms on a shared buffer, with ranges anywhere in it, gives after every step the bits that the same sequence of standard algorithms gives on booleans, identically for every unsigned word type (8 to 64 bits, and 128 bits or the other 16- to 64-bit unsigned types in builds without the SIMD option), and for raw-pointer and vector iterators.",
 ["histories","configurations"],"all finite sequences of algorithm calls with arbitrary valid ranges within one buffer, on all word types and iterator kinds",
 "Tests call each algorithm once on fresh data and never compare word types with each other.",
 [A+f for f in ('copy.hpp','copy_backward.hpp','count.hpp','equal.hpp','fill.hpp','find.hpp','move.hpp','reverse.hpp','rotate.hpp','shift.hpp','swap_ranges.hpp','transform.hpp')],[("word-width-generic implementations","all algorithm headers")],["buffer bits after each step","returned positions and values"])
p("C31","Storage always comes from the vector's own allocator",
 "Every constructor that takes an allocator places the elements in memory of that allocator, copies and moves follow the propagation traits of the allocator exactly as std::vector does (a move between equal or propagating allocators takes over the block instead of allocating), growth keeps the vector's allocator, every block is freed through an equal allocator with its original size, and everything is freed at the end; contents are unaffected by the allocators involved.",
 ["histories","configurations"],"all constructors, assignments and modifying operations, with stateful non-equal allocators of every combination of propagation traits",
 "No test uses an allocator other than std::allocator.",
 [V],[("allocator passed on to the word vector","bit_vector.hpp constructors")],["allocator instance owning each block","size, elements"])
p("C32","Uses that only read never write",
 "Algorithms never write to ranges they only read (sources of copy, move, copy_backward and transform, operands of count, find and equal), not even to restore what was there, and reading members of bit_vector, copying from it and iterating over it write neither the object nor its elements; so data may live in read-only memory and be read by several threads at once.",
 ["inputs","schedules"],"every reading algorithm on every range, and every sequence of reading uses of a vector, with the memory write-protected",
 "Tests keep all data in writable memory and run one thread, so a write that puts the same bits back goes unnoticed.",
 [A+f for f in ('copy.hpp','copy_backward.hpp','count.hpp','equal.hpp','find.hpp','move.hpp','transform.hpp')]+[V],[("read-only access to sources","algorithm headers"),("const members","bit_vector.hpp")],["write faults on protected pages","results"])
p("C33","Work is proportional to words, and growth is amortised",
 "Every algorithm makes a number of word accesses bounded by a small constant per word overlapped by its ranges (far below one per bit), whatever the alignment; construction from equal bits or a bit range, copying, insertion, erasure and resizing of bit vectors likewise, and element access, moving and swapping take a constant number; and growing a vector by push_back, insert at the end or small resizes allocates only a logarithmic number of times.",
 ["inputs","histories"],"every algorithm on every range of any length and alignment; every vector operation at every size, position and count; every growth pattern",
 "Tests compare results only; falling back to bit-by-bit work or to one allocation per step gives the same results.",
 [A+f for f in ('copy.hpp','copy_backward.hpp','count.hpp','equal.hpp','fill.hpp','find.hpp','move.hpp','reverse.hpp','rotate.hpp','shift.hpp','swap_ranges.hpp','transform.hpp')]+[V],[("word-parallel loops","algorithm headers"),("geometric growth of the word vector","bit_vector.hpp")],["dereferences of a counting word iterator","allocations"])
p("C34","Threads that share no written word do not interfere",
 "Threads running bit algorithms on ranges that share no word with anything another thread writes, using vectors of their own, and reading common storage and common vectors, each get exactly the results they would get alone, without data races: there is no hidden shared mutable state, and neighbouring words are never touched.",
 ["schedules","histories"],"all programs of two to four threads over adjacent word-disjoint segments of one storage, private vectors, and shared storage and vectors that all only read; all interleavings that occur",
 "Tests are single-threaded.",
 [A+f for f in ('copy.hpp','copy_backward.hpp','count.hpp','equal.hpp','fill.hpp','find.hpp','move.hpp','reverse.hpp','rotate.hpp','shift.hpp','swap_ranges.hpp','transform.hpp','libpopcnt.h')]+[V],[("only automatic storage and the range's own words are used","algorithm headers"),("const members without caching","bit_vector.hpp")],["ThreadSanitizer reports","per-thread results and storage"])
p("C35","Exceptions from user code pass through and spoil nothing else",
 "An exception thrown by the operation given to transform reaches the caller; afterwards every source bit and every bit outside the destination is unchanged and each destination bit has either its old value or its result. An exception thrown by an iterator or allocator during construction reaches the caller and leaks nothing, and one thrown by the allocator during an operation on a vector reaches the caller with the vector's size and bits unchanged.",
 ["fault_sequences","inputs","histories"],"every throw point of the user operation, iterator or allocator, for every range, storage overlap allowed by transform, constructor argument and history",
 "No test throws from user code.",
 [A+'transform.hpp',V],[("words are combined with the destination only after the operation returned","transform.hpp"),("size is updated only after allocation succeeded","bit_vector.hpp")],["propagated exception","storage, size, elements","live blocks"])
p("C36","Ranges in different kinds of storage interoperate",
 "Copying, moving, copying backward, comparing and swapping work between ranges whose words lie in different kinds of storage (arrays through pointers, std::vector, bit_vector with any allocator), and constructing a vector from a range in any storage works, with the same results as within one kind, also when both ranges lie in the same words seen through two kinds of iterator and overlap as the operation allows; two views of the same words agree on bits, positions, references and pointers.",
 ["inputs","configurations"],RANGES+"; every ordered pair of different storage kinds",
 "Tests always use the same iterator type for all ranges.",
 [A+f for f in ('copy.hpp','copy_backward.hpp','equal.hpp','move.hpp','swap_ranges.hpp')]+[V,I+'bit_iterator.hpp'],[("templates over two iterator types","algorithm headers"),("construction from any bit iterator pair","bit_vector.hpp")],["both storages","returned positions and values"])
p("C37","Iterators, references and pointers stay valid as those of std::vector do",
 "Iterators, references and pointers to elements keep designating their element, with its current value, until an operation for which std::vector would invalidate them: growth beyond the capacity, shrink_to_fit or assignment of the vector, or insertion or erasure at or before their position. Growth within the capacity keeps everything before the insertion point valid, and moving a vector into a new one or swapping two vectors carries them along.",
 ["histories"],"all histories of modifying operations, swaps and moves over two vectors, with handles of every kind taken at any time to any element",
 "Tests take fresh iterators after every operation.",
 [V,I+'bit_iterator.hpp',I+'bit_reference.hpp',I+'bit_pointer.hpp'],[("growth in place within the word vector's capacity","bit_vector.hpp insert, push_back, resize"),("moves transfer the word vector","bit_vector.hpp")],["bits read and written through old handles","their equality with fresh ones"])
p("C38","Bit vectors compose with standard containers and adaptors",
 "Bit vectors behave as ordinary values inside standard containers (which copy, move, swap, sort, partition and destroy them) and bit vectors filled through insert iterators, used as the storage of an adaptor such as std::stack, or trimmed by the erase-remove idiom hold the same bits as sequences of booleans treated likewise.",
 ["histories"],"all histories of container and algorithm calls over a vector, deque, list or map of bit vectors of any sizes, interleaved with operations on single ones",
 "Tests never put a bit vector into a container or use insert iterators and adaptors.",
 [V,I+'bit_iterator.hpp',I+'bit_value.hpp'],[("value semantics and member types of a standard sequence container","bit_vector.hpp")],["size and elements of every vector"])
p("C39","Word-level bit operations compute their bit-by-bit definitions",
 "The word operations that everything else is built on (population count, leading and trailing zero count, field extraction, bit deposit and extract, byte and bit reversal, blending, exchanging and comparing (zero when equal) of masked bits or fields, double-word shifts, addition with carry, subtraction with borrow and double-width multiplication) give exactly the result of their bit-by-bit definition for every unsigned word type, with compiler intrinsics as without them, including zero operands, fields that are empty or fill the whole word, and shift counts from zero up to twice the word width (exclusive).",
 ["inputs"],"every word type (8 to 128 bits), all operand words, all fields start < digits with length <= digits (blend and exchange: within the word), all masks, all double-word shift counts < 2*digits",
 "The tests never call most of these operations, and through the algorithms only some word types, masks and field lengths occur.",
 [DET],[("intrinsic and portable variant of each operation, chosen by the word width","bit_details.hpp")],["returned words and carries","operands exchanged in place"])
p("C40","Words of bits are read and written at any position",
 "Reading up to a storage word of bits at any position (get_word) gives, in the low bits of the result, exactly those bits in order; writing the low bits of a word at any position (write_word) sets exactly that many bits there and no other; both for every combination of transported and storage word type, touching no word that the bits do not lie in. distance, next and advance agree with the positions, and is_within is true exactly when the distance is at most the limit, compile-time or run-time, however far apart the iterators are.",
 ["inputs"],"every storage and transported word type (8 to 128 bits), every position, every length from one bit to the transported word (reads: also at most a storage word); iterators up to 2^40 bits apart",
 "The tests reach these functions only through algorithms, with equal word types and few positions.",
 [D],[("partial word read and write across a word boundary","bit_algorithm_details.hpp get_word, write_word"),("bounded distance test","bit_algorithm_details.hpp is_within")],["returned word","all bits of the storage","returned booleans and distances"])
p("C41","A linear overload calls the first function that accepts the arguments",
 "Calling a linear overload built from any list of functions calls exactly the first of them that accepts the arguments, once, with the arguments passed through unchanged (same object, same value category, no copy) and its result passed back unchanged; if none accepts them nothing happens. Functions given as lvalues are referred to, rvalues are owned; size(), empty() and get() reflect the list.",
 ["inputs"],"lists of up to six functions out of six signatures (with repetition; by value, by reference, templated, two arguments, none), owned or referred to, called one to four times with nine kinds of arguments",
 "No test uses linear_overload.hpp.",
 [I+'linear_overload.hpp'],[("recursive selection of the first valid call","linear_overload.hpp operator()"),("storage of functions","linear_overload.hpp overload_linearly")],["which function ran, with what, and the result","state of the functions"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
