#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CBA = "include/embedded/circular_buffer_adapter.h"
CBI = "include/embedded/detail/circular_buffer_adapter.h"
CBSTATE = [("first/last/size", "read slot, write slot and element count of the ring", CBA)]

prop("C01", "Circular buffer is a bounded double-ended queue over every history",
 "From any valid starting position, any sequence of circular buffer operations that respects the preconditions (push/emplace/pop at either end, counted pops, clear, moving the buffer object itself) leaves the buffer with exactly the elements, in exactly the order, that a double-ended queue would hold after the same sequence. "
 "size, remaining, empty, full, capacity, front, back, indexed access and checked access (which throws std::out_of_range for every position at or beyond size when exceptions are available) always agree with that queue. A new element is made from the very arguments given to push or emplace, by the constructor that they select in parentheses, and emplace returns a reference to it. "
 "This holds for every capacity from 1 up, every fill level and every place where the contents wrap around the end of the memory.",
 ["histories", "configurations"], "all operation sequences from all valid (capacity, first index, item count) attach states, for all element types",
 "The tests replay a few fixed scripts on small buffers with int and std::string elements, in a build without assertions; they cannot cover all fill levels, wrap positions and operation orders.",
 [CBA], [("slot arithmetic with wrap-around", CBA + " inc/dec/add/sub"), ("constructors deriving the write slot", CBA)], CBSTATE)

prop("C02", "Circular buffer uses exactly the caller's memory, in ring order, and re-attaches",
 "The element at logical position i always resides in memory slot (first index + i) modulo capacity of the memory handed in, and raw_index reports exactly that slot for every iterator (for the end iterator, the slot the next push at the back will fill). "
 "No operation writes to any slot other than those it adds, removes or is told to overwrite, and none touches memory outside the given range. "
 "Hence a new adapter built over the same memory with the reported first slot and size sees the identical contents and continues identically, which is what persistence across restarts relies on.",
 ["histories", "crash_points"], "all histories over all attach states; a re-attach ('power cycle') after every single operation",
 "Tests look at raw memory in one or two hand-picked situations only; they never re-attach after each step of arbitrary histories and never guard the surrounding memory.",
 [CBA, CBI], [("raw_index", CBA), ("placement of elements", CBA)], CBSTATE)

prop("C03", "Circular buffer iterators obey the random access iterator laws",
 "Mutable, const, reverse and const reverse iterators of a circular buffer visit exactly the logical elements in order, and every iterator expression (pre/post increment and decrement, +=, -=, + and - with signed offsets on either side, difference, indexing, dereference, arrow, all six comparisons, default construction, copy, assignment, conversion from mutable to const) has the value that plain index arithmetic over 0..size gives. "
 "This holds between any two positions including the end, for every capacity, wrap position and fill level, including completely full and empty buffers. "
 "Consequently standard algorithms over the iterators give the same result as over a plain sequence with the same contents.",
 ["inputs", "configurations"], "all pairs of positions and all offsets in every reachable ring state",
 "Tests run a few algorithms on a few ring states; const iterator arithmetic was not even instantiated, and the boundary cases (full ring where first and last slot coincide, jumps across the wrap to the end) form a large cross product.",
 [CBA, CBI], [("iterator arithmetic", CBI), ("end iterator representation", CBI + " it_ == nullptr")])

prop("C04", "Bulk copies into and out of the circular buffer equal element-wise transfers",
 "Copying a block of trivial elements in at the front or back, out from the front or back, or into or out of an iterator range has the same effect as transferring the elements one by one in order, for every count including zero and the full capacity, and every position at which the block or the contents wrap around the end of the memory. "
 "Nothing outside the addressed elements of the ring, and nothing beyond count elements of the caller's array, is read or written. "
 "Afterwards size, order and slots are what element-wise pushes and pops would have produced.",
 ["inputs", "histories"], "all counts x all ring states x all ranges, and histories mixing bulk and single operations",
 "Tests use a handful of counts on one buffer size; whether both memcpy halves are right depends on the exact relation of count to wrap position.",
 [CBA], [("split copy at the wrap", CBA + " copy_in_impl/copy_out_impl")], CBSTATE)

prop("C05", "Circular buffer creates and destroys each element exactly once, even on throws",
 "For element types with non-trivial lifetime, each successful push or emplace begins the lifetime of exactly one object in its slot and each pop, counted pop or clear ends the lifetime of exactly the removed objects, exactly once and of no others; the adapter never copies, moves or destroys other elements, and destroying or moving the adapter itself touches no element. "
 "Move-only types and types whose own allocation functions are deleted work with the moving operations, and copying operations copy from the source without changing it. "
 "If constructing an element throws, the exception propagates and the buffer's size, contents and order are exactly as before the call.",
 ["histories", "fault_sequences"], "all histories, with a throwing element constructor at every possible point",
 "Tests count constructor and destructor calls in one scripted history and never let a constructor throw.",
 [CBA], [("construct before updating the indices", CBA + " push_*/emplace_*"), ("destroy of ranges across the wrap", CBA + " destroy")], CBSTATE)

VI = "include/embedded/varint.h"
prop("C06", "Every integer survives a varint round trip in the fewest possible bytes",
 "For every value of every 8, 16, 32 and 64 bit signed and unsigned integer type, encoding and then decoding with the same type yields the value again, and decoding consumes exactly the encoded bytes. "
 "The encoding is the documented one (7-bit groups, least significant first, high bit set on all but the last byte, signed values folded to unsigned first), uses as few bytes as possible, and its length is exactly what size() reports. "
 "All encode overloads (bounded, unbounded, back-inserting) produce the same bytes and report their end correctly.",
 ["inputs"], "all values of all 8..64-bit integer types (all values up to 16 bits, all 7-bit-group boundary combinations beyond; full 32-bit range at depth)",
 "Tests check a few dozen values; a fault confined to particular widths or group boundaries is easily missed.",
 [VI], [("group loop", VI + " encode_impl / decode"), ("size recursion", VI + " size")])

prop("C07", "Bounded varint encoding never writes past the end",
 "Encoding into a buffer with n bytes of space succeeds if and only if n is at least the encoded size, in which case exactly size bytes are written and the iterator behind them is returned. "
 "Otherwise the begin iterator is returned and nothing at or beyond the end is ever written or otherwise touched; this includes buffers with no space at all. "
 "The behaviour is the same for every kind of output or forward iterator over bytes.",
 ["inputs", "configurations"], "all buffer lengths 0..11 x all encoded lengths x all integer types x iterator kinds",
 "Tests check one or two too-small buffers; the boundary where exactly the final byte does not fit must hold for every value length.",
 [VI], [("range check before each store", VI + " encode_impl")])

prop("C08", "Varint decoding of arbitrary bytes is exact and never over-reads",
 "For every byte sequence and every target integer type, decoding succeeds if and only if a byte within the buffer, and within the number of 7-bit groups the target type needs, terminates the encoding and the encoded value fits the type; on success the value is the mathematical value encoded (also for redundantly long encodings) and the returned iterator is just behind the terminating byte. "
 "Otherwise the begin iterator is returned, and for signed targets the output variable is left alone. "
 "No byte at or beyond the end of the buffer, or behind the terminating byte, is ever read.",
 ["inputs"], "all byte strings up to 3 bytes, and all strings up to 11 bytes over a boundary alphabet, for all 8 integer types and all buffer lengths",
 "Decoder input is untrusted and its space exponential; tests feed a handful of malformed strings.",
 [VI], [("width check on the last group", VI + " decode"), ("end check", VI + " decode")])

prop("C09", "Zig-zag folding is a bijection, and varint streams decode element by element",
 "The signed-to-unsigned folding maps 0, -1, 1, -2 (and so on) to 0, 1, 2, 3 (and so on) for every signed type over its full range including the minimum, its inverse undoes it for every unsigned value, and both are usable in constant expressions. "
 "A concatenation of encoded integers of any mix of types decodes, one after another with the same types, to the same integers with the iterator ending exactly at the end of the stream; cutting the stream at any byte makes exactly the value that contains the cut fail. "
 "This is independent of the kind of iterator or container used to write and read the stream.",
 ["inputs", "histories", "crash_points"], "all 8/16-bit values (boundary lattice beyond), all sequences up to a depth of typed values, all truncation points",
 "Tests fold a dozen values and never decode multi-type streams or truncations.",
 [VI], [("zig_zag_encode / zig_zag_decode", VI), ("returned iterators", VI)])

FN = "include/embedded/function.h"
prop("C10", "Function wrapper holds exactly the target its history gave it",
 "Over every sequence of constructions, move constructions, move assignments, assignments of callables, null pointers and (possibly null) member pointers, and calls on a set of function wrappers, each wrapper is at any time either empty or holds exactly the target last given to it or moved into it, and moving from a wrapper leaves the source empty. "
 "The boolean conversion tells the two apart, calling a non-empty wrapper invokes its own target (keeping that target's own state across moves), and calling an empty one throws std::bad_function_call, or terminates without exceptions. "
 "Exceptions thrown by a target propagate and leave the wrapper unchanged.",
 ["histories"], "all operation sequences over several wrappers up to a depth / to a fixpoint, for several capacities and signatures",
 "The tests that exist for this component are not even built here (missing third-party header), and they follow one script each.",
 [FN], [("dispatch table pointer swap on move", FN + " function(function&&), operator="), ("empty table", FN + " empty_vtbl")],
 [("dispatch table + storage", "which target, if any, a wrapper holds", FN)])

prop("C11", "Function wrapper keeps its target in place, aligned, and destroys it once",
 "Each stored callable object lives inside the wrapper object itself, correctly aligned for its type, for every capacity and alignment parameter that admits it (including over-aligned ones and targets that fill the capacity completely), and calls reach it there. "
 "Over every history each callable object that is created is destroyed exactly once and never used after that, moving a wrapper moves the callable exactly once per move and never copies it, and no dynamic memory is allocated. "
 "Move-only callables are accepted, and callables that could throw when moved, are too large or too strictly aligned are rejected at compile time.",
 ["histories", "configurations"], "all histories to a fixpoint x capacities x alignments x target sizes and alignments",
 "Tests only use default capacity and alignment with one traced type and one move.",
 [FN], [("in-place storage", FN + " storage_"), ("move/destroy procedure", FN + " vt_proc")])

prop("C12", "Function wrapper is const-correct, forwards faithfully, accepts right callables",
 "A wrapper with a const-qualified signature can be called through a const wrapper and invokes the target as const, one with a plain signature can only be called when non-const and invokes it as non-const; so targets with both overloads run the matching one. "
 "Arguments and results of any category (values, move-only values, lvalue, const and rvalue references, void) reach the target and the caller with the same identity, value category and without extra copies, and a void signature accepts and discards any result. "
 "A callable type is accepted, as visible to overload resolution, exactly if it can be called with the signature's arguments yielding something convertible to its result; free functions, lambdas, functors, bind and reference wrappers, and pointers to member functions and data members all work. "
 "Another wrapper, whatever its signature, capacity or alignment, is not a target: a wrapper can only be moved, and only from one of its own type.",
 ["programs", "inputs"], "the full cross product of signature shapes x callable shapes x argument categories",
 "Tests sample a few signatures; the guarantee is over the cross product of signatures and callables.",
 [FN, "include/embedded/type_traits/is_invocable.h"], [("call thunk", FN + " vt_call"), ("signature-dependent constraint and call operator", FN + " function_traits")])

MW = "include/embedded/move_wrapper.h"
prop("C13", "Move wrapper transfers its value on copy and never duplicates it",
 "Over every sequence of wrapping, copying, moving and accessing, the wrapped value travels with the most recent copy or move, each transfer move-constructs the value exactly once and never copies it, and the source wrapper keeps a moved-from value that is still destroyed exactly once. "
 "Dereference and arrow give access to the very same stored object, whatever operators its type declares, as const through a const wrapper. "
 "Operations are noexcept exactly when moving the value cannot throw, and an exception thrown while moving the value propagates to the caller leaving the source as the failed move left it.",
 ["histories", "fault_sequences"], "all operation sequences on several wrappers, with a throwing move at every point",
 "Tests capture one wrapper in one lambda; the exception behaviour and repeated transfers are not touched.",
 [MW], [("copy constructor that moves", MW)])

MX = "include/embedded/mutex.h"
prop("C14", "Lock guard holds the lock exactly for its scope under every interleaving",
 "A lock guard acquires the mutex exactly once when created and releases it exactly once at the end of its scope, whether the scope ends normally, by early return or by an exception. "
 "If acquiring throws, the exception propagates and the mutex is not released. "
 "Consequently critical sections guarded by it never overlap or lose updates under any thread interleaving, and threads nesting guards in a consistent order always finish; the guard can be neither copied nor assigned.",
 ["schedules", "fault_sequences"], "all interleavings of small sets of threads with guarded critical sections, with exceptions injected at every point",
 "The only test is single-threaded, takes one mock lock once and throws nothing.",
 [MX], [("constructor/destructor pair", MX)])

prop("C15", "Back-ported type traits agree with the standard ones",
 "The back-ported invocability trait gives, in every language mode from C++11, the same answer as std::is_invocable_r in C++17 for ordinary callables (functions, function pointers and references, lambdas, functors with const, reference-qualified and overloaded call operators) and any argument and result types, including void results. "
 "The back-ported conjunction behaves as std::conjunction: its value is the logical and of its parts (true for none), it derives from the first part that is false or else from the last one, and it does not instantiate parts behind the first false one.",
 ["programs"], "the full cross product of callable types, argument lists and result types, and all conjunctions up to a length",
 "No test exercises the traits directly, and the C++11/14 branch is not compiled by the C++17 test build at all.",
 ["include/embedded/type_traits/is_invocable.h", "include/embedded/type_traits/conjunction.h"],
 [("expression SFINAE helper", "include/embedded/type_traits/is_invocable.h"), ("recursive conditional", "include/embedded/type_traits/conjunction.h")])

prop("C16", "Integer sequences, ranges and type lists contain exactly what they should",
 "For every length N the generated integer (index) sequence is exactly 0..N-1 and for every begin B and end E with B at most E the generated range is exactly B..E-1, in order, with the right value type and size, for every integer type including signed ranges that start below zero. "
 "The sequence for a parameter pack has one index per type. "
 "A type list appends types in order keeping duplicates, appending nothing changes nothing, and it instantiates a template with exactly its types in order.",
 ["programs"], "all lengths up to a bound, all ranges within bounds, several integer types, all type lists up to a length",
 "Tests check one or two lengths.",
 ["include/embedded/utility/integer_sequence.h", "include/embedded/typelist.h"],
 [("recursive generation", "include/embedded/utility/integer_sequence.h"), ("append / to", "include/embedded/typelist.h")])

VEC = "include/embedded/constexpr_math/vector.h"
prop("C17", "Constant-expression vector operations are element-exact at every size",
 "For every size, element type and contents: construction from values, conversion from another element type, create, full, ones, zeros, indexing, size, element-wise transform, append, subvector, erase, swap and swap-pop give exactly the elements that the same operation on a plain array gives, including empty vectors and operations at the first and last position. "
 "Negation, scaling, shifting by, division by and division of a scalar, and the element-wise exponential act on each element separately, and the product and general reduction include the initial value and every element exactly once, the reduction calling its function with the accumulated value first and the element second. "
 "None of them changes its operands, and each gives the same result in a constant expression as at run time.",
 ["inputs", "programs"], "all vectors up to a size over a small alphabet x all positions x all operations",
 "Tests check single vectors of one size in static_asserts.",
 [VEC], [("index sequence expansion", VEC), ("reduce recursion", VEC)])

prop("C18", "Vector sort, argmin, count and equality are right for all inputs",
 "For every vector contents and every strict weak ordering, sort returns a permutation of the input in which no element is ordered before its predecessor, argmin returns the position of the first element that no other element is ordered before, and count returns the number of elements satisfying the predicate. "
 "Two vectors of equal size compare equal exactly if all their elements compare equal pairwise, for any element type with equality (a vector containing not-a-number is not equal to anything). "
 "This includes vectors with duplicates, already sorted and reversed ones, and size one; sort and count also handle the empty vector.",
 ["inputs"], "all vectors up to a size over a small alphabet (including duplicates and NaN) x several orderings",
 "Tests sort one five-element vector.",
 [VEC], [("selection sort by argmin and swap-pop", VEC), ("element-wise comparison", VEC)])

prop("C19", "Convolution and polynomial expansion are exact",
 "The full convolution of two vectors of any sizes n and m has n+m-1 elements, each the exact sum of products of the coefficients whose indices add up to its own. "
 "Expanding roots into a polynomial gives the coefficients, highest power first and leading one, of the monic polynomial with exactly these roots counted with multiplicity, whatever their order; no roots give the constant one. "
 "Results are exact whenever all intermediate values are representable, in constant expressions and at run time, for real and complex elements; a real coefficient that is infinite or not a number affects exactly the sums it belongs to.",
 ["inputs"], "all pairs of vectors up to sizes over a small exactly representable alphabet, and over the special values; all root multisets up to a size",
 "Tests compute one convolution and no polynomial expansion of its own.",
 ["include/embedded/constexpr_math/convolve.h", "include/embedded/constexpr_math/poly.h"],
 [("index-bounded sum", "include/embedded/constexpr_math/convolve.h"), ("repeated convolution", "include/embedded/constexpr_math/poly.h")])

CX = "include/embedded/constexpr_math/complex.h"
prop("C20", "Complex arithmetic matches the mathematical definition",
 "For all operands whose exact result and intermediate products and sums are representable, complex addition, subtraction, negation, multiplication, conjugate, squared magnitude and equality give the exact result, and real-valuedness is reported exactly when the imaginary part is zero; for other operands, and for division (complex by complex, real by complex, complex by real), magnitude and distance, they agree with the exact result to within rounding. "
 "The complex exponential agrees with the definition exp(x)(cos y + i sin y) within rounding. "
 "The component-wise vector versions (real, imag, norm, abs) agree with the scalar ones, and all of them give the same results in constant expressions as at run time for float, double and long double.",
 ["inputs"], "all operand pairs from an exactly representable lattice, and a lattice of angles and magnitudes for the transcendental functions",
 "Tests evaluate each operator on one pair.",
 [CX, "include/embedded/constexpr_math/functions.h"], [("component formulas", CX)])

prop("C21", "Analog prototypes have the textbook poles, zeros and gain at every order",
 "For every order, the analog lowpass prototype of each filter family has exactly the poles, finite zeros and gain that theory prescribes: Butterworth poles equally spaced on the left unit half circle; Chebyshev type I and II poles (and type II zeros) determined by order and ripple or attenuation in decibels; Bessel poles at the (phase-normalised) roots of the reverse Bessel polynomial, for every tabulated order. "
 "All poles lie strictly in the left half plane, non-real poles and zeros come as exact conjugate pairs, there is exactly one real pole for odd and none for even orders, and none of them repeats. "
 "This holds for float, double and long double to within the rounding of that type (Bessel poles being tabulated with the precision of double), the gain wherever the products of the poles and of the zeros stay within the range of the type.",
 ["configurations", "inputs"], "all families x all orders up to a bound (all 100 tabulated Bessel orders) x ripple lattice x precisions",
 "Tests look at three Butterworth orders and otherwise at seven orders of finished filters with one ripple per family; 93 of the 100 Bessel tables are never looked at.",
 ["include/embedded/signal/butterworth.h", "include/embedded/signal/chebyshev.h", "include/embedded/signal/bessel.h", "include/embedded/signal/detail/bessel_poles.h", "include/embedded/signal/detail/filter.h"],
 [("pole angle sequence", "include/embedded/signal/detail/filter.h theta"), ("pole tables", "include/embedded/signal/detail/bessel_poles.h")])

FI = "include/embedded/signal/filter.h"
FD = "include/embedded/signal/detail/filter.h"
prop("C22", "Designed filters have the specified frequency response",
 "For every family, order, ripple or attenuation, sample rate, cutoff frequency between zero and half the sample rate, and both lowpass and highpass, the designed digital filter's frequency response equals the analog prototype's response (in magnitude its closed form) under the bilinear frequency mapping pre-warped at the cutoff, in polynomial and in section form, up to rounding and within the exponent range of the types used. "
 "In particular Butterworth filters pass exactly -3 dB and Chebyshev type I and II filters exactly their ripple and stopband attenuation at the cutoff, the passband gain is one at zero frequency (lowpass) or half the sample rate (highpass) except for the ripple of even-order type I filters, and the opposite band end is blocked except for even-order type II filters. "
 "The result depends on sample rate and cutoff only through their ratio.",
 ["configurations", "inputs"], "families x orders x ripples x cutoff lattice x low/highpass x frequency grid",
 "All tests use a single sample rate and cutoff (40 Hz at 1 kHz), one ripple per family and seven orders.",
 [FI, FD, "include/embedded/signal/chebyshev.h"], [("pre-warping", FI + " warp"), ("lowpass/highpass/bilinear transforms", FD)])

prop("C23", "Designed filters are stable, normalised and finite",
 "Every designed filter has only finite coefficients, a leading feedback coefficient of exactly one, and all poles strictly inside the unit circle, in polynomial form and in every second order section (each of which satisfies the second order stability triangle). "
 "Consequently the response to every bounded input stays bounded and decays to nothing after the input ends. "
 "This holds for all families, orders, cutoffs and gain modes for which the types used have sufficient precision and exponent range.",
 ["configurations", "inputs"], "families x orders x cutoff lattice x low/highpass x structures x gain modes",
 "Tests check finished coefficient lists for one cutoff only.",
 [FI, FD, "include/embedded/signal/sos.h", "include/embedded/signal/poly.h"], [("bilinear transform", FD), ("pairing into sections", FD + " zpk_to_sos")])

prop("C24", "Polynomial and second order section forms realise the same given filter",
 "For any filter given by zeros, poles and a gain, where non-real ones come in conjugate pairs, the polynomial form is the gain times the expansion of the zeros over the expansion of the poles, and the product of the second order sections is that same rational function, in either gain distribution mode (equal distribution is for positive gains). "
 "Every section has real coefficients made of either two real or two conjugate poles, and of either two real or two conjugate zeros, every given pole and zero is used exactly once, odd orders add one first-order section, and there are exactly ceil(order/2) sections. "
 "With the gain in the first section all others have unit leading coefficients; with distributed gain all sections share it equally.",
 ["inputs", "configurations"], "all conjugate-closed zero/pole configurations up to an order from a small lattice, both gain modes, and all standard designs",
 "Tests never use distributed gain or user-given zeros and poles; standard designs never have more than one real pole, so the pairing of real poles is never exercised.",
 [FD, "include/embedded/signal/sos.h", "include/embedded/signal/poly.h"], [("pairing recursion", FD + " zpk_to_sos"), ("gain distribution", "include/embedded/signal/sos.h build_sos")])

prop("C33", "Sections pair poles with their nearest zeros, the sharpest pair last",
 "For any filter given by zeros, poles and a gain, where non-real ones come in conjugate pairs, the sections are put together from the last to the first as follows, odd orders having been made even by a zero and a pole at the origin. "
 "A section gets the remaining pole closest to the unit circle, with its conjugate or, if it is real, with the remaining real pole that is closest to the unit circle; "
 "it gets the remaining zero nearest to that pole, with its conjugate or, if it is real, with the remaining real zero nearest to the pole. "
 "So the sections with the sharpest resonances come last and are damped by their own zeros. Neither the order in which zeros and poles are given nor the gain mode matters; equally close ones may be taken in any order.",
 ["inputs", "configurations"], "all conjugate-closed zero/pole configurations up to an order from a small lattice, all arrangements",
 "Tests compare the sections of standard designs with a reference; those never have several real poles or zeros to choose from.",
 [FD, "include/embedded/signal/sos.h"], [("pairing recursion", FD + " zpk_to_sos"), ("order of roots", FD + " unit_circle_distance_less, distance_less")])

prop("C25", "Running filters compute exactly the difference equation, per instance",
 "For every input sequence, a running filter instance outputs exactly the solution of the linear difference equation given by its design's published coefficients, starting from rest: in polynomial form the single equation, in section form the cascade of the sections' equations in order. "
 "Instances of the same or different designs never influence each other however their calls are interleaved, copying an instance forks its state, and using the design's or a section's filter function with explicitly held state gives the same outputs. "
 "This holds for any arithmetic value type (floating, fixed-point or other) with only that type's own arithmetic being used.",
 ["inputs", "histories"], "all input sequences over a small alphabet up to a length x all call interleavings of two instances x orders x structures, in exact arithmetic",
 "Tests compare impulse responses of a single instance to a tolerance; arbitrary inputs, interleaved instances and value types other than float and double are not run.",
 ["include/embedded/signal/poly.h", "include/embedded/signal/sos.h", FD], [("transposed direct form II update", "include/embedded/signal/poly.h filter, " + FD + " poly_df2t_update"), ("section cascade", FD + " filter_chain")],
 [("delay line", "per-instance filter state", "include/embedded/signal/poly.h y_, include/embedded/signal/sos.h state_")])

prop("C26", "Compile-time evaluation gives the same results as run-time evaluation",
 "Designing a filter in a constant expression and designing the same filter at run time with the same parameters gives the same coefficients up to rounding in the last places of the design precision, in polynomial and section form and for all families. "
 "The same holds for the elementary functions, constants, complex and vector operations the design is built from. "
 "Encoded sizes and foldings of integers and lengths of integer sequences are the same in constant expressions as at run time, too. "
 "All design steps are usable in constant expressions in every supported language mode.",
 ["programs", "configurations"], "families x orders x low/highpass x structures x gain modes x language modes",
 "Tests evaluate designs at compile time only.",
 [FI, "include/embedded/constexpr_math/functions.h", VI], [("constexpr design chain", FI)])

prop("C27", "Debug records of filter coefficients are faithful",
 "For every design in polynomial or section form and every supported coefficient type, the debug record carries the documented magic number, version, structure and value type codes and total length, the given name truncated to the space available and always zero-terminated, and then exactly the design's coefficients in the documented order. "
 "Parsing a section of the object file that holds any number of such records one after another recovers every name and coefficient. "
 "Names of any length are accepted, and any number of translation units of a program may record designs, whatever the designs are called.",
 ["configurations", "inputs"], "structures x value types x orders x all name lengths from 0 to beyond the limit; sequences of records",
 "No test includes this header at all.",
 ["include/embedded/signal/detail/debug_filter_coefs.h", "include/embedded/signal/debug_filter_coefs.h", "include/embedded/preprocessor.h", "scripts/parse-filter-coefs.py"],
 [("record header", "include/embedded/signal/detail/debug_filter_coefs.h"), ("record macros", "include/embedded/signal/debug_filter_coefs.h")])

prop("C28", "The library behaves identically in every supported build configuration",
 "Every component compiles without errors and computes the same observable results in each language mode from C++11 on, with and without exceptions, with and without run-time type information, with and without assertions, at every optimisation level, and as a 64 or 32 bit program (but for the range of `long`). "
 "Without exceptions, the only differences are that calling an empty function wrapper terminates, and that checked access is unchecked. "
 "All headers are self-contained, given the third-party library they adapt if any, and can be included in any order and in several translation units of one program.",
 ["configurations"], "language modes x exceptions x RTTI x assertions x optimisation levels x compilers x word sizes for a fixed exhaustive operation transcript; all headers alone and all ordered header pairs",
 "The tests are built in a single configuration (C++17, exceptions, RTTI, assertions off, -O2).",
 ["include/embedded/config.h", "include/embedded"], [("feature detection", "include/embedded/config.h"), ("C++11 fallbacks", "include/embedded/type_traits, include/embedded/utility/integer_sequence.h")])

prop("C29", "No component allocates dynamic memory",
 "No operation of the circular buffer, varint codec, function wrapper, move wrapper, lock guard, constant-expression mathematics or filter design and filtering, in any history, ever allocates or frees heap memory on its own. "
 "The only exceptions are the exception objects thrown on documented misuse. "
 "Objects of these types have a fixed size that bounds all the memory they use beyond what the caller handed in.",
 ["histories", "configurations"], "all histories of a bounded alphabet over each component with an allocation monitor",
 "Tests do not monitor allocations.",
 ["include/embedded"], [("in-place storage and caller-provided memory", "include/embedded")])

prop("C30", "Text output of library values is complete and unambiguous",
 "Printing a complex number gives its real part, a single sign, and its imaginary part followed by j; printing a vector or array gives its elements in order, comma separated in brackets; printing a filter section gives its feed-forward and feedback coefficients, and printing a zero-pole-gain description gives all zeros, poles and the gain. "
 "Reading the text back with a straightforward parser yields the same values up to the stream's precision, for every sign combination including negative zeros, and for any nesting and size including empty.",
 ["inputs"], "all sign/zero/magnitude combinations, sizes 0..4, nestings",
 "No test includes the output header.",
 ["include/embedded/ostream_ops.h"], [("output operators", "include/embedded/ostream_ops.h")])

prop("C31", "Variants of function wrappers, under the library's names",
 "Including the variant header makes the third-party variant type and its visitation, access and construction functions available in the library's namespace under the same names, denoting the same entities. "
 "A variant of function wrappers of different signatures accepts a callable and finds the one alternative whose signature it fits, rejects what fits none, moves (the source's wrapper becomes empty, as that of a moved-from wrapper does), is exchanged, accessed and visited with the target's own results, state and exceptions, and destroys every callable exactly once.",
 ["histories", "programs"], "all histories of 4 operations on two variants of three wrappers; all accesses of small variants",
 "The test that covers it is not built because the third-party dependency is absent.",
 ["include/embedded/variant.h", "include/embedded/function.h"], [("namespace import", "include/embedded/variant.h"), ("wrapper constructor constraints and moves", "include/embedded/function.h")])

prop("C32", "Elementary functions and constants are exactly the underlying library's",
 "Every elementary function of the library's mathematics namespace gives, for every argument of every arithmetic type, the result and the result type of the function of that name of the underlying library: the standard library where that can evaluate it in constant expressions, gcem otherwise. "
 "With the standard library, min and max give, in every language mode, the very operand the standard's give (the first one of two equivalent operands), and the functions are usable in constant expressions. "
 "Pi is the value nearest to it in every floating point type. The header can be included first.",
 ["inputs", "configurations"], "all functions x types x a lattice of arguments (all pairs for functions of two) x language modes x both sources",
 "Tests do not call these functions themselves, and only one of the two sources and one language mode is ever compiled.",
 ["include/embedded/constexpr_math/functions.h", "include/embedded/constexpr_math/constants.h"],
 [("import of the functions, C++11 replacements of min and max", "include/embedded/constexpr_math/functions.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
