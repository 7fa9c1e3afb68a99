#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
OVER = {"input": "inputs", "fault": "fault_sequences", "history": "histories", "schedule": "schedules"}
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property is about", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = hook
    over = [OVER[o] for o in over]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

D = "src/c4/dump.hpp"
prop("C01", "Resumable dump delivers every byte exactly once, in order",
 "For cat_dump_resume, catsep_dump_resume and format_dump_resume (sink as function argument or template argument), over any sequence of resumed calls with buffers of any capacity, the bytes the sink has received are always exactly the text of pieces 0..lastok (arguments, separators, format literals) with nothing lost, repeated or reordered. Once a non-empty buffer of at least the reported bufsize is supplied on each call, the dump completes in a bounded number of calls, and resuming a completed dump delivers nothing more.",
 ["input", "fault", "history"], "all argument lists (values and strings), separators and format strings, and all sequences of buffer capacities (including empty, shrinking and too-small buffers) across the resumed calls",
 "the tests resume one list of integers through growing buffers; losses and duplicates need a particular argument (a string, a separator, a large middle argument) to meet a particular capacity at a particular resume, and the product of argument kinds and capacity histories is unbounded",
 [D], [("DumpResults lastok/bufsize bookkeeping", D+":DumpResults"), ("detail::cat_dump_resume", D), ("detail::catsep_dump_resume_", D), ("detail::format_dump_resume", D)],
 state="DumpResults{bufsize,lastok} carried by the caller between calls", observe="bytes received by the sink after each call, DumpResults after each call")
prop("C02", "One-shot dump emits a clean prefix and reports a usable buffer size",
 "cat_dump, catsep_dump and format_dump (both sink forms) deliver to the sink exactly the text of the leading pieces up to, not including, the first argument or separator that does not fit the buffer, and nothing after it; the buffer is never written past its end. If the returned size is at most a non-empty buffer's length the full text was delivered, and calling again with a non-empty buffer of the returned size (repeatedly, should it grow) delivers the full text in a bounded number of calls.",
 ["input", "fault", "history"], "all argument lists, separators, format strings and buffer capacities",
 "whether a later piece leaks out after a failed one depends on the combination of argument kinds, sizes and capacity, of which tests sample a few integer lists",
 [D], [("cat_dump / catsep_dump / format_dump", D), ("dump<> overloads for values and strings", D)],
 observe="bytes received by the sink; returned size; canaries around the buffer")
F="src/c4/format.hpp"; CC="src/c4/charconv.hpp"
prop("C03", "Bounded writers never overrun, and report a size that lets a retry succeed",
 "Every serialiser into a fixed buffer (to_chars for integers, reals, bool, char, pointers and strings, write_dec/hex/oct/bin with padding, fmt:: hex/oct/bin/zpad/real/boolalpha/left/right/raw/base64, bm2str, cat, catsep, format and their _sub forms, base64_encode/decode, substr::replace_all) writes only inside the buffer it was given, whatever its capacity and previous contents. If the returned size is at most the capacity, the first that many bytes are exactly the complete text; otherwise retrying with the returned size as new capacity reaches the complete text within a bounded number of retries, in one retry except for reals and raw data. bm2str(mask, buf, size) and the _sub forms raise an error instead when the text does not fit; reals written with snprintf (no floating-point charconv) need one spare character.",
 ["input", "fault", "history"], "all values, specifiers, argument lists, buffer capacities (0..full and beyond), buffer addresses/alignments and previous buffer contents",
 "the tests serialise mostly into large buffers; overruns and wrong required sizes appear only when the capacity falls at a particular point inside a particular argument",
 [F, CC, "src/c4/format.cpp", "src/c4/base64.cpp", "src/c4/base64.hpp", "src/c4/substr.hpp", "src/c4/std/string.hpp", "src/c4/std/vector.hpp", "src/c4/std/string_view.hpp"],
 [("cat/catsep/format capacity hand-over", F), ("write_*/itoa/utoa/rtoa capacity checks", CC), ("left_/right_ padding", F), ("raw wrapper alignment", "src/c4/format.cpp"), ("c4append_ macros", "src/c4/base64.cpp")],
 observe="guard pages and canaries around the buffer; returned size; buffer contents compared with an independently built reference text")
prop("C04", "Growing-container formatting survives allocation failure",
 "catrs, catseprs, formatrs, their _append forms and from_chars into std::string/std::vector produce exactly the requested text (appended after the untouched prior content for _append, whose returned view is exactly the appended region), whatever the container's initial size and capacity. If growing the container throws at any point, the exception propagates, the container stays valid, content before the append position is unchanged, no memory leaks, and repeating the call once memory is available gives the exact text; the number of resizes is bounded.",
 ["input", "fault", "history"], "all argument lists and formats, initial container sizes/capacities, container types and allocation-failure points",
 "allocation never fails in the tests and the retry loop is exercised with one or two initial sizes",
 [F, "src/c4/std/string.hpp", "src/c4/std/vector.hpp"], [("catrs/catseprs/formatrs retry loops", F), ("from_chars(std::string*)", "src/c4/std/string.hpp"), ("from_chars(std::vector<char>*)", "src/c4/std/vector.hpp")],
 observe="container contents, returned view, exceptions, allocator ledger")
M="src/c4/memory_resource.hpp"; MC="src/c4/memory_resource.cpp"
prop("C05", "Live blocks from a memory resource are aligned, in bounds and disjoint",
 "For MemoryResourceMalloc, MemoryResourceLinear (owned or borrowed memory), MemoryResourceLinearArr, MemoryResourceCounts and chains of them, under every history of allocate, reallocate, deallocate, clear, acquire and release with failures injected anywhere, each live block is aligned as requested, lies wholly inside memory its resource obtained (or was lent), overlaps no other live block, and its bytes never change except through its owner. A request that cannot be satisfied raises an error and leaves every live block and the resource's accounting (size, slack, capacity) intact, so that later satisfiable requests still succeed.",
 ["input", "fault", "history"], "all operation histories, sizes (including huge ones), power-of-two alignments, arena sizes/addresses, and allocation-failure points",
 "tests make a few allocations of friendly sizes; overlap and bound errors need particular size/alignment/position combinations and failures in between",
 [M, MC], [("MemoryResourceLinear::do_allocate/do_reallocate", MC), ("aalloc_impl/arealloc_impl", MC), ("DerivedMemoryResource forwarding", M)],
 state="m_mem/m_size/m_pos of single-chunk resources", observe="returned pointers, block contents, error callback, resource size()/slack()/capacity()")
prop("C06", "Reallocation preserves contents, and a failed one loses nothing",
 "reallocate on any memory resource, Allocator, SmallAllocator and arealloc returns a block whose first min(old,new) bytes equal the old block's bytes, whether it grows, shrinks, stays or moves. If the reallocation fails, the old block is still live, still owned by the caller, with its bytes unchanged, and can be used, reallocated or deallocated normally.",
 ["input", "fault", "history"], "all histories of allocate/reallocate/deallocate interleavings, sizes, alignments, resources and failure points",
 "the tests only reallocate the most recently allocated block or through malloc and never fail a reallocation",
 [M, MC, "src/c4/allocator.hpp"], [("MemoryResourceLinear::do_reallocate", MC), ("arealloc_impl", MC), ("Allocator::reallocate", "src/c4/allocator.hpp"), ("SmallAllocator::reallocate", "src/c4/allocator.hpp")],
 observe="block bytes before and after")
prop("C07", "Owned chunks are released exactly once; borrowed memory is never freed",
 "Over any history of construction, acquire(size), acquire(mem,size), clear, release and destruction of the single-chunk resources (MemoryResourceLinear, MemoryResourceLinearArr), with the upstream resource failing at any point, every chunk obtained upstream is returned exactly once, with the size and alignment it was obtained with, to the resource it came from. Memory lent by the caller is never passed to deallocate, a failed acquire leaves the object usable and destructible, and after destruction nothing is outstanding.",
 ["fault", "history"], "all sequences of acquire/release/clear/destroy, owned and borrowed, and upstream failures at any of them",
 "leaks and wrong frees are invisible to value assertions and need re-acquire or failure sequences that the tests do not perform",
 [M, MC], [("_MemoryResourceSingleChunk::acquire/release", MC), ("_MemoryResourceSingleChunk::m_owner", M)],
 state="m_mem,m_size,m_owner", observe="allocate/deallocate calls reaching the upstream resource")
prop("C08", "Allocation counts always equal the true ledger of live blocks",
 "At every point of any history of allocate, reallocate and deallocate through MemoryResourceCounts (also nested, chained or used through ScopedMemoryResourceCounts), including calls that fail, counts().curr equals the number and total requested size of blocks currently live through it, total equals the number and size of all successful allocations and reallocations so far, and max is the largest curr ever reached. AllocationCounts arithmetic (+, -, update) combines such ledgers component-wise.",
 ["fault", "history"], "all operation histories, sizes and failure points, including failing reallocations and null deallocations",
 "tests count a handful of successful allocations; a failing operation between counter updates is never exercised",
 [M], [("MemoryResourceCounts::do_allocate/do_reallocate/do_deallocate", M), ("AllocationCounts", M)],
 state="m_counts", observe="counts() after each operation against a reference ledger")
prop("C09", "The current memory resource is per-thread and scopes restore it",
 "set_memory_resource and the Scoped* guards change the current resource of the calling thread only: under any interleaving, get_memory_resource in a thread returns what that thread last set (initially the malloc resource), and allocations made through c4::allocator in a thread go to that thread's resource. When a ScopedMemoryResource or ScopedMemoryResourceCounts scope ends, normally or by exception, the resource that was current when the scope began is current again, for any nesting.",
 ["schedule", "fault", "history"], "all thread counts, interleavings at memory-access granularity, nestings of scopes and exception exits",
 "no test starts a thread or throws through a scope; isolation failures show only under particular interleavings",
 [M, "src/c4/allocator.hpp"], [("detail::get_memory_resource thread_local", M), ("get_memory_resource_malloc function-local static", M), ("ScopedMemoryResource, ScopedMemoryResourceCounts", M)],
 state="thread_local MemoryResource* mr", observe="get_memory_resource() and the resource that receives each allocation, per thread")
prop("C10", "Allocators hand out aligned, disjoint objects and return all to their source",
 "Allocator and SmallAllocator, with per-instance or global resource, under any order of allocate and deallocate (not only last-in first-out) with failures injected, return storage for n objects that is aligned as requested, disjoint from every other live allocation, and stable until deallocated; small requests that fit are served from the in-place array, the rest from the resource. Every block taken from a resource is returned to that same resource exactly once with the same size and alignment, array storage is never passed to it, and a failed allocate changes nothing. An allocator with a per-instance resource, and its copies and rebinds (also those a standard container makes), use that resource whatever the current global resource becomes.",
 ["input", "fault", "history"], "all allocate/deallocate orders, counts (including 0), alignments, element types, array capacities and failure points",
 "the SmallAllocator container tests are disabled upstream as failing; only one allocate/deallocate pair is tested",
 ["src/c4/allocator.hpp"], [("SmallAllocator::allocate/deallocate", "src/c4/allocator.hpp"), ("Allocator::allocate/deallocate", "src/c4/allocator.hpp"), ("MemRes/MemResGlobal", "src/c4/allocator.hpp")],
 state="SmallAllocator array occupancy", observe="returned pointers, contents, calls reaching the resource")
E="src/c4/error.cpp"; EH="src/c4/error.hpp"
prop("C11", "Errors reach the callback exactly once, intact, and settings are restored",
 "For any error or failed check, if ON_ERROR_CALLBACK is set and a callback is installed, it is called exactly once, with a NUL-terminated message whose first msg_size characters are the printf-formatted text (truncated to at most 1023 characters); ON_ERROR_LOG decides whether it is written to stderr, an exception thrown by the callback propagates, and if the callback returns control never comes back to the failing statement. A warning is written to stderr with the same truncation, reaches no callback, and returns. ScopedErrorSettings restores both flags and callback on every exit, including exceptions and arbitrarily nested errors and scopes.",
 ["input", "fault", "history"], "all flag combinations, message formats and lengths, nestings of scopes, callbacks that throw, nest errors or return",
 "tests install one callback and raise short messages; truncation boundaries, nested errors, formatting failures and flag combinations are unbounded",
 [E, EH], [("handle_error", E), ("handle_warning", E), ("ScopedErrorSettings", EH), ("C4_ERROR/C4_CHECK/C4_ASSERT macros", EH)],
 state="s_error_flags, s_error_callback", observe="callback invocations, stderr bytes, process outcome, get_error_flags()/get_error_callback()")
prop("C12", "Debugger detection is right under I/O faults and concurrent first calls",
 "is_debugger_attached() answers according to the TracerPid that /proc/self/status shows, whatever chunks read() returns it in, however often a call is interrupted, and wherever the line lies in the file; if the file cannot be opened or read it answers false. Every caller gets the same answer, also when several threads make the first call concurrently in any interleaving, and no file descriptor leaks.",
 ["schedule", "fault", "input"], "all interleavings of concurrent first calls at memory-access granularity, status-file contents and lengths, and open/read/close faults (EINTR, short reads, errors, EOF at any byte)",
 "one process gets one real status file, one read and one thread; neither faults nor races can be provoked by a unit test",
 [E], [("is_debugger_attached", E)], state="function-local statics", observe="return values per thread; open/read/close calls")
prop("C13", "inplace_function owns exactly one target through copies, moves and throws",
 "Under any history of construction, copy, move, assignment (also self-assignment and nullptr), swap, conversion to a larger capacity, invocation and destruction of stdext::inplace_function objects, every target object constructed is destroyed exactly once, moves, swaps and converting moves never copy a target, a call reaches the target last assigned with its arguments and result intact, an empty function converts to false and throws bad_function_call when called. If a target's constructor, copy or move throws, the exception propagates and every involved inplace_function is left valid (empty or holding a live target) and destructible.",
 ["fault", "history"], "all operation histories over a pool of functions, target types, and throw points",
 "the repository has no test for it, and lifetime errors need an exception at one specific step",
 ["src/c4/ext/sg14/inplace_function.h"], [("inplace_function::operator=, swap, converting operators", "src/c4/ext/sg14/inplace_function.h"), ("vtable", "src/c4/ext/sg14/inplace_function.h")],
 state="vtable_ptr_, storage_", observe="live-object ledger of targets; call results")
prop("C14", "Concurrent use on separate data gives the same results as use alone",
 "Threads that call the conversion, formatting, dumping, string-view, base64, UTF-8, enum-symbol, bitmask, hashing, type-name, allocation and error-raising functions on their own data get, under any interleaving, exactly the results (and error messages) they get when running alone in a fresh process. The library keeps no hidden shared mutable state, and lazily initialised shared state is complete before any thread sees it.",
 ["schedule", "input"], "all interleavings (at memory-access granularity) of up to four threads running arbitrary call sequences on disjoint data",
 "the tests are single-threaded; a shared static buffer or unsynchronised cache behaves perfectly until two calls overlap at the wrong instruction",
 [CC, F, D, "src/c4/substr.hpp", "src/c4/base64.cpp", "src/c4/utf.cpp", "src/c4/enum.hpp", "src/c4/bitmask.hpp", "src/c4/hash.hpp", "src/c4/type_name.hpp", M, MC],
 [("absence of mutable globals", "src/c4/*"), ("function-local statics (esyms, get_memory_resource_malloc, type_name)", "src/c4/enum.hpp")],
 observe="results of each thread compared with its solo run")
prop("C15", "Readers of torn or truncated text stay inside the view and stay truthful",
 "Given a view of any bytes, such as a record cut at any point, with lost, flipped or garbage bytes, the readers (from_chars and from_chars_first for integers, reals, bool, char, pointers, strings, overflow_checked and raw; uncat, uncatsep, unformat; enum symbol lookup by name, str2e and str2bm; base64_valid and base64_decode of valid text; UTF code-point decoding) read and write nothing outside the view and the destination, and their verdict and outputs depend on the bytes in view alone, not on neighbouring memory or on earlier failed attempts. A reader never reports consuming more than the view holds; when it reports success, the value is the one the consumed characters denote (integers modulo the destination's width, overflow_checked ones exactly), and base64_valid accepts exactly whole groups of alphabet characters with padding at the end. An intact record written by the corresponding writer, read after any number of failed attempts on damaged copies, yields exactly the values written.",
 ["input", "fault", "history"], "all byte strings, truncation points, corruptions, neighbouring memory contents and retry histories",
 "tests parse well-formed literals that are NUL-terminated in memory, so over-reads and residue from failed attempts stay invisible",
 [CC, F, "src/c4/format.cpp", "src/c4/base64.cpp", "src/c4/utf.cpp", "src/c4/substr.hpp", "src/c4/enum.hpp", "src/c4/bitmask.hpp", "src/c4/std/string.hpp", "src/c4/std/vector.hpp"],
 [("read_dec/hex/oct/bin, atoi/atou/atof/atod", CC), ("from_chars_first overloads", CC), ("uncat/uncatsep/unformat", F), ("raw_wrapper from_chars", "src/c4/format.cpp"), ("base64_decode", "src/c4/base64.cpp"), ("first_*_span", "src/c4/substr.hpp")],
 observe="guard pages at both ends of the view; outputs under differing neighbouring bytes and stale destinations")
prop("C16", "Raw construction helpers keep element lifetimes exact, even when a ctor throws",
 "Over any history of c4::construct/_n, copy_construct/_n, move_construct/_n, copy_assign/_n, move_assign/_n, destroy/_n, make_room and destroy_room on raw buffers, each helper constructs, assigns or destroys exactly the elements it names, in place, leaves all others untouched, and leaves values equal to the reference sequence for trivial and non-trivial element types alike. In-place make_room leaves the room raw (nothing alive in it) and in-place destroy_room leaves exactly the remaining elements alive. When an element's constructor or copy assignment throws inside construct(_n), copy_construct(_n) or copy_assign(_n), the exception propagates and precisely the elements before it have been constructed or assigned.",
 ["input", "fault", "history"], "all operation histories, positions, room sizes (overlapping or not), element types and throw points",
 "tests use fixed small buffers; overlap and lifetime errors depend on the relation between room, position and size, and no test throws",
 ["src/c4/ctor_dtor.hpp"], [("construct_n, copy_construct_n, move_construct_n", "src/c4/ctor_dtor.hpp"), ("make_room, destroy_room", "src/c4/ctor_dtor.hpp")],
 observe="element lifetime ledger and buffer values")

SB="src/c4/substr.hpp"; SP="src/c4/span.hpp"
prop("C17", "Views sharing a buffer edit only their part and consume it exactly once",
 "Over any history of operations on substr/csubstr views of one buffer by several clients in any order, every view returned by a selection (sub, range, first, last, offs, left_of, right_of, trim*, strip*, select, pair_range*, unquoted, first_non_empty_span, pop_*, gpop_*, basename, dirname, extensions) lies within the view it was taken from and is what a character-by-character definition gives, as are the answers of searches, counts and comparisons. An in-place edit (fill, toupper, tolower, copy_from, reverse*, erase*, replace) changes only bytes of the view it was called on and leaves exactly the text its definition says (erase leaves the bytes behind the remaining text as they were), and replace_all only bytes of its destination. Consuming a view piecewise, with next_split and a saved position, a split() iterator, or repeated pop_left/gpop_right or pop_right/gpop_left, delivers every field exactly once, in order and in place, and ends within a bounded number of steps, whatever is done to delivered fields and to other views in between. A request outside the view that an assertion rejects changes nothing.",
 ["input", "history", "schedule", "fault"], "all texts, view bounds, arguments, operation histories and orders of up to four clients, with short reads, full buffers, restarts from a saved position and rejected requests",
 "the tests apply one operation to one literal; an off-by-one at the last character, a lost trailing field or a byte moved past the end of the view needs a particular text and position, and shows only in a neighbour's bytes or several steps later",
 [SB], [("selection and trimming members", SB), ("next_split, split_proxy, pop_left/pop_right, gpop_left/gpop_right", SB), ("copy_from, erase, reverse, replace, replace_all", SB)],
 state="the shared buffer; the position and iterators kept by the clients", observe="start and length of every view, answers, delivered fields, and all bytes of the buffer and around it after every step")
prop("C18", "Resizable spans keep to their storage and can recover what they gave up",
 "Over any history of construction, assignment, subspan, range, first, last, compll, complr, resize, ltrim, rtrim, clear, conversion and original() on span, spanrs and spanrsl of any element and index type, each span views exactly the elements its history names (start, size, capacity and, for spanrsl, offset), never reaching outside the storage it was taken from: spanrs can grow back up to the capacity right of its start, and spanrsl can always recover the whole original range. Element access and forward or backward iteration reach exactly the viewed elements, writes through one span are seen by the others and change nothing else, comparisons and same_span/is_subspan agree with the elements, and a request beyond the span that an assertion rejects leaves it as it was.",
 ["input", "history", "fault"], "all histories of span operations over a shared storage, element types, index types (signed, unsigned, narrow), sizes and offsets, with rejected requests",
 "tests exercise single operations on fresh spans; capacity and offset bookkeeping errors appear only after a chain of left and right trims, conversions and re-growth",
 [SP], [("_select, resize, ltrim, rtrim of span/spanrs/spanrsl", SP), ("spanrsl::original", SP), ("span_crtp subselection, complements, iteration", SP)],
 state="m_ptr, m_size, m_capacity, m_offset", observe="start, size, capacity and offset of every span, and all bytes of and around the storage after every step")

# ---- pure functions of their input: not applicable to this technique family
def na(id, title, statement, text, why, files):
    prop(id, title, statement, ["input"], text, why, files, [("pure function", files[0])])
na("N01", "Integer text conversion is exact in every radix",
   "For every integer type and value v and radix 2, 8, 10, 16, reading the text written for v gives v back, and the text is the canonical representation (no missing or extra digits, correct sign and prefix, requested zero padding).",
   "all values of all integer types, radices and paddings", "64-bit value spaces cannot be sampled meaningfully by hand-picked cases", [CC])
na("N02", "Overflow detection agrees with the mathematical value",
   "overflows<T>(text) is true exactly when the integer denoted by the text lies outside T's range, in every supported radix, and overflow_checked reads fail exactly then.",
   "all digit strings and integer types", "boundary strings per type and radix are many", [CC, F])
na("N03", "Real-number text conversion rounds correctly and round-trips",
   "Writing a float or double with enough precision and reading it back gives the same value, and reading any decimal or hexadecimal literal gives the nearest representable value.",
   "all float and double values and literals", "the value space is huge and hard cases are rare", [CC])
na("N04", "Number classification of text follows its grammar",
   "first_uint_span, first_int_span, first_real_span, is_number, is_integer, is_unsigned_integer and is_real of substr/csubstr recognise exactly the documented number grammar (sign, radix prefix, digits, fraction, exponent, delimiters).",
   "all strings", "the string space is unbounded", ["src/c4/substr.hpp"])
na("N05", "Base64 encodes per RFC 4648 and decoding inverts it",
   "base64_encode yields the RFC 4648 text of any byte sequence, base64_valid accepts it, and base64_decode restores the bytes.",
   "all byte sequences", "only samples are tested", ["src/c4/base64.cpp"])
na("N06", "UTF code point decoding is the standard UTF-8 encoding",
   "decode_code_point writes the standard UTF-8 bytes of every Unicode scalar value and reports their number.",
   "all code points", "more than a million inputs", ["src/c4/utf.cpp"])
na("N07", "Enum and bitmask symbols round-trip",
   "str2e(e2str(v)) == v for every enumerator, str2bm(bm2str(m)) == m for every mask, under every scope-prefix option, and unknown names are rejected.",
   "all enumerations, masks, offsets and buffer sizes", "the mask space is exponential", ["src/c4/enum.hpp", "src/c4/bitmask.hpp"])
na("N08", "Blob views cover exactly the bytes of the object they wrap",
   "blob and cblob made from an object, array or pointer and size cover exactly its bytes, and conversions between them and between index types keep start and length.",
   "all object types and sizes", "the type space is unbounded", ["src/c4/blob.hpp", "src/c4/szconv.hpp"])
na("N09", "Hash and random generators follow their published definitions",
   "hash_bytes equals FNV-1a of the bytes, and the rng engines (splitmix, xorshift, pcg) produce the documented sequence for each seed, the same for equal seeds.",
   "all byte strings and seeds", "infinite input space; untested upstream", ["src/c4/hash.hpp", "src/c4/ext/rng/rng.hpp"])
na("N10", "Memory and arithmetic utilities compute their definitions",
   "lsb, msb, ipow, mem_overlaps, mem_repeat, is_aligned, contiguous masks, tight_pair layout and szconv/szconvertible give the mathematically defined result for every argument.",
   "all integer arguments", "wide integer domains", ["src/c4/memory_util.hpp", "src/c4/szconv.hpp"])

for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
