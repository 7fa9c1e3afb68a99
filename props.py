"""Per-property configuration of the simulations."""
import os as _os
LIBSRC = sorted(f for f in _os.listdir(_os.path.join(_os.environ.get("C4_REPO", "/repo"), "src/c4")) if f.endswith(".cpp"))
FLAVOURS = {
    # what users ship: optimised, assertions compiled out
    "rel": dict(cxx="g++", flags=["-O2", "-DNDEBUG"]),
    # assertions on, AddressSanitizer
    "dbg": dict(cxx="clang++", flags=["-O1", "-fsanitize=address"]),
}
_HERE = _os.path.dirname(_os.path.abspath(__file__))
# a toolchain without floating point std::to_chars: reals go through snprintf
FLAVOURS["snp"] = dict(cxx="clang++", flags=["-O1", "-fsanitize=address", "-include", _os.path.join(_HERE, "sim/no_tochars.hpp"), "-DSIM_SNPRINTF"])
# without fast_float: reals are read with std::from_chars, or (also without floating point charconv) with sscanf
FLAVOURS["nff"] = dict(cxx="g++", flags=["-O1", "-DC4CORE_NO_FAST_FLOAT"])
FLAVOURS["scn"] = dict(cxx="clang++", flags=["-O1", "-fsanitize=address", "-DC4CORE_NO_FAST_FLOAT", "-include", _os.path.join(_HERE, "sim/no_tochars.hpp"), "-DSIM_SNPRINTF"])
# what the project's own tests run: not optimised, assertions on
FLAVOURS["tst"] = dict(cxx="g++", flags=["-O0"])
PROPS = {}
def P(id, **k): PROPS[id] = k
def budget(rel, dbg, k=20, cap=60, **more):
    fl = dict(rel=rel, dbg=dbg, tst=dbg // 2, **more)
    return {"quick": {f: (n, cap) for f, n in fl.items()}, "thorough": {f: (n * k, 800) for f, n in fl.items()}}

P("C01", src=["c01.cpp", "dump_cat.cpp", "dump_catsep.cpp", "dump_format.cpp"], flavours=["rel", "dbg", "snp", "tst"], budget=budget(400000, 100000, snp=60000),
  rule="One run = one argument list, separator/format, sink form and a history of resumed calls whose buffer capacities are drawn (empty, shrinking, too small, exact, ample); every call is checked against the piecewise reference text.",
  real=["dump.hpp, charconv.hpp, format.hpp (the whole dump/resume and serialisation code)"], stub=["the sink (records bytes)", "the caller's resume loop"])
P("C02", src=["c02.cpp", "dump_cat.cpp", "dump_catsep.cpp", "dump_format.cpp"], flavours=["rel", "dbg", "snp", "tst"], budget=budget(400000, 100000, snp=60000),
  rule="One run = one argument list, separator/format and sink form, dumped in one shot through a history of buffers whose capacities are drawn, with retries at the reported size; every call is checked against the piecewise reference text.",
  real=["dump.hpp, charconv.hpp, format.hpp (the whole dump and serialisation code)"], stub=["the sink (records bytes)", "the caller's retry loop"])
P("C03", src=["c03.cpp", "c03_pack.cpp"], flavours=["rel", "dbg", "snp", "tst"], budget=budget(800000, 160000, snp=60000),
  rule="One run = one writer (a value with its specifier, a cat/catsep/format pack, raw data, base64, replace_all) driven through a history of buffers whose capacity, placement (against guard pages or amid canaries) and previous contents are drawn, with retries at the reported size.",
  real=["charconv.hpp, format.hpp, format.cpp, base64.cpp, substr.hpp, std/string.hpp, std/vector.hpp, std/string_view.hpp"], stub=["the caller's retry loop", "the error callback (throws)"])
P("C04", src=["c04.cpp", "c04_pack.cpp", "c04_str.cpp", "c04_vec.cpp"], flavours=["rel", "dbg", "snp", "tst"], budget=budget(400000, 80000, snp=60000),
  rule="One run = one container (std::string, std::vector<char>, or a user container that moves on every resize) through a history of catrs/catseprs/formatrs in overwrite, append and returning form and from_chars, with allocations failing at drawn points and retries (the caller truncates an append target back to its old size before retrying).",
  real=["format.hpp container forms, charconv.hpp, std/string.hpp, std/vector.hpp, libstdc++ containers"], stub=["operator new (counts, fails on command)", "the user container", "the caller's retry loop"])
WRAPMEM = ["-Wl,--wrap=" + f for f in ("posix_memalign", "free", "malloc", "calloc", "realloc", "aligned_alloc", "memalign")]
MEMREAL = ["memory_resource.hpp/.cpp: MemoryResourceMalloc and the default aalloc/arealloc/afree, MemoryResourceLinear, MemoryResourceLinearArr, MemoryResourceCounts, ScopedMemoryResourceCounts, DerivedMemoryResource"]
MEMSTUB = ["the two upstream resources (arena with canaries, ledger, failures)", "posix_memalign/malloc/free and the like under the default functions", "the error callback (throws)"]
P("C05", src=["mem_main.cpp", "memsim.cpp", "memworld.cpp", "allocworld.cpp"], flavours=["rel", "dbg", "tst"], defs=["-DSIM_PROP=5"], link=WRAPMEM, budget=budget(300000, 80000),
  rule="One run = a drawn chain/tree of memory resources over two simulated upstreams and a history of up to 30 allocate/deallocate/reallocate/clear/acquire/release operations with failures injected upstream; every live block's pattern, bounds, alignment and disjointness and the resources' accounting are checked after every operation.",
  real=MEMREAL, stub=MEMSTUB)
P("C07", src=["mem_main.cpp", "memsim.cpp", "memworld.cpp", "allocworld.cpp"], flavours=["rel", "dbg", "tst"], defs=["-DSIM_PROP=7"], link=WRAPMEM, budget=budget(300000, 80000),
  rule="One run = single-chunk resources over two simulated upstreams under a history heavy in acquire (owned, lent), release, clear, change of the global resource and destruction, with upstream failures; the upstream ledgers are checked at every call and at the end.",
  real=MEMREAL, stub=MEMSTUB)
P("C08", src=["mem_main.cpp", "memsim.cpp", "memworld.cpp", "allocworld.cpp"], flavours=["rel", "dbg", "tst"], defs=["-DSIM_PROP=8"], link=WRAPMEM, budget=budget(300000, 80000),
  rule="One run = chained and nested counting resources (also scoped ones) over simulated upstreams and linear resources, under a history of operations some of which fail; counts() of every counting resource is compared with a reference ledger after every operation.",
  real=MEMREAL, stub=MEMSTUB)
P("C06", src=["mem_main.cpp", "memsim.cpp", "memworld.cpp", "allocworld.cpp"], flavours=["rel", "dbg", "tst"], defs=["-DSIM_PROP=6"], link=WRAPMEM, budget=budget(300000, 80000),
  rule="One run = a chain of memory resources, an Allocator or a SmallAllocator under a history heavy in reallocations (growing, shrinking, moving, across the in-place array) with failures injected; contents are compared with per-block patterns after every operation, successful or not.",
  real=MEMREAL + ["allocator.hpp"], stub=MEMSTUB)
P("C10", src=["mem_main.cpp", "memsim.cpp", "memworld.cpp", "allocworld.cpp"], flavours=["rel", "dbg", "tst"], defs=["-DSIM_PROP=10"], link=WRAPMEM, budget=budget(400000, 100000),
  rule="One run = one allocator type (in-place arrays of 1 to 24 objects of 5 element types and over-alignments, or a plain proxy; global or per-instance resource; also std::vector/std::list over it) under allocate/deallocate/reallocate in any order with failures injected, against a ledger.",
  real=["allocator.hpp", "memory_resource.hpp", "libstdc++ containers"], stub=MEMSTUB)
FLAVOURS["exc"] = dict(cxx="clang++", flags=["-O1", "-DNDEBUG", "-DC4_EXCEPTIONS_ENABLED", "-DC4_ERROR_THROWS_EXCEPTION", "-DC4_ERROR_SHOWS_FILELINE"])
FLAVOURS["loc"] = dict(cxx="g++", flags=["-O1", "-DC4_ERROR_SHOWS_FILELINE", "-DC4_ERROR_SHOWS_FUNC"])
P("C11", src=["c11.cpp"], flavours=["rel", "dbg", "exc", "tst", "loc"], link=["-Wl,--wrap=abort"], budget={"quick": {"rel": (200000, 60), "dbg": (60000, 60), "exc": (100000, 60), "tst": (60000, 60), "loc": (60000, 60)}, "thorough": {"rel": (4000000, 800), "dbg": (1200000, 800), "exc": (2000000, 800), "tst": (1200000, 800), "loc": (1200000, 800)}},
  rule="One run = nested ScopedErrorSettings with drawn flags and callbacks, errors of 14 kinds (macros, message lengths around the truncation point, embedded NUL, formatting failures), callbacks that throw, raise nested errors or return, scope exits by exception and a failing stderr; delivery is checked at every callback, exit and abort.",
  real=["error.cpp, error.hpp (handle_error, handle_warning, ScopedErrorSettings, all check macros); built with and without C4_ERROR_THROWS_EXCEPTION"], stub=["stderr (in-process stream that can fail)", "abort (ends the simulated process)", "the callbacks"])
COV = ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]
WRAPTHR = ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "strlen", "vsnprintf", "snprintf")] + ["-Wl,--wrap=pthread_mutex_lock", "-Wl,--wrap=pthread_rwlock_rdlock", "-Wl,--wrap=pthread_rwlock_wrlock", "-Wl,--wrap=pthread_once", "-Wl,--wrap=__cxa_guard_acquire", "-Wl,--wrap=__cxa_guard_release", "-Wl,--wrap=__cxa_guard_abort", "-ldl"]
FLAVOURS["thr"] = dict(cxx="clang++", flags=["-O0"], libflags=COV + ["-fno-builtin"], harflags=COV + ["-fno-builtin"])
FLAVOURS["thrrel"] = dict(cxx="clang++", flags=["-O2", "-DNDEBUG"], libflags=COV, harflags=COV)
def tbudget(a, b, k=12): return {"quick": {"thr": (a, 100), "thrrel": (b, 100)}, "thorough": {"thr": (a * k, 850), "thrrel": (b * k, 850)}}
P("C12", src=["c12.cpp"], core=["thr.cpp"], flavours=["thr", "thrrel"], chunk=1, link=WRAPTHR, budget=tbudget(40000, 40000),
  rule="One run = one process image, a drawn /proc/self/status (position and value of TracerPid, decoys, length around the buffer size, torn), drawn open/read/close faults and one to four threads making their first calls, pre-empted at drawn instructions.",
  real=["error.cpp: is_debugger_attached", "real threads, one running at a time"], stub=["/proc/self/status and open/openat/read/close/fopen on it", "the thread scheduler", "static-initialisation guards, pthread mutexes, rwlocks and pthread_once (blocking is simulated)"])
P("C09", src=["c09.cpp"], core=["thr.cpp"], flavours=["thr", "thrrel"], chunk=1, link=WRAPTHR, budget=tbudget(20000, 20000),
  rule="One run = one process image with one to four threads, each with a drawn program of set_memory_resource, nested ScopedMemoryResource/ScopedMemoryResourceCounts scopes, allocations through every allocator kind, failing allocations and exceptions that unwind drawn numbers of scopes, pre-empted at drawn instructions; the resource each thread sees and the resource that receives each allocation are compared with a per-thread model.",
  real=["memory_resource.hpp (current resource, Scoped*, MemoryResourceCounts, MemoryResourceMalloc), allocator.hpp", "real threads, one running at a time"], stub=["the recording resources", "aalloc/afree/arealloc", "the thread scheduler", "static-initialisation guards, pthread mutexes, rwlocks and pthread_once (blocking is simulated)"])
P("C13", src=["c13.cpp"], flavours=["rel", "dbg", "tst"], budget=budget(600000, 150000),
  rule="One run = a pool of nine inplace_function objects of three capacities under a history of construction, copy, move, assignment (self, nullptr, closure), swap, widening conversion, call and destruction, with targets of eight kinds whose copy, move or call throws at drawn points; a ledger of live targets is compared with what each function holds after every step.",
  real=["ext/sg14/inplace_function.h"], stub=["the targets (ledgered, throwing)"])
P("C16", src=["c16.cpp", "c16_0.cpp", "c16_1.cpp", "c16_2.cpp", "c16_3.cpp"], flavours=["rel", "dbg", "tst"], budget=budget(400000, 100000),
  rule="One run = two raw buffers of one of nine element types (or allocator-aware elements) under a history of all construct/copy/move/assign/destroy/room helpers (pointer, value and allocator forms, three index types) with element constructors, copies and assignments throwing at drawn points; a ledger of live elements, their values and the bytes of unnamed elements are compared after every step.",
  real=["ctor_dtor.hpp, allocator.hpp (construct, construct_n, destroy, destroy_n)"], stub=["the element types (ledgered, throwing)"])
P("C15", src=["c15.cpp"], flavours=["rel", "dbg", "tst", "nff", "scn"], budget=budget(600000, 150000, nff=100000, scn=50000),
  rule="One run = one record (a value, a cat/catsep/format record, checked integers, base64, UTF code points, aligned raw data, symbol names and bitmask expressions) written by the library and up to five damaged copies of it (cut, lost, flipped, garbage, duplicated, zeroed bytes), each read from two or three placements (against guard pages, amid hostile neighbours, null views) into destinations holding stale contents, then the intact record; verdicts, counts and values are compared across placements and with reference readers.",
  real=["charconv.hpp (all readers), format.hpp/.cpp (uncat, uncatsep, unformat, raw, overflow_checked), base64.cpp, utf.cpp, substr.hpp number spans, std/string.hpp, std/vector.hpp, enum.hpp, bitmask.hpp"], stub=["the medium the record is stored on", "the error callback (throws)"])
P("C14", src=["c14.cpp"], core=["thr.cpp"], flavours=["thr", "thrrel"], chunk=1, link=WRAPTHR, budget=tbudget(24000, 24000),
  rule="One run = one process image with two to four threads, each with a drawn script of up to five calls (of 36 groups covering conversion, formatting, dumping, views, base64, UTF, enums, bitmasks, hashing, type names, allocation, errors) on its own data, pre-empted at drawn instructions (preferably at accesses to global data); results are compared with the same script run alone in a fresh fork of the process, and alone again afterwards.",
  real=["all of src/c4 that the calls reach (instrumented for pre-emption at every edge, load and store)", "real threads, one running at a time"], stub=["the thread scheduler", "static-initialisation guards, pthread mutexes, rwlocks and pthread_once (blocking is simulated)", "the error callback (throws)"])
P("C17", src=["c17.cpp"], flavours=["rel", "dbg", "tst"], budget=budget(400000, 100000),
  rule="One run = one buffer (against a guard page or amid canaries) cut into disjoint regions, each with a client (field reader over next_split keeping only its position, split() iterator, pop loop, line reader over a stream arriving in short reads with in-place compaction, editor, observer), scheduled one step at a time in a drawn order, with restarts, full buffers, short reads and requests outside the view; every view, answer and field is compared with a character-by-character model and the whole page after every step.",
  real=["substr.hpp (selections, searches, comparisons, splitting, popping, in-place edits)"], stub=["the clients, the stream and their scheduler", "the error callback (throws)"])
# errors as exceptions, assertions on: the only build in which span members may let an error out
FLAVOURS["dxc"] = dict(cxx="clang++", flags=["-O1", "-fsanitize=address", "-DC4_EXCEPTIONS_ENABLED", "-DC4_ERROR_THROWS_EXCEPTION"])
P("C18", src=["c18.cpp"], flavours=["rel", "dbg", "tst", "dxc"], budget=budget(300000, 60000, dxc=100000),
  rule="One run = nine spans (span, spanrs, spanrsl; six combinations of element and index type) over one storage against a guard page or amid canaries, under a history of up to 34 subselections, resizes, trims, conversions, recoveries of the original, reassignments, element writes and requests beyond the span; start, size, capacity and offset of every span and the bytes of the whole page are compared with a model after every step.",
  real=["span.hpp"], stub=["the caller", "the error callback (throws)"])
