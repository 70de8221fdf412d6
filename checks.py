"""Registry of the checks: property id -> how it is decided and the programs that do it."""
import copy
import os

from run import Job

CHECKS = {}


def check(pid, level, technique, note, rule, assumptions=(), post=None):
    def deco(fn):
        CHECKS[pid] = dict(level=level, technique=technique, note=note, rule=rule,
                           assumptions=list(assumptions), jobs=lambda tier: small(pid, tier, fn(tier)))
        if post:
            CHECKS[pid]["post"] = post
        return fn
    return deco


# The jobs of a check that are also run as 32 bit programs; after the bar: in the thorough tier only.
SMALL = {
    "C01": "int.rel big.rel tracked.asan | byte.rel moveonly.rel ntctor.rel padded.rel noexc",
    "C02": "int.rel big.rel | padded.rel tracked.rel ntctor.rel",
    "C03": "iter.rel iter11 | iter.asan",
    "C04": "bulk.rel bulk.asan | padded.rel int.rel",
    "C05": "tracked.rel moveonly.asan | moveonly.rel token.rel",
    "C06": "roundtrip.rel roundtrip.asan roundtrip11",
    "C07": "bounded.rel bounded.asan bounded11",
    "C08": "decode.rel decode.asan | decode11",
    "C09": "streams.rel streams.asan fold11",
    "C10": "hist.24.8.0.rel hist.16.16.0.asan hist.c++11 empty.rel odd.c++17.asan | hist.24.8.1.rel hist.1.1.0.rel hist.128.64.0.rel hist.noexc hist.40.4.1.rel",
    "C11": "hist.24.8.1.rel hist.64.32.1.asan hist.c++11 odd.c++11.asan | hist.24.8.0.rel hist.1.1.0.rel hist.128.64.0.rel hist.noexc hist.40.4.1.rel",
    "C12": "sig.c++11 sig.c++17 | sig.c++20 sig.c++14",
    "C13": "hist.asan.c++11 hist.rel.gnu++17 | hist.noexc hist.rel.c++11",
    "C14": "threads.asan | threads.noexc",
    "C15": "args.c++11.0 args.c++11.1 args.c++11.2 results.c++17 | results.c++17-DBACKPORT results.c++20",
    "C16": "seq.c++11.0 seq.c++11.1 seq.c++11.2 seq.c++11.3 | seq.c++20.0 seq.c++20.1 seq.c++20.2 seq.c++20.3",
    "C17": "ops.c++11 | ops.c++20 ops.asan wide.257",
    "C18": "ops.c++11 | ops.c++20 ops.asan wide.255",
    "C19": "poly.asan | poly.c++11 poly.c++20",
    "C25": "sequences.1.rel | sections.1 history.asan",
    "C26": "operations.double.17 butterworth.double.double | operations.float.11 chebyshev1.double.double chebyshev2.double.double bessel.double.double integers.11o0 integers.20rel",
    "C27": "records sequences.0 records.11 | records.14 sequences.1",
    "C29": "buffers.rel codecs.rel functions.rel filters.noexc | functions.o0 mathematics.rel filters.rel",
    "C30": "complex.17 filters.11 | vectors.11 filters.17",
    "C31": "std.17 boost.asan | boost.11 std.asan",
    "C32": "std.11 gcem.14 clang.20 | std.17 gcem.11 clang.11",
}


def small(pid, tier, jobs):
    if pid not in SMALL:
        return jobs
    q, _, t = SMALL[pid].partition("|")
    want = q.split() + (t.split() if tier == "thorough" else [])
    by = {j.name: j for j in jobs if j.tier in ("both", tier)}
    out = list(jobs)
    for n in want:
        j = copy.copy(by[n])
        j.name, j.cxx, j.opt = n + ".m32", "m32:" + j.cxx, "trap" if j.opt == "asan" else j.opt
        out.append(j)
    return out


def both(name, src, flags, asan_flags=(), rel_flags=(), cost=1.0, **kw):
    """The same harness with assertions and sanitizers, and optimised without."""
    return [Job(name + ".asan", src, flags=list(flags) + list(asan_flags), opt="asan", cost=cost, **kw),
            Job(name + ".rel", src, flags=list(flags) + list(rel_flags), opt="rel", cost=cost, **kw)]


MC = "model_checking"
EX = "exploration"
HASHED = "visited states are told apart by a 64 bit hash; a collision could hide a state"

# --------------------------------------------------------------- circular buffer
CBA_A = ["element types stand for all types of their kind (trivial, padded, non-trivial, move-only)",
         "precondition violations (push when full, pop when empty, positions out of range) are outside the properties", HASHED]
CBA_RULE = ("every operation of the alphabet from every reachable state (capacity, start slot, contents) up to the "
            "capacity bound, each executed on the real adapter in lock step with a reference deque; plus every "
            "unmerged history of the stated length; plus corner states of rings around 2^8, 2^16, 2^31 and 2^32 slots")


def hist(name, elem, tag, checks, bulk, throw, values=2, asan=(3, 4, 4, 5), rel=(4, 6, 5, 6), **kw):
    f = ["-DELEM=" + elem, '-DTAG="%s"' % tag, "-DCHECKS=" + checks, "-DBULK=%d" % bulk, "-DTHROW=%d" % throw,
         "-DVALUES=%d" % values]
    b = lambda t: ["-DMAXCAP_Q=%d" % t[0], "-DMAXCAP_T=%d" % t[1], "-DDEPTH_Q=%d" % t[2], "-DDEPTH_T=%d" % t[3]]
    return both(name, "cba_hist.cpp", f, b(asan), b(rel), cost=10, timeout=800, **kw)


def args_jobs():
    return [Job("args.asan", "cba_args.cpp", opt="asan", std="c++11"), Job("args.rel", "cba_args.cpp", opt="rel", std="gnu++20"),
            Job("args.noexc", "cba_args.cpp", opt="dbg", std="c++14", flags=["-fno-exceptions", "-fno-rtti"])]


@check("C01", MC, "explicit-state model checking of the implementation against a reference deque",
       "Every operation from every reachable state of rings up to 4 slots (6 thorough) and every history of 5 (6) operations without "
       "merging; conclusions for larger rings rest on the corner-state sweeps and on the uniformity of the code in the capacity.",
       CBA_RULE, CBA_A)
def c01(tier):
    return (hist("int", "int", "int", "QUEUE", 0, 0) + hist("byte", "uint8_t", "byte", "QUEUE", 0, 0, rel=(4, 5, 4, 5)) +
            hist("padded", "S16", "padded", "QUEUE", 1, 0, values=1) +
            hist("tracked", "Tracked", "tracked", "QUEUE", 0, 0, asan=(3, 4, 3, 4), rel=(4, 5, 4, 5)) +
            hist("moveonly", "MoveOnly", "move-only", "QUEUE", 0, 0, asan=(3, 4, 3, 4), rel=(4, 5, 4, 5)) +
            hist("ntctor", "NtCtor", "non-trivial constructor", "QUEUE", 0, 0, asan=(3, 4, 3, 4), rel=(3, 5, 4, 5)) +
            both("big", "cba_big.cpp", [], timeout=400) + args_jobs() +
            [Job("noexc", "cba_hist.cpp", opt="dbg", flags=["-fno-exceptions", "-DELEM=int", '-DTAG="int"', "-DCHECKS=QUEUE", "-DBULK=0",
                 "-DTHROW=0", "-DVALUES=2", "-DMAXCAP_Q=3", "-DMAXCAP_T=4", "-DDEPTH_Q=3", "-DDEPTH_T=4"])])


@check("C02", MC, "explicit-state model checking of the implementation, slot by slot, with re-attachment as an operation",
       "Every slot of the caller's memory and the canaries around it are compared after every operation from every reachable state of "
       "small rings; re-attaching with the reported first slot and size is an operation of the alphabet.",
       CBA_RULE, CBA_A)
def c02(tier):
    return (hist("int", "int", "int", "SLOTS", 1, 0) + hist("padded", "S16", "padded", "SLOTS", 1, 0, values=1) +
            hist("tracked", "Tracked", "tracked", "SLOTS", 0, 0, asan=(3, 4, 3, 4), rel=(4, 5, 4, 5)) +
            hist("ntctor", "NtCtor", "non-trivial constructor", "SLOTS", 0, 0, asan=(3, 4, 3, 4), rel=(4, 5, 4, 5)) +
            both("big", "cba_big.cpp", [], timeout=400))


@check("C03", MC, "exhaustive evaluation of all iterator expressions on all ring states up to a bound",
       "All pairs of positions on all ring states up to the bound, with all four iterator kinds, against index arithmetic; "
       "standard algorithms against the same algorithm on a plain deque.",
       "all ring states (capacity, start, size) up to the bound x all positions and pairs of positions x all iterator expressions; "
       "all contents over a small alphabet for the algorithms", CBA_A)
def c03(tier):
    return both("iter", "cba_iter.cpp", ["-DCAP_T=12", "-DALG_T=7"], ["-DCAP_Q=6", "-DALG_Q=4"], ["-DCAP_Q=9", "-DALG_Q=6"],
                timeout=800) + \
        [Job("iter11", "cba_iter.cpp", std="c++11", opt="dbg", flags=["-DCAP_Q=5", "-DALG_Q=4", "-DCAP_T=6", "-DALG_T=5"])]


@check("C04", MC, "explicit-state model checking of the bulk operations against element-wise transfer",
       "Every bulk copy of every count, position and wrap on every ring up to the bound for element sizes 1 to 100 bytes, with "
       "exactly sized arrays (sanitizer redzones or canaries), and bulk operations mixed into all histories of small rings.",
       CBA_RULE, CBA_A + ["bulk copies are only available for trivial elements"])
def c04(tier):
    return (both("bulk", "cba_bulk.cpp", ["-Wno-int-in-bool-context", "-DCAP_T=18"], ["-DCAP_Q=10"], ["-DCAP_Q=14"], timeout=800) +
            hist("int", "int", "int", '(QUEUE|SLOTS)', 1, 0, asan=(3, 4, 3, 4)) +
            hist("padded", "S16", "padded", '(QUEUE|SLOTS)', 1, 0, values=1, asan=(3, 4, 3, 4)) +
            both("big", "cba_big.cpp", [], timeout=400))


@check("C05", MC, "explicit-state model checking with an object registry and injected constructor failures",
       "Every operation, and every point at which constructing an element can throw, from every reachable state of small rings; a "
       "registry of living objects decides which object was created or destroyed where.",
       CBA_RULE + "; constructors are made to fail at every construction of an operation", CBA_A)
def c05(tier):
    return (hist("tracked", "Tracked", "tracked", "LIFE", 0, 1, asan=(3, 4, 4, 4), rel=(4, 5, 5, 6)) +
            hist("moveonly", "MoveOnly", "move-only", "LIFE", 0, 1, asan=(3, 4, 3, 4), rel=(4, 5, 5, 6)) +
            hist("token", "Token", "empty", "LIFE", 0, 1, asan=(3, 4, 3, 4), rel=(4, 5, 5, 6)) +
            hist("ntctor", "NtCtor", "non-trivial constructor", "(LIFE|QUEUE)", 0, 0, asan=(3, 4, 3, 4), rel=(4, 5, 4, 5)) + args_jobs())


# ------------------------------------------------------------------------ varint
VAR_A = ["32 and 64 bit values are taken from lattices over their 7-bit groups (every group independently from a small set of digits) "
         "and all values next to powers of two; 8 and 16 bit values are complete; 32 bit values are complete in the thorough tier"]


@check("C06", EX, "exhaustive enumeration of bounded value spaces against an arithmetic reference codec",
       "Complete for 8 and 16 bit types (32 bit thorough); group lattices beyond that.",
       "every value of every 8/16 bit type and lattices of wider ones, through every encode overload; non-trivial: encodings longer "
       "than one byte", VAR_A)
def c06(tier):
    j = both("roundtrip", "varint.cpp", ["-DPROP=6"], timeout=800)
    j += [Job("roundtrip11", "varint.cpp", std="c++11", opt="dbg", flags=["-DPROP=6"], timeout=800)]
    j += [Job("full32.%d" % i, "varint.cpp", opt="rel", flags=["-DPROP=6", "-DFULL32"], args=[str(i)], tier="thorough", timeout=800, cost=20)
          for i in range(4)]
    return j


@check("C07", EX, "exhaustive enumeration of values x buffer sizes with monitored iterators",
       "Complete for 8 and 16 bit types and every buffer size from 0 to 11.",
       "values x every buffer size 0..11 x iterator kinds; iterators that report being used at the end; non-trivial: no spare space", VAR_A)
def c07(tier):
    return both("bounded", "varint.cpp", ["-DPROP=7"], timeout=800) + \
        [Job("bounded11", "varint.cpp", std="c++11", opt="dbg", flags=["-DPROP=7"], timeout=800)]


@check("C08", EX, "exhaustive enumeration of byte strings with monitored iterators against an arithmetic reference decoder",
       "All byte strings that differ before their terminating byte up to three bytes; beyond that all strings over a few continuation "
       "bytes with all terminating bytes, up to two bytes more than the widest encoding.",
       "byte strings as runs of continuation bytes followed by each terminating byte or none, for every target type; non-trivial: two or "
       "more bytes", VAR_A)
def c08(tier):
    return both("decode", "varint.cpp", ["-DPROP=8"], timeout=800, cost=5) + \
        [Job("decode11", "varint.cpp", std="c++11", opt="rel", flags=["-DPROP=8"], timeout=800, cost=5)]


@check("C09", EX, "exhaustive enumeration of values and of element sequences with every cut",
       "Folding complete for 8 and 16 bit types; all streams of up to three elements (four thorough) over 40 (type, value) pairs, cut at "
       "every byte, through every container.",
       "all values of the folding; all sequences of up to 3 (4) of 40 typed values x every cut; non-trivial: two or more elements", VAR_A)
def c09(tier):
    return both("streams", "varint.cpp", ["-DPROP=9"], timeout=800) + \
        [Job("fold11", "varint.cpp", std="c++11", opt="dbg", flags=["-DPROP=9", "-DFOLD_ONLY"], timeout=800)]


# ---------------------------------------------------------------------- function
FN_A = ["callables stand for all callables of their kind (small, capacity filling, move-only, over-aligned, trivial, free function, "
        "member pointers); copying an lvalue callable into a wrapper is assumed not to throw", HASHED,
        "moving a wrapper to itself may leave it empty or unchanged"]
FN_RULE = ("every operation from every reachable assignment of targets to three wrappers (merged by what the wrappers hold), and every "
           "unmerged history of the stated length over two wrappers, each replayed from the start on real wrappers, with everything "
           "checked after every step")


def fn_jobs(prop):
    jobs = []
    for cap, al, cs, opt in [(24, 8, 0, "rel"), (24, 8, 1, "rel"), (24, 8, 0, "asan"), (16, 16, 0, "asan"), (64, 32, 1, "asan"),
                             (1, 1, 0, "rel"), (128, 64, 0, "rel"), (40, 4, 1, "rel"), (64, 16, 1, "rel")]:
        f = ["-DPROP=%d" % prop, "-DCAP=%d" % cap, "-DALIGN=%d" % al, "-DCONSTSIG=%d" % cs, "-DNW=3", "-Wno-mismatched-new-delete"]
        f += ["-DSTATES_Q=3000", "-DDEPTH_Q=4", "-DDEPTH_T=5"] if opt == "rel" else ["-DSTATES_Q=150", "-DDEPTH_Q=3", "-DDEPTH_T=4"]
        jobs.append(Job("hist.%d.%d.%d.%s" % (cap, al, cs, opt), "function_hist.cpp", flags=f, opt=opt, timeout=850, cost=5))
    f = ["-DPROP=%d" % prop, "-DCAP=24", "-DALIGN=8", "-DCONSTSIG=0", "-DNW=3", "-Wno-mismatched-new-delete", "-DSTATES_Q=300",
         "-DDEPTH_Q=3", "-DDEPTH_T=4"]
    jobs.append(Job("hist.c++11", "function_hist.cpp", flags=f, opt="dbg", std="c++11", timeout=850))
    jobs.append(Job("hist.noexc", "function_hist.cpp", flags=f + ["-fno-exceptions", "-fno-rtti"], opt="dbg", timeout=850))
    return jobs


def odd_jobs(*modes, **kw):
    return [Job("odd.%s.%s" % (std, opt), "function_odd.cpp", opt=opt, std=std, cxx=cxx, cost=3,
                flags=kw.get("flags", []) + (["-fno-exceptions", "-fno-rtti"] if opt == "dbg" else [])) for std, opt, cxx in modes]


@check("C10", MC, "explicit-state and stateless model checking of wrapper histories against a reference assignment",
       "All histories of 4 operations (6 thorough) without merging and all operations from every merged state over three wrappers, for "
       "nine capacity/alignment/signature configurations.", FN_RULE, FN_A)
def c10(tier):
    return fn_jobs(10) + [Job("empty.dbg", "function_empty.cpp", opt="dbg", flags=["-fno-exceptions"]),
                          Job("empty.rel", "function_empty.cpp", opt="rel", flags=["-fno-exceptions", "-fno-rtti"])
                          ] + odd_jobs(("c++17", "asan", "g++"), ("c++11", "dbg", "clang++"))


@check("C11", MC, "explicit-state and stateless model checking of wrapper histories with an object registry; compile-time rejection cases",
       "As C10, with every callable registered by address: place, alignment, number of moves and copies, creation and destruction, and "
       "use after destruction are decided after every step.", FN_RULE, FN_A)
def c11(tier):
    jobs = fn_jobs(11)
    for i in range(1, 20):
        for std in ("c++11", "c++17"):
            if i == 17 and std == "c++11":
                continue
            jobs.append(Job("reject.%d.%s" % (i, std), "function_reject.cpp", kind="reject", opt="none", std=std,
                            flags=["-DCASE=%d" % i], cost=0.2))
    return jobs + odd_jobs(("c++11", "asan", "g++"), ("c++20", "rel", "clang++"), flags=["-DMOVES=1"])


@check("C12", EX, "exhaustive evaluation of a signature x callable matrix and of all argument and result categories",
       "Acceptance decided for every pair of 90 signatures and 53 callables (and 38 signatures with 11 member pointers) in each "
       "language mode; forwarding decided for every category and every access path, with both constnesses.",
       "signatures x callables x ways of asking; argument/result categories x constness x access path; non-trivial: accepted pairs and "
       "calls made", ["the reference for acceptance is the call expression itself, cross-checked with std::is_invocable_r in C++17",
                      "results that would bind a reference to a temporary are left out"])
def c12(tier):
    return [Job("sig.c++11", "function_sig.cpp", std="c++11", opt="o0", cost=9), Job("sig.c++17", "function_sig.cpp", opt="rel", cost=9),
            Job("sig.c++14", "function_sig.cpp", std="c++14", opt="dbg", cost=9),
            Job("sig.c++20", "function_sig.cpp", std="c++20", opt="rel", cost=9),
            Job("sig.asan", "function_sig.cpp", opt="asan", cost=12)
            ] + odd_jobs(("c++14", "rel", "g++"), ("gnu++17", "asan", "clang++"), ("c++11", "dbg", "g++"))


# ------------------------------------------------------------------ move wrapper
@check("C13", MC, "stateless and explicit-state model checking of wrapper histories with injected move failures",
       "Every history of 4 operations (5 thorough) over a pool of wrappers for several element kinds, each operation with the move succeeding "
       "and failing; which value lives where is decided after every step.",
       "every sequence of wrap, copy, move, access and destroy operations up to the depth, with each throwing move as a choice", [])
def c13(tier):
    w = ["-Wno-terminate", "-Wno-extra"]
    j = []
    for std in ("c++11", "gnu++17"):
        j += [Job("hist.asan." + std, "move_wrapper.cpp", std=std, opt="asan", flags=w + ["-DLIBEMB_EXC=1", "-DDEPTH_Q=3", "-DDEPTH_T=4"], timeout=850),
              Job("hist.rel." + std, "move_wrapper.cpp", std=std, opt="rel", flags=w + ["-DLIBEMB_EXC=1", "-DDEPTH_Q=4", "-DDEPTH_T=5"], timeout=850)]
    j += [Job("hist.noexc", "move_wrapper.cpp", opt="dbg", flags=w + ["-fno-exceptions", "-fno-rtti", "-DLIBEMB_EXC=0", "-DDEPTH_Q=4", "-DDEPTH_T=4"], timeout=850)]
    return j


# -------------------------------------------------------------------- lock guard
@check("C14", MC, "stateless model checking of the real lock guard under a controlled scheduler",
       "All schedules of all pairs of programs of up to two guarded blocks and of all triples of one block; triples with nested blocks up to "
       "one preemption (three thorough). All single-thread programs of three blocks with every way of leaving a scope.",
       "programs (forests of guarded blocks over mutexes x way of leaving the block x lock failing) x all schedules of their lock, unlock "
       "and data accesses",
       ["threads are fibers; the scheduling points are the mutex operations and the accesses to the protected data", HASHED])
def c14(tier):
    e = ["-DLIBEMB_EXC=1"]
    j = [Job("threads.%d" % i, "lock_guard.cpp", std="c++11", opt="rel", flags=e + ["-DSMALL=0", "-DSINGLE3=0", "-DFULL3=1"],
             args=[str(i), "4"], timeout=880, cost=9) for i in range(4)]
    j += [Job("threads.asan", "lock_guard.cpp", opt="asan", flags=e + ["-DSMALL=1", "-DSINGLE3=0", "-DFULL3=0"], timeout=880, cost=8),
          Job("threads.noexc", "lock_guard.cpp", opt="dbg", flags=["-fno-exceptions", "-fno-rtti", "-DLIBEMB_EXC=0", "-DSMALL=0", "-DSINGLE3=0",
                                                                  "-DFULL3=1"], timeout=880)]
    return j


# --------------------------------------------------------------- type traits
@check("C15", EX, "exhaustive evaluation of type matrices and of all short part lists",
       "Every callable x argument list x result of the matrices (some 95 callables, 49 argument lists, 52 x 54 results), and every list of up to "
       "four parts of six kinds plus long lists with the first false part at every place.",
       "callable types x argument lists x results, result types x requested types, part lists; non-trivial: questions answered with yes, lists",
       ["the reference is the standard's definition, itself compared with std::is_invocable_r and std::conjunction in C++17",
        "array and function types as result and results that cannot be moved are left out (libstdc++ deviates or C++11 cannot express them)"])
def c15(tier):
    j = []
    for i in range(3):
        j += [Job("args.c++11.%d" % i, "traits.cpp", std="c++11", opt="o0", flags=["-w", "-DPARTS=1", "-DPACKS=%d" % i], cost=5),
              Job("args.backport17.%d" % i, "traits.cpp", std="c++17", opt="o0", flags=["-w", "-DBACKPORT", "-DPARTS=1", "-DPACKS=%d" % i], cost=9)]
    for std, f in (("c++11", []), ("c++14", []), ("c++17", []), ("c++17", ["-DBACKPORT"]), ("c++20", [])):
        j.append(Job("results.%s%s" % (std, "".join(f)), "traits.cpp", std=std, opt="o0", flags=["-w", "-DPARTS=6"] + f, cost=4))
    return j


@check("C16", EX, "exhaustive evaluation of all lengths, ranges and short type lists up to a bound",
       "All lengths up to 64 (128 thorough) and the lengths around 2^7, 2^8 up to 800 for eight types; all ranges within windows at the ends, around zero "
       "and around powers of two of each type; all pairs of lists of up to four and two types.",
       "lengths, (begin, end) pairs per type, pairs of type lists; non-trivial: more than one element", [])
def c16(tier):
    j = []
    for i in range(4):
        j.append(Job("seq.c++11.%d" % i, "sequences.cpp", std="c++11", opt="o0", flags=["-DPART=%d" % i, "-DLEN=%d" % (128 if tier == "thorough" else 64)], cost=3))
        j.append(Job("seq.c++20.%d" % i, "sequences.cpp", std="c++20", opt="rel", flags=["-DPART=%d" % i, "-DLEN=40"], cost=3))
    return j


# ------------------------------------------------ constant-expression mathematics
def wide(prop, sizes, sort=()):
    return [Job("wide.%d%s" % (n, ".sort" if n in sort else ""), "wide.cpp", std="gnu++11", opt="o0", cost=20 if n in sort else 3,
                flags=["-DPROP=%d" % prop, "-DN1=%d" % n, "-DWIDE_SORT=%s" % ("true" if n in sort else "false"), "-ftemplate-depth=3000"]) for n in sizes]


def cvec(prop):
    f = ["-DPROP=%d" % prop]
    return [Job("ops.c++11", "cvector.cpp", std="c++11", opt="rel", flags=f + ["-DBIG=1", "-DVECTOR_FIRST"], cost=8),
            Job("ops.c++14", "cvector.cpp", std="c++14", opt="rel", flags=f + ["-DBIG=1"], cost=8),
            Job("ops.c++20", "cvector.cpp", std="c++20", opt="dbg", flags=f + ["-DBIG=1"], cost=8),
            Job("ops.asan", "cvector.cpp", std="c++17", opt="asan", flags=f + ["-DBIG=0"], cost=12)]


@check("C17", EX, "exhaustive evaluation of all operations on all vector contents over small alphabets, at run time and in constant expressions",
       "Sizes 0 to 8 and 12, eight element types, and one contents of each of 127 to 129, 255 to 257 and 300 elements; every position and range; contents over 2 to 9 values. The same checks are evaluated by the "
       "compiler in constant expressions for sizes up to 4.",
       "vector contents over small alphabets x every operation with every position, range and scalar; each contents counted once",
       ["conclusions for larger sizes rest on the uniformity of the code in the size"])
def c17(tier):
    return cvec(17) + wide(17, [127, 128, 129, 255, 256, 257, 300] + ([400, 513] if tier == "thorough" else []))


@check("C18", EX, "exhaustive evaluation of all contents x all strict weak orders, predicates and pairs",
       "All contents of up to 6 elements over 4 values under all 75 strict weak orders, 8 elements over 3 values, 10 over 2, all permutations of up "
       "to 8 (9 thorough); all pairs of vectors over alphabets with not-a-number for equality; structured contents of 16, 33 and 127 to 300 elements (a distinguished element at every position).",
       "contents x strict weak orders, permutations, pairs of contents", [])
def c18(tier):
    return cvec(18) + wide(18, [127, 128, 129, 255, 256, 257, 300], [129, 257] if tier == "thorough" else [129])


@check("C19", EX, "exhaustive evaluation of all coefficient and root sequences over small alphabets, at run time and in constant expressions",
       "All operand pairs of up to 8 (10) coefficients together over 3 to 7 values, all pairs of sizes up to 8 with every pair of unit vectors (which "
       "decide a bilinear map completely), all sequences of up to 6 real or complex roots (12 over two values), operands of up to 300 coefficients and 256 roots; exact integer reference.",
       "coefficient pairs, unit vector pairs for every pair of sizes, root sequences; non-trivial: more than one coefficient or root", [])
def c19(tier):
    n = 14 if tier == "thorough" else 8
    return [Job("poly.c++11", "cpoly.cpp", std="c++11", opt="rel", flags=["-DBIG=1", "-DSIZES=%d" % n], cost=8),
            Job("poly.c++14", "cpoly.cpp", std="c++14", opt="dbg", flags=["-DBIG=0", "-DSIZES=6"], cost=8),
            Job("poly.c++20", "cpoly.cpp", std="c++20", opt="rel", flags=["-DBIG=0", "-DSIZES=6"], cost=8),
            Job("poly.asan", "cpoly.cpp", opt="asan", flags=["-DBIG=0", "-DSIZES=5"], cost=12)] + wide(19, [0, 1, 2])


@check("C20", EX, "exhaustive evaluation of all operand pairs of lattices against exact and 113 bit references",
       "All pairs of 144 exactly representable operands, 121 that are not, and all integer pairs up to 7 (12); lattices of magnitudes and angles for the "
       "exponential; float, double and long double.",
       "operand pairs x operations; non-trivial: operations whose result must be exact, and quotients and exponentials",
       ["infinities, not-a-number and overflow are left out", "rounding: a few units in the last place relative to the sum of the absolute terms"])
def c20(tier):
    return [Job("complex.c++11", "ccomplex.cpp", std="gnu++11", opt="rel", libs=["-lquadmath"]),
            Job("complex.c++20", "ccomplex.cpp", std="gnu++20", opt="rel", libs=["-lquadmath"]),
            Job("complex.asan", "ccomplex.cpp", opt="asan", libs=["-lquadmath"], cost=5)]


# --------------------------------------------------------------------- filters
Q128 = ["-lquadmath"]


@check("C21", EX, "exhaustive evaluation of all orders, parameters of a lattice and types against 113 bit (Bessel: 200 digit) references",
       "Butterworth and Chebyshev prototypes of every order up to 48 (128 thorough) with 24 ripples and 37 attenuations, Bessel prototypes of "
       "all 100 orders, in float, double and long double.",
       "family x order x ripple or attenuation x type; every case compares all poles, zeros, the gain and the structure",
       ["between the lattice points conclusions rest on the smoothness of the formulas in the parameters",
        "tolerance: 12 units in the last place plus what rounding the ripple can do; the order of poles and zeros is free"])
def c21(tier):
    j = []
    top = 128 if tier == "thorough" else 48
    for fam, step in ((0, 24), (1, 12), (2, 12)):
        for lo in range(1, top + 1, step):
            j.append(Job("proto.%d.%d" % (fam, lo), "prototypes.cpp", opt="dbg", cost=5, libs=Q128, timeout=800,
                         flags=["-w", "-ftemplate-depth=3000", "-DFAM=%d" % fam, "-DLO=%d" % lo, "-DHI=%d" % min(top, lo + step - 1)]))
    # on both sides of sizes at which a narrow index would wrap around
    for fam in range(3):
        for lo, hi in ((127, 130), (255, 258)):
            j.append(Job("proto.%d.%d" % (fam, lo) + (".edge" if tier == "thorough" else ""), "prototypes.cpp", opt="dbg", cost=15, libs=Q128, timeout=800,
                         flags=["-w", "-ftemplate-depth=3000", "-DFAM=%d" % fam, "-DLO=%d" % lo, "-DHI=%d" % hi]))
    for lo in range(1, 101, 20):
        j.append(Job("proto.3.%d" % lo, "prototypes.cpp", opt="rel", cost=20 + lo / 20, libs=Q128,
                     flags=["-w", "-DFAM=3", "-DLO=%d" % lo, "-DHI=%d" % (lo + 19)]))
    for fam in range(4):
        j.append(Job("proto11.%d" % fam, "prototypes.cpp", std="gnu++11", opt="asan", cost=6, libs=Q128,
                     flags=["-w", "-DFAM=%d" % fam, "-DLO=1", "-DHI=6"]))
    return j


# --------------------------------------------------------------- designs
FAMS = ("butterworth", "chebyshev1", "chebyshev2", "bessel")


def designs(judge, tier):
    j = []
    top = 24 if tier == "thorough" else 12
    for fam in range(4):
        for ty, tname in enumerate(("double", "float", "longdouble")):
            # narrow types need no high orders
            t = min(top, 16) if ty == 1 else top
            step = 4 if tier == "thorough" else 6
            for lo in range(1, t + 1, step):
                j.append(Job("%s.%s.%d" % (FAMS[fam], tname, lo), "designs.cpp", opt="rel", std="gnu++17", cost=6 + 2 * lo + 4 * fam, libs=Q128, timeout=850,
                             flags=["-w", "-ftemplate-depth=3000", "-DJUDGE=%d" % judge, "-DFAM=%d" % fam, "-DTYPES=%d" % ty, "-DLO=%d" % lo, "-DHI=%d" % min(t, lo + step - 1)]))
        j.append(Job("%s.asan11" % FAMS[fam], "designs.cpp", opt="asan", std="gnu++11", cost=15, libs=Q128, timeout=850,
                     flags=["-w", "-DJUDGE=%d" % judge, "-DFAM=%d" % fam, "-DTYPES=0", "-DLO=1", "-DHI=3"]))
        # sections of high orders; every Bessel order is a table of its own
        if fam == 3:
            groups = [(n, n + 2) for n in range(13, 48, 3)] + ([(n, n + 1) for n in range(49, 100, 2)] if tier == "thorough" else [])
        else:
            groups = [(n, n) for n in (16, 24, 33, 48) + ((64, 96) if tier == "thorough" else ())]
        for lo, hi in groups:
            j.append(Job("%s.high.%d" % (FAMS[fam], lo), "designs.cpp", opt="dbg", std="gnu++17", cost=lo / 2, libs=Q128, timeout=850,
                         flags=["-w", "-ftemplate-depth=3000", "-DHIGH", "-DJUDGE=%d" % judge, "-DFAM=%d" % fam, "-DTYPES=0", "-DLO=%d" % lo, "-DHI=%d" % hi]))
    return j


DESIGN_A = ["between the points of the lattice (ripples, cutoffs, frequencies) conclusions rest on the smoothness of the formulas",
            "the tolerance is a bound of what rounding in the types used can do; where it allows no conclusion (wide margin polynomials in narrow "
            "types) a case counts as evaluated but not as distinct_nontrivial, and designs whose products leave the exponent range are left out"]


@check("C22", EX, "exhaustive evaluation of all designs of a lattice (family, order, ripple, rates, cutoff, direction, types, form) at a grid of frequencies against 113 bit references",
       "Every design's response (magnitude and phase) at 29 frequencies, zero, half the sample rate and the cutoff among them, against the "
       "prototype's under the bilinear mapping, itself checked against the closed form definition of the family.",
       "family x order 1..12 (24 thorough) x ripple x 16 (23) cutoff ratios x sample rates x low/high pass x design and coefficient types x "
       "polynomial, sections in both gain modes x 29 frequencies; sections of orders 16, 24, 33, 48 and every Bessel order to 48 (100 thorough); 1024 times both rates gives identical coefficients", DESIGN_A)
def c22(tier):
    return designs(22, tier)


@check("C23", EX, "exhaustive evaluation of all designs of the same lattice: Schur-Cohn test and stability triangle in 113 bit arithmetic, and bounded exhaustive runs of the filters",
       "Coefficients finite, leading feedback coefficient one, stable by the Schur-Cohn recursion or the triangle wherever a Rouche type "
       "argument says that the precision decides; impulse, constant, alternating and the worst bounded input run through each filter.",
       "family x order x ripple x cutoff ratios x sample rates x low/high pass x types x forms; outputs are compared with the sum of the "
       "magnitudes of the impulse response at every sample and have to die out (to nothing after 240 time constants); orders as for C22", DESIGN_A)
def c23(tier):
    return designs(23, tier)


# --------------------------------------------------------------- forms
@check("C24", EX, "exhaustive evaluation of all conjugation closed multisets of zeros and poles from lattices, in all or many orders of the lists, against integer expansions",
       "All pairs of multisets up to order 8 from lattices of roots (real, complex, repeated, on the unit circle, zero), every arrangement of both "
       "lists up to order 4; orders 9 to 15 with lists of different roots.",
       "zeros x poles x arrangements x gains x types x polynomial, gain first, gain distributed; every section's quadratics are matched with the "
       "given roots, each of which has to be used up once", ["the lattices stand for all roots; values near the limits of the type are not among them"])
def c24(tier):
    f = ["-w", "-ftemplate-depth=3000"]
    th = tier == "thorough"
    j = [Job("forms.%d.%d" % (a, b), "pairing.cpp", opt="rel", std="gnu++17", cost=10, flags=f + ["-DN_LO=%d" % a, "-DN_HI=%d" % b], timeout=850)
         for a, b in ((1, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8))]
    j += [Job("forms.high.%d" % a, "pairing.cpp", opt="rel", std="gnu++17", cost=10, flags=f + ["-DHIGH", "-DN_LO=%d" % a, "-DN_HI=%d" % b], timeout=850)
          for a, b in (((9, 15), (16, 20), (21, 24)) if th else ((9, 15),))]
    j += [Job("forms.asan.%d" % a, "pairing.cpp", opt="asan", std=s, cost=12, flags=f + h + ["-DN_LO=%d" % a, "-DN_HI=%d" % b], timeout=850)
          for a, b, s, h in ((1, 3, "gnu++11", []), (9, 11, "gnu++20", ["-DHIGH"]))]
    return j


# --------------------------------------------------------------- running filters
@check("C25", MC, "explicit-state exploration of the real filter objects: all input sequences and all histories of operations on several instances, in lock step with the difference equations in exact arithmetic",
       "Filters of orders 1 to 12 (and 16, 17, 25, 32) with integer coefficients over the integers modulo a prime, fixed point, integers and "
       "floating point: instance, explicit state and hand made cascade; all histories of creating, feeding, copying and assigning up to three "
       "instances of six kinds.",
       "states: input sequences; transitions: samples or operations; every output compared with the definition evaluated from all past inputs and outputs",
       ["the arithmetic types stand for all types; rounding types are judged where sums are exact or associative",
        "the polynomial form needs a type to which the design's type converts implicitly"])
def c25(tier):
    j = both("sequences.1", "running.cpp", ["-w", "-DPART=0", "-DN_LO=1", "-DN_HI=3"], cost=8, std="gnu++11", timeout=850)
    for a, b in ((4, 6), (7, 9), (10, 12)):
        j.append(Job("sequences.%d" % a, "running.cpp", flags=["-w", "-DPART=0", "-DN_LO=%d" % a, "-DN_HI=%d" % b], opt="rel", std="gnu++17", cost=7, timeout=850))
    for a, b in ((1, 6), (7, 12)):
        j.append(Job("sections.%d" % a, "running.cpp", flags=["-w", "-DPART=0", "-DSECTIONS_ONLY", "-DN_LO=%d" % a, "-DN_HI=%d" % b], opt="rel", std="gnu++20", cost=7, timeout=850))
    j.append(Job("large", "running.cpp", flags=["-w", "-DPART=0", "-DLARGE"], opt="rel", std="gnu++17", cost=7, timeout=850))
    j.append(Job("history", "running.cpp", flags=["-w", "-DPART=1", "-DDEPTH_Q=6", "-DDEPTH_T=7"], opt="rel", std="gnu++17", cost=12, timeout=850))
    j.append(Job("history.asan", "running.cpp", flags=["-w", "-DPART=1", "-DDEPTH_Q=4", "-DDEPTH_T=5"], opt="asan", std="gnu++14", cost=12, timeout=850))
    return j


@check("C27", EX, "exhaustive enumeration of records and of all sequences of up to three records of six kinds, written by the real macros and "
       "read back from the program's own sections by the documented layout and by the project's script",
       "All structures and types for orders 1 to 10 (24 thorough) and 32, names of every length from 0 to 140 and around powers of two, with and "
       "without terminating zero; two translation units; several language modes and optimisation levels.",
       "evaluations: records compared; distinct: sections, each a different sequence of records",
       ["gcc on a little endian ELF system (64 and 32 bit); clang builds of constexpr_math need a third-party library that is not there",
        "the script knows float and double only and is run on records of these"])
def c27(tier):
    import run
    two = ["records2.cpp"]
    hi = "-DORDER_HI=%d"
    sc = ['-DSCRIPT="%s/scripts/parse-filter-coefs.py"' % run.REPO, '-DPYSTUB="%s/lib/pystub"' % run.VERIF]
    j = [Job("records", "records.cpp", flags=["-w", "-DPART=0", hi % (10 if tier == "quick" else 24)], opt="o0", srcs=two, cost=10, timeout=300),
         Job("script", "records.cpp", flags=["-w", "-O2", "-DPART=0", hi % 8] + sc, opt="none", std="gnu++20", srcs=two, cost=9, timeout=300),
         Job("records.11", "records.cpp", flags=["-w", "-O2", "-DPART=0", hi % 4], std="c++11", opt="none", srcs=two, cost=6, timeout=300),
         Job("records.14", "records.cpp", flags=["-w", "-Os", "-fno-exceptions", "-fno-rtti", "-DPART=0", hi % 4], std="gnu++14", opt="none", srcs=two, cost=6, timeout=300),
         Job("lto", "records.cpp", flags=["-w", "-O2", "-flto", "-DPART=1", "-DSEQ_MOD=5", "-DSEQ_REM=3"], opt="none", srcs=two, cost=5, timeout=300)]
    for r in (0, 1):
        j.append(Job("sequences.%d" % r, "records.cpp", flags=["-w", "-O%d" % (r * 2), "-DPART=1", "-DSEQ_MOD=2", "-DSEQ_REM=%d" % r], opt="none", srcs=two, cost=6, timeout=300))
    if tier == "thorough":
        for std in ("c++11", "c++14", "c++17", "c++20", "gnu++23"):
            for o in ("0", "1", "2", "3", "s"):
                j.append(Job("all.%s.%s" % (std[-2:], o), "records.cpp", flags=["-w", "-O" + o, "-DPART=0", hi % 8], std=std, opt="none", srcs=two, cost=6, timeout=300))
                j.append(Job("seq.%s.%s" % (std[-2:], o), "records.cpp", flags=["-w", "-O" + o, "-DPART=1", "-DSEQ_MOD=1", "-DSEQ_REM=0"], std=std, opt="none", srcs=two, cost=6, timeout=300))
    return j


@check("C30", EX, "exhaustive enumeration of values, sizes, nestings and stream states; every printed text is read back by an independent parser "
       "and compared with the value",
       "Complex numbers: all pairs of 34 values (zeros and infinities of both signs, NaN, extremes) of three types; vectors and arrays of sizes 0 to 4 "
       "and 7, nested up to three deep; sections, filters and zero-pole-gain descriptions; 168 stream states (precision, notation, sign, case).",
       "evaluations: numbers read back; distinct: values printed, different by construction",
       ["numbers themselves are printed by the standard library, which is trusted", "stand-in for the third-party fixed point type"])
def c30(tier):
    j = []
    for p, n in ((0, "complex"), (1, "vectors"), (2, "filters")):
        for std in ("gnu++11", "gnu++17") + (("gnu++14", "gnu++20", "gnu++23") if tier == "thorough" else ()):
            j.append(Job("%s.%s" % (n, std[-2:]), "printing.cpp", flags=["-w", "-DPART=%d" % p], opt="rel", std=std, cost=(3, 10, 6)[p], timeout=800))
        if tier == "thorough" or p != 1:
            j.append(Job(n + ".asan", "printing.cpp", flags=["-w", "-DPART=%d" % p], opt="asan", cost=9, timeout=850))
    return j


@check("C29", MC, "explicit-state exploration of all short histories of the real objects under an allocation monitor (every allocation entry point "
       "is intercepted), and inspection of the program for writable memory of the library's own",
       "All histories of 4 operations (6 thorough) on rings of up to 4 slots, on pairs of function wrappers of six capacities and of 4 copies and "
       "moves of move wrappers; every operation from every state of rings of 7 and sampled corner states of a ring of 1023; boundary integers; "
       "filters of all families up to order 10 and 24.",
       "states: objects' states after each operation; transitions: monitored calls into the library; traces: complete histories",
       ["exception objects of documented misuse are exempt", "system calls that bypass the C library's allocator are not intercepted"])
def c29(tier):
    j = []
    for p, n in enumerate(("buffers", "codecs", "functions", "mathematics", "filters")):
        for name, std, opt, fl in (("rel", "gnu++17", "rel", []), ("o0", "gnu++11", "o0", []), ("noexc", "gnu++14", "dbg", ["-fno-exceptions"])) + (
                (("20", "gnu++20", "rel", ["-O3"]), ("23", "gnu++23", "o0", [])) if tier == "thorough" else ()):
            j.append(Job(n + "." + name, "alloc.cpp", flags=["-w", "-DPART=%d" % p] + fl, opt=opt, std=std, cost=(2, 1, 4, 8, 9)[p], timeout=850))
    return j


@check("C26", EX, "exhaustive enumeration of designs and operations, each evaluated by the compiler in a constant expression and by the program on values hidden from it",
       "All four families, orders 1 to 8 (16 thorough), low and high pass, polynomial and both section forms, four (eight) sets of rate, cutoff and "
       "ripple, three precisions; 23 functions on all sixteenths of an interval, powers, 150 pairs of complex numbers, vectors of seven sizes.",
       "evaluations: numbers compared; distinct: designs and operations",
       ["gcc's constant evaluation is correctly rounded; the C library's functions are within two units in the last place",
        "clang cannot evaluate the library's functions in constant expressions without a third-party library that is not there"])
def c26(tier):
    j = []
    q = tier == "quick"
    for f, fam in enumerate(("butterworth", "chebyshev1", "chebyshev2", "bessel")):
        for tp, tf, std, opt, hi in (("double", "double", "gnu++17", "rel", 8), ("float", "float", "gnu++14", "o0", 6), ("LD", "LD", "gnu++20", "rel", 6),
                                     ("double", "float", "gnu++11", "o0", 6), ("LD", "double", "gnu++23", "rel", 3)):
            j.append(Job("%s.%s.%s" % (fam, tp, tf), "twice.cpp", flags=["-w", "-DPART=0", "-DFAM=%d" % f, "-DLO=1", "-DHI=%d" % hi, "-DTP=" + tp, "-DTF=" + tf,
                     "-DCASES=%d" % (4 if q else 8)], opt=opt, std=std, cost=5))
        if not q:
            for lo, hi in ((9, 10), (11, 12), (13, 14), (15, 16)):
                for std in ("c++14", "c++20"):
                    j.append(Job("%s.%d.%s" % (fam, lo, std[-2:]), "twice.cpp", flags=["-w", "-DPART=0", "-DFAM=%d" % f, "-DLO=%d" % lo, "-DHI=%d" % hi,
                             "-DTP=double", "-DTF=double", "-DCASES=8"], opt="rel", std=std, cost=5))
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    gcem = ["-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR", "-I", os.path.join(here, "stub_gcem")]
    j += [Job("integers." + s[-2:] + o, "twice.cpp", flags=["-w", "-DPART=2", "-ftemplate-depth=2000"], opt=o, std=s, cost=4)
          for s, o in (("gnu++11", "o0"), ("c++14", "rel"), ("gnu++17", "o0"), ("c++20", "rel"), ("gnu++23", "rel"))]
    j += [Job("integers.clang", "twice.cpp", flags=["-w", "-DPART=2", "-ftemplate-depth=2000", "-I", os.path.join(here, "stub_gcem")], cxx="clang++", opt="rel", std="c++11", cost=4)]
    j.append(Job("operations.gcem", "twice.cpp", flags=["-w", "-DPART=1", "-DTP=double"] + gcem, opt="rel", std="gnu++14", cost=15))
    j.append(Job("chebyshev1.gcem", "twice.cpp", flags=["-w", "-DPART=0", "-DFAM=1", "-DLO=1", "-DHI=6", "-DTP=double", "-DTF=double", "-DCASES=4"] + gcem, opt="rel", std="gnu++17", cost=5))
    for tp, std, opt in (("double", "gnu++17", "dbg"), ("float", "gnu++11", "o0"), ("LD", "gnu++14", "rel")) + (() if q else (
            ("double", "gnu++20", "rel"), ("float", "gnu++23", "rel"), ("LD", "gnu++20", "o0"), ("double", "gnu++11", "o0"))):
        j.append(Job("operations.%s.%s" % (tp, std[-2:]), "twice.cpp", flags=["-w", "-DPART=1", "-DTP=" + tp], opt=opt, std=std, cost=15))
    return j


def c28post(ctx, results):
    import configs
    return configs.post(ctx, results)


@check("C28", EX, "exhaustive enumeration of build configurations, each running the same exhaustive transcript of all components, compared line by line; "
       "all headers alone, all ordered pairs of headers and all rotations of all headers",
       "Quick: all combinations of compiler, language mode and optimisation level, with every pair of those, exceptions, run-time type information and assertions, and eleven further "
       "flags, and 16 configurations of 32 bit programs; thorough: all combinations. The transcript explores small rings, codecs, wrappers, traits, mathematics and filters.",
       "evaluations: transcript lines and header programs; distinct: programs",
       ["the gcem library, which constexpr_math needs with clang, is not in the tree: a stand-in with its interface, over the standard library, takes its place",
        "constant expression functions with more than a return statement may need C++14", "a little endian system"], post=c28post)
def c28(tier):
    import configs
    return configs.jobs(tier)


@check("C31", MC, "explicit-state exploration of all short histories of pairs of variants of function wrappers, in lock step with a reference that says "
       "which alternative and which target each holds",
       "Every operation from every reachable state and all histories of 4 operations of 48 on two variants of three wrappers, with two "
       "implementations of the third-party type.",
       "states: merged by alternative, emptiness and number of calls; transitions: operations executed; traces: complete histories",
       ["mpark/variant.hpp is not in the tree; the standard library's variant and Boost's variant2 stand in for it, under its names", HASHED])
def c31(tier):
    j = []
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    for stub, stds in (("std", ("gnu++17", "gnu++20", "gnu++23")), ("boost", ("gnu++11", "gnu++14", "gnu++17", "gnu++20"))):
        for std in stds[:2] if tier != "thorough" else stds:
            j.append(Job("%s.%s" % (stub, std[-2:]), "variants.cpp", flags=["-w", "-I", os.path.join(here, "stub_" + stub), "-DDEPTH=%d" % (4 if std == stds[0] and tier != "thorough" else 3)],
                         opt="rel", std=std, cost=9, timeout=800))
        j.append(Job(stub + ".asan", "variants.cpp", flags=["-w", "-I", os.path.join(here, "stub_" + stub), "-DDEPTH=2"],
                     opt="asan", std=stds[0], cost=5, timeout=800))
    return j


@check("C32", EX, "exhaustive evaluation of every elementary function on a lattice of arguments for every type and language mode, bit for bit against the "
       "library it comes from, at run time and in constant expressions",
       "26 functions of one argument on some 200 values (zeros, infinities, NaN, limits, all small multiples of 1/16, powers of two over the whole "
       "range) of five types, four of two on all pairs of them, extremes on all pairs; five language modes and both sources.",
       "evaluations: calls compared; distinct: functions and types",
       ["the underlying library is trusted", "a stand-in for gcem, which is not in the tree"])
def c32(tier):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
    gcem = ["-DGCEM=1", "-DLIBEMB_DISABLE_GLIBCXX_CONSTEXPR", "-I", os.path.join(here, "stub_gcem")]
    stds = ("gnu++11", "gnu++14", "c++17", "gnu++20", "c++23")
    j = [Job("std." + s[-2:], "elementary.cpp", flags=["-w"], opt="rel" if k % 2 else "o0", std=s, cost=4, timeout=800) for k, s in enumerate(stds)]
    j += [Job("gcem." + s[-2:], "elementary.cpp", flags=["-w"] + gcem, opt="o0" if k % 2 else "rel", std=s, cost=4, timeout=800) for k, s in enumerate(stds)]
    j += [Job("clang." + s[-2:], "elementary.cpp", flags=["-w"] + gcem, cxx="clang++", opt="rel", std=s.replace("c++23", "c++2b"), cost=4, timeout=800) for k, s in enumerate(stds)]
    return j


@check("C33", EX, "exhaustive evaluation of all conjugation closed multisets of zeros and poles from lattices, in all or many orders of the lists; every step of "
       "the pairing is judged against the definition in exact integers",
       "The same multisets and arrangements as for C24, up to order 8, lists of different roots for orders 9 to 15 (24).",
       "zeros x poles x arrangements x types x gain modes", ["distances are compared exactly on the lattices; which of several equally near roots is taken is left open"])
def c33(tier):
    f = ["-w", "-ftemplate-depth=3000", "-DORDER"]
    th = tier == "thorough"
    j = [Job("order.%d.%d" % (a, b), "pairing.cpp", opt="rel", std="gnu++17", cost=10, flags=f + ["-DN_LO=%d" % a, "-DN_HI=%d" % b], timeout=850)
         for a, b in ((1, 3), (4, 4), (5, 5), (6, 6), (7, 7), (8, 8))]
    j += [Job("order.high.%d" % a, "pairing.cpp", opt="rel", std="gnu++17", cost=10, flags=f + ["-DHIGH", "-DN_LO=%d" % a, "-DN_HI=%d" % b], timeout=850)
          for a, b in (((9, 15), (16, 20), (21, 24)) if th else ((9, 15),))]
    j += [Job("order.mode.%s" % s[-2:], "pairing.cpp", opt="o0", std=s, cost=12, flags=f + ["-DN_LO=1", "-DN_HI=4"], timeout=850) for s in ("gnu++11", "gnu++20")]
    return j
