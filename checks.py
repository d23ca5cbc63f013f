"""What is built and run for every property. See DESIGN.md."""

FLAVOURS = {
    # the project's own Optional, assertions of the library and of libstdc++ on
    "A": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]},
    # the same with undefined behaviour checked as well
    "U": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                  "-D_GLIBCXX_ASSERTIONS"]},
    # std::optional, no assertions, another compiler: what a release build has
    "B": {"cxx": "clang++", "flags": ["-O1", "-g1", "-DNDEBUG", "-DVP_STD_OPTIONAL"], "optional": True},
    # ThreadSanitizer
    "T": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=thread"]},
    # basic blocks counted: the cost monitor
    "K": {"cxx": "clang++", "flags": ["-O1", "-g1", "-fsanitize-coverage=trace-pc-guard"]},
    # valgrind memcheck: values that were never initialised
    "V": {"cxx": "g++", "flags": ["-O1", "-g1"],
          "wrapper": ["valgrind", "-q", "--vgdb=no", "--error-exitcode=95", "--exit-on-first-error=yes", "--leak-check=no"]},
}

UNITS = {
    "world%d" % i: {"source": "cfg.cpp", "defs": ["-DVP_CFG=%d" % i], "with": ["rt.cpp", "settings.cpp"], "shrink": True}
    for i in range(1, 9)
}
for i in range(1, 5):
    UNITS["fault%d" % i] = {"source": "cfg.cpp", "defs": ["-DVP_FAULT", "-DVP_CFG=%d" % i], "with": ["rt.cpp", ("settings.cpp", [])]}
UNITS["wrap"] = {"source": "wrap_main.cpp",
                 "with": ["wrap.cpp", "rt.cpp"] + [("wrap_kinds.cpp", ["-DVP_PART=%d" % i]) for i in range(1, 5)]}
UNITS["thr0"] = {"source": "threads.cpp", "defs": ["-DVP_CFG=0"],
                 "with": ["wrap.cpp", "rt.cpp"] + [("wrap_kinds.cpp", ["-DVP_PART=%d" % i]) for i in range(1, 5)]}
for i in range(1, 5):
    UNITS["thr%d" % i] = {"source": "threads.cpp", "defs": ["-DVP_CFG=%d" % i], "with": ["rt.cpp", "settings.cpp"]}
UNITS["cost"] = {"source": "cost.cpp", "with": ["rt.cpp"]}
UNITS["args"] = {"source": "args.cpp", "with": ["rt.cpp"]}
UNITS["soak"] = {"source": "soak.cpp", "with": ["rt.cpp", "settings.cpp"]}
UNITS["reverse"] = {"source": "reverse.cpp", "with": ["rt.cpp"]}
UNITS["tick"] = {"source": "tick.cpp", "with": ["rt.cpp"]}


def J(unit, flavour, cases, reps=1, seconds=25, **kw):
    return dict(unit=unit, flavour=flavour, cases=cases, reps=reps, seconds=seconds, **kw)


def world_quick(a, b, na=2200, nb=40000):
    return [J("world%d" % i, "A", na, 2) for i in a] + [J("world%d" % i, "B", nb, 2) for i in b]


def world_thorough(which=(1, 2, 3, 4, 5, 6, 7, 8)):
    return ([J("world%d" % i, "U", 10**7, 2, 150) for i in which] +
            [J("world%d" % i, "B", 10**7, 2, 150) for i in which])


HISTORY = ("random histories of operations on one to three caches, executed against the real code and a reference "
           "model in lockstep; distinct by the hash of all operations and outcomes; non-trivial when at least one of "
           "these events of the model occurred: ")

CHECKS = {}


LOCKSTEP = "runtime monitoring: random histories in lockstep with a reference model, under AddressSanitizer"
LOCKSTEP_NOTE = ("Held on the executions counted in the evidence, not verified. Every outcome of the property's kind is "
                 "compared with the model after every operation or at random points; divergences of other kinds end the "
                 "history without a verdict. Trusts the model (harness/world*.inc), the compilers and libstdc++.")


def check(prop, quick, thorough, rule, level="exploration", assumptions=(), technique=LOCKSTEP, note=LOCKSTEP_NOTE):
    CHECKS[prop] = {"quick": quick, "thorough": thorough, "rule": rule, "level": level,
                    "assumptions": list(assumptions), "technique": technique, "note": note}


W = world_quick
WT = world_thorough


def tick(quick):
    """Clock that advances on every reading: what does not depend on the reading must not change."""
    return [J("tick", "A", 6000, 1), J("tick", "B", 40000, 1)] if quick else [J("tick", "U", 10**8, 2, 100), J("tick", "B", 10**8, 2, 100)]


def soak(quick, wide=False):
    """Long histories on large caches."""
    if quick:
        return [J("soak", "A", 16, 1), J("soak", "B", 100, 1)]
    return ([J("soak", "U", 10**8, 2, 150), J("soak", "B", 10**8, 2, 150)] +
            ([J("soak", "B", 2, 1, 300, profile="C11wide")] if wide else []))


def wrap_jobs(quick, profile=None):
    kw = {"profile": profile} if profile else {}
    return ([J("wrap", "A", 6000, 3, **kw), J("wrap", "B", 60000, 3, **kw)] if quick else
            [J("wrap", "U", 10**8, 4, 200, **kw), J("wrap", "B", 10**8, 4, 200, **kw)])


check("C01", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + soak(True), WT() + soak(False), HISTORY + "an eviction")
check("C02", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + soak(True), WT() + soak(False), HISTORY + "a lookup that hits")
check("C03", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + soak(True), WT() + soak(False), HISTORY + "a shrink that removes entries, an eviction, an insertion at capacity zero")
check("C04", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]), WT(), HISTORY + "a walk over all entries")
check("C05", W([1, 3, 2, 6], [1, 2, 3, 4, 7, 8]), WT(), HISTORY + "a walk from a held iterator, a write through a held reference or iterator")
check("C06", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + soak(True), WT() + soak(False), HISTORY + "a copy construction, copy assignment or self assignment")
check("C07", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + [J("world2", "V", 40, 1, 15)], WT() + [J("world2", "V", 10**6, 1, 200)], HISTORY + "a move or a swap")
check("C08", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + soak(True), WT() + soak(False), HISTORY + "a bulk insertion, bulk construction or range assignment")
check("C09", W([3, 4], [3, 4, 7, 8]) + tick(True) + soak(True), WT((3, 4, 7, 8)) + tick(False) + soak(False), HISTORY + "a lookup of an expired entry, a store over an expired entry; also histories with a clock that advances on every reading")
check("C10", W([3, 4], [3, 4, 7, 8]) + tick(True) + soak(True), WT((3, 4, 7, 8)) + tick(False) + soak(False), HISTORY + "an expiry query on an expired entry, a cleanup that removed only a part; also histories with a clock that advances on every reading")
check("C11", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + tick(True) + soak(True), WT() + tick(False) + soak(False, wide=True), HISTORY + "a lookup that statistics have to count; also histories with a clock that advances on every reading")
check("C12", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + tick(True) + soak(True), WT() + tick(False) + soak(False, wide=True), HISTORY + "a monitored key with at least one lookup; also histories with a clock that advances on every reading")
check("C13", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]) + tick(True) + soak(True), WT() + tick(False) + soak(False), HISTORY + "a lookup with a callback registered; also histories with a clock that advances on every reading")
WRAP = ("random call sequences on one to several wrapped functions of many argument types, every call of the original "
        "observed and compared with a memoization model; distinct by the hash of calls and outcomes; non-trivial when ")
WRAP_T = "runtime monitoring: observed originals against a memoization model, under AddressSanitizer"
WRAP_N = ("Held on the executions counted in the evidence, not verified. The original records every call with its arguments; "
          "the model says whether each call has to reach it. Trusts the model (harness/wrap.hpp), the compilers and libstdc++.")
check("C14", wrap_jobs(True), wrap_jobs(False), WRAP + "a result was served from the cache, dropped or expired, or the original threw or recursed", technique=WRAP_T, note=WRAP_N)
check("C15", wrap_jobs(True), wrap_jobs(False), WRAP + "more than one wrapped function was alive or settings were changed after wrapping", technique=WRAP_T, note=WRAP_N)
check("C16",
      [J("world%d" % i, "U", 1500, 2) for i in (1, 2, 3, 4, 5, 6, 7, 8)] + [J("wrap", "U", 1200, 1), J("args", "U", 1500, 1), J("tick", "U", 1500, 1)] +
      [J("world%d" % i, "V", 40, 1, 15) for i in (2, 4)] + [J("reverse", "A", 20)],
      [J("reverse", "A", 20)] + WT() + [J("wrap", "U", 10**8, 2, 120), J("args", "U", 10**8, 2, 60), J("tick", "U", 10**8, 2, 60)] +
      [J("fault%d" % i, "U", 10**8, 1, 60, profile="C18") for i in range(1, 5)] +
      [J("world%d" % i, "V", 10**6, 1, 240) for i in (1, 2, 3, 4, 5, 6, 7, 8)] + [J("wrap", "V", 10**6, 1, 240)],
      HISTORY + "an eviction, hit, erasure, copy, move, swap, misuse, aliased argument; also wrapped functions, argument forwarding and a ticking clock",
      technique="runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, memcheck and lifetime monitors over random histories",
      note="Held on the executions counted in the evidence, not verified. Sanitizers see the executions that happened; leaks and object lifetimes are counted by the harness itself. Trusts the sanitizers, the compilers and libstdc++.")
check("C17", W([1, 3, 6], [1, 3, 6]), WT((1, 3, 6)), HISTORY + "an eviction, erasure, clear, shrink or update")
check("C18",
      [J("fault%d" % i, "A", 2000, 1) for i in range(1, 5)] + [J("fault%d" % i, "B", 50000, 1) for i in range(1, 5)],
      [J("fault%d" % i, "U", 10**8, 2, 200) for i in range(1, 5)] + [J("fault%d" % i, "B", 10**8, 2, 200) for i in range(1, 5)],
      "a random history up to one operation, which is then repeated with a failure injected at every one of its failure points in turn "
      "(allocation, copy, assignment, construction, callback), and checked afterwards; one evaluation per injected failure; distinct by the hash of the history, operation and point",
      level="fault_enumeration",
      technique="runtime monitoring: injected exceptions and allocation failures at every point of an operation, reference model of the allowed outcomes, AddressSanitizer, leak and lifetime counts",
      note="Held on the executions counted in the evidence, not verified. Every failure point of each chosen operation is tried, but operations and histories are random. Trusts the model (harness/world_fault.inc), the compilers and libstdc++.")
check("C19",
      [J("cost", "K", 48, 3, 25), J("world1", "A", 1800, 1), J("world3", "A", 1800, 1), J("world1", "B", 16000, 1)],
      [J("cost", "K", 10**6, 4, 300), J("cost", "K", 10**6, 2, 300, profile="C19big"), J("world1", "U", 10**7, 1, 150),
       J("world3", "U", 10**7, 1, 150), J("world1", "B", 10**7, 1, 150), J("world3", "B", 10**7, 1, 150)],
      "every operation measured in executed basic blocks, memory moved and hash calls on caches of 256, 4096 and 32768 (thorough: 262144) entries "
      "after the same kind of history; distinct by the measured costs; and random histories in which hash calls are counted, non-trivial when a stored or found key is looked up again",
      technique="runtime monitoring: basic blocks and hash calls counted by compiler instrumentation, compared across cache sizes",
      note="Held on the executions counted in the evidence, not verified. A growth slower than the tolerance (25 % and 8 blocks from 256 to 32768 entries) is not seen.")
check("C20", W([1, 3], [1, 3, 4, 8]), WT((1, 3)), HISTORY + "a hit, a miss or an eviction")
check("C21",
      [J("thr0", "T", 100, 1, 20), J("thr1", "T", 120, 1, 20), J("thr2", "T", 120, 1, 20), J("thr3", "T", 120, 1, 20), J("world1", "A", 1800, 1), J("world3", "A", 1800, 1), J("world4", "B", 16000, 1)],
      [J("thr%d" % i, "T", 10**6, 2, 300) for i in range(5)] + [J("world%d" % i, "U", 10**7, 1, 100) for i in (1, 3)] + [J("world%d" % i, "B", 10**7, 1, 100) for i in (2, 4, 5)],
      "rounds in which two to four threads start together, each with its own caches, wrapped functions, or its own one of several copies of a cache, under ThreadSanitizer; the results of "
      "each thread compared with those of the same work done alone; distinct by all results of the round; and histories of several caches in one thread in lockstep with the model, non-trivial when two caches were used",
      technique="runtime monitoring: ThreadSanitizer, and outcomes of concurrent use compared with those of sequential use",
      note="Held on the executions counted in the evidence, not verified. ThreadSanitizer reports races between accesses that were executed, in any interleaving consistent with the synchronisation observed.")
check("C22", [J("world1", "U", 1800, 2)] + W([3], [1, 2, 3, 4, 5, 6, 7, 8]), WT(), HISTORY + "a misuse of the interface")
check("C23", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]), WT(), HISTORY + "a comparison of caches with equal contents, or with equal entries in another order")
check("C25", W([1, 3], [1, 2, 3, 4, 5, 6, 7, 8]), WT(), HISTORY + "an entry examined through an iterator")
check("C24", [J("args", "A", 10000, 3), J("args", "B", 60000, 3)], [J("args", "U", 10**8, 4, 120), J("args", "B", 10**8, 4, 120)],
      "random histories of stores with every category of argument (lvalue, const lvalue, rvalue, piecewise, ranges), copies and moves of every argument counted, stored objects compared with the arguments; "
      "distinct by the hash of operations and outcomes; non-trivial when a new key, an update and an eviction occurred",
      technique="runtime monitoring: argument objects that record being copied, moved and modified, under AddressSanitizer",
      note="Held on the executions counted in the evidence, not verified. Trusts the recording argument types (harness/args.cpp), the compilers and libstdc++.")
