"""What each property's check runs, and which observations refute the property."""

TARGET = "x86_64-unknown-linux-gnu"

BUILDS = {
    # instrumented atomics: the scheduler decides at every atomic access
    "native": dict(hooks=True, args=["--release"], bins=["mtv", "nv", "perm", "sfx", "slice", "node", "own"]),
    # the same as a client builds it: without debug assertions and overflow checks
    "plain": dict(hooks=True, args=["--profile", "plain"], bins=["mtv", "nv", "perm", "sfx", "slice", "node", "own"]),
    # the diagnostics option on, everything logged
    "diag": dict(hooks=True, args=["--release", "--features", "tracing"], bins=["mtv"], run_env={"RUST_LOG": "masstree=trace"}),
    # the race detector, on the code without hooks, with a copy of seize whose fences it can see
    "tsan": dict(dir="harness-tsan", toolchain="nightly", target=TARGET, rustflags=["-Zsanitizer=thread"],
                 args=["--release", "-Zbuild-std", "--target", TARGET], bins=["race"],
                 run_env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 second_deadlock_stack=0 detect_deadlocks=0"}),
    # out-of-bounds, use after free, double free; freed memory stays poisoned
    "asan": dict(hooks=True, toolchain="nightly", target=TARGET, rustflags=["-Zsanitizer=address"],
                 args=["--release", "--target", TARGET], bins=["mtv", "race", "sfx", "node", "perm", "slice", "own"],
                 run_env={"ASAN_OPTIONS": "detect_leaks=0 exitcode=66 abort_on_error=0"}),
    # safe programs the compiler ought to reject, run under the address sanitizer where it does not
    "clients": dict(script="clients/run.py", toolchain="nightly", bins=[]),
    # every kind of undefined behaviour, data races, and loads that see older stores
    "miri": dict(toolchain="nightly", miri=True, miriflags=["-Zmiri-disable-isolation", "-Zmiri-ignore-leaks"], bins=["race"]),
}

CRASH = {"crash"}
STUCK = {"hang", "no-progress"}
FAIL = {"panic", "insert-error"}
MAPPING = {"displaced-foreign", "displaced-twice", "displaced-lost", "displaced-self", "final-value", "foreign-value",
           "lost-key", "stale-value", "stale-order", "paths-disagree"}
DROPS = {"early-drop", "double-drop", "leak", "damaged-value", "ref-changed", "handle-changed"}
COUNTS = {"len-bounds", "empty-wrong", "len-decreased", "len-final", "empty-final"}

RULE_CONC = ("One execution is one generated scenario (a key pool, a prefilled tree one step before a chosen structural "
             "event, and 2-6 programs of inserts, lookups through every path, guards and size queries) under one schedule: a "
             "seeded scheduler picks the running thread at every atomic access of the tree (random walk, PCT, stalls, "
             "exhaustive two-thread segments, watched accesses), or the operating system does; in some processes loads also "
             "yield older values, as the memory model permits; one process grows large trees (hundreds to 60,000 keys, up to four "
             "levels of internodes, in the root layer or below) with one to four writers and up to two readers, in some plans stopping one of "
             "them before it follows each pointer it loaded while the others restructure the tree around it. Distinct: different "
             "(scenario, sequence of scheduling decisions) pairs, counted by hash, among executions with at least one "
             "preemption inside an operation, and different plans of large trees.")


def ms(tier, quick, thorough=None):
    return quick if tier == "quick" else (thorough or quick * 12)


def conc(tier, n, focus="all", extra=(), quick=42000):
    return dict(build="native", bin="mtv", engine="conc", opts=["--focus", focus, *extra], ms=ms(tier, quick), n=n)


def eng(tier, engine, *opts, n=0, quick=42000, **kw):
    return dict(build="native", bin="mtv", engine=engine, opts=list(opts), ms=ms(tier, quick), n=n, **kw)


# the processes whose loads may yield older values
WEAK = {3, 6}


def grow(tier, *opts, n=8):
    return eng(tier, "grow", *opts, n=n, hang=120)


def conc_slots(tier, focuses, free=1, large=(7,), siege=(), **kw):
    """Eight processes: one per processor (those in `large` grow large trees), plus `free` unpinned ones scheduled by the
    operating system."""
    s = [[grow(tier, *(("--siege", "1") if i in siege else ()), n=i) if i in large else conc(tier, 0, f, ("--weak", "1") if i in WEAK else (), **kw)]
         for i, f in enumerate(focuses)]
    for i in range(free):
        t = conc(tier, 5, focuses[0], ("--mode", "free"), **kw)
        t["pin"] = False
        s.append([t])
    return s


A_SCHED = ("Under the controlled scheduler executions are interleavings of the tree's atomic accesses: sequentially consistent ones, "
           "and in the weak-memory processes ones where loads yield older stores (stores never take effect before earlier loads of their thread).")
A_SEIZE = "The reclamation library (seize), parking_lot and the standard library are trusted."
A_BOUND = "Held on the executions run; nothing is claimed of schedules, keys or sizes not generated."


def plan(slots, kinds, rule, distinct, minimum, assumptions=(), required=("mtv",)):
    """Every other process runs the build without debug assertions."""
    for i, s in enumerate(slots):
        for t in s:
            if t["build"] == "native" and i % 2 == 0:
                t["build"] = "plain"
    return dict(slots=slots, kinds=set(kinds), rule=rule, distinct=list(distinct), minimum=minimum,
                assumptions=[*assumptions, A_BOUND, A_SEIZE], required=list(required))


def clients(prefix=""):
    return dict(build="clients", bin="clients", engine="clients", opts=["--prefix", prefix], ms=1000, n=0, pin=False, grace=500)


def p_conc(focuses, kinds, free=1, large=(7,), siege=(), hostile=None):
    def f(tier):
        return plan(conc_slots(tier, focuses, free, large, siege) + ([[clients(hostile)]] if hostile else []), kinds, RULE_CONC, ["interleavings", "plans"], 200, [A_SCHED])
    return f


ALL8 = ["all"] * 8


def p02(tier):
    return plan([[eng(tier, "seq", "--focus", "map")] for _ in range(6)] + [[grow(tier, "--threads", "1", n=i)] for i in range(2)],
                {"seq-insert", "seq-lookup", "seq-size", "damaged-value", "limit-accepted", "limit-value", "len-final", "empty-final",
                 "structure"} | MAPPING | FAIL | STUCK | CRASH,
                "One execution is a generated set of keys of 0 to 256 bytes (families: prefixes of each other, trailing zeros, "
                "long shared prefixes, layer boundaries, dense and sparse slices, mixtures) inserted, overwritten and looked up "
                "in a generated order, each result compared with a sorted map of byte strings; or a tree of up to 60,000 keys, with "
                "every update's result, every key at the end, absent neighbours and the size compared. Distinct: different key sets "
                "and plans.",
                ["key_sets", "plans"], 50)


def p07(tier):
    def t(build, binary, engine, q, *opts, **kw):
        return dict(build=build, bin=binary, engine=engine, opts=list(opts), ms=ms(tier, q), n=kw.pop("n", 0), **kw)

    def miri(size, flags, n):
        return [t("miri", "race", "tree", 50000, "--size", str(size), "--watch", "0", miriflags=flags, n=n, grace=200)]

    tsan = [t("tsan", "race", "tree", 50000, pin=False, hang=200)]
    return plan([tsan, list(tsan), [clients()],
                 [t("native", "mtv", "conc", 50000, "--focus", "all", "--weak", "1")],
                 [t("native", "mtv", "conc", 50000, "--focus", "mem", "--weak", "1")],
                 [t("asan", "mtv", "conc", 50000, "--focus", "all")],
                 [t("asan", "mtv", "conc", 25000, "--focus", "mem"), t("asan", "race", "tree", 20000, n=1, pin=False)],
                 [t("asan", "mtv", "seq", 12000, "--focus", "map"), t("asan", "mtv", "grow", 10000, "--keys", "9000", n=7, hang=200), t("asan", "sfx", "seq", 8000, n=1), t("asan", "sfx", "conc", 5000, n=2),
                  t("asan", "node", "seq", 7000, n=3), t("asan", "node", "conc", 4000, n=4), t("asan", "perm", "seq", 3000, n=5),
                  t("asan", "slice", "seq", 4000, n=6), t("asan", "own", "seq", 3000, n=8), t("asan", "own", "conc", 3000, n=9)],
                 miri(6, "-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.05", 1),
                 miri(14, "-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.02", 2),
                 miri(40, "-Zmiri-tree-borrows", 3)],
                {"data-race", "tsan", "asan", "undefined-behaviour", "crash", "damaged-value",
                 "hostile-client"},
                "One execution is a generated client program: keys of one family, a prefilled tree, two to four threads that share "
                "only the tree (inserts, lookups by copy, by handle and by reference, guards held and flushed, size queries), "
                "results outliving guards, the tree dropped by any thread. It runs under the race detector (real threads, no hooks), "
                "the interpreter (aliasing, uninitialised and out-of-bounds memory, weak memory, seeded schedules) or the address "
                "sanitizer (also the scheduled engines and the single-threaded and component engines), or under the scheduler with loads that "
                "yield older values, each access checked to come after the initialisation of the block it reaches. Distinct: different programs.",
                ["programs", "outcomes", "interleavings", "key_sets"], 300,
                ["The race detector sees the orderings seize documents through stronger accesses in a vendored copy, since it does not model fences.",
                 "Stacked or tree borrows are experimental models; only violations of the more permissive tree borrows are reported."],
                required=("mtv", "race"))


def p10(tier):
    return plan([[eng(tier, "seq", "--focus", "limit")] for _ in range(8)],
                {"seq-insert", "seq-lookup", "seq-size", "damaged-value", "limit-accepted", "limit-value"} | FAIL | STUCK | CRASH,
                "One execution is a history of operations on keys of 0 to 256 bytes interleaved with operations of every "
                "entry point on keys of 257 bytes and more, which must panic and leave contents, size and values as they were "
                "(one third of the executions with other threads at work meanwhile). Distinct: different key sets.",
                ["key_sets"], 50)


def p11(tier):
    def diag(engine, *opts, n=0, quick=42000):
        return eng(tier, engine, *opts, "--tracing", "1", n=n, quick=quick) | {"build": "diag"}

    return plan([[eng(tier, "seq", "--focus", "paths")] for _ in range(6)]
                + [[diag("seq", "--focus", "paths", quick=30000), diag("seq", "--focus", "map", n=1, quick=12000)],
                   [diag("conc", n=2, quick=26000), diag("grow", "--keys", "9000", n=3, quick=16000)]],
                {"paths-insert", "paths-lookup", "paths-size", "paths-ref", "damaged-value", "seq-insert", "seq-lookup", "seq-size"}
                | MAPPING | FAIL | STUCK | CRASH,
                "One execution runs the same history on the shared-handle, by-value and index flavours with operations spread "
                "over all insert and lookup forms, short and long guards, and compares every path with a model after every "
                "step; two processes run the diagnostics build with everything logged, on such histories, on long single-threaded "
                "ones, on scheduled concurrent programs and on large trees. Distinct: different histories (contents hashed), key "
                "sets, interleavings and plans.", ["histories", "key_sets", "interleavings", "plans"], 50)


def p17(tier):
    return plan([[eng(tier, "mem")] for _ in range(8)],
                {"memory-growth", "memory-backlog", "memory-leak", "leak"} | CRASH | {"memory-exhausted"},
                "One execution builds a tree of a generated shape (up to hundreds of layers or thousands of keys), overwrites "
                "its keys for several rounds by one or more threads, and audits every byte the allocator handed out: against "
                "the contents found by walking the tree, against the retirement backlog one guard may delay, and against zero "
                "after the tree is dropped. Distinct: different generated plans.", ["plans"], 30)


def p19(tier):
    return plan([[eng(tier, "multi")] for _ in range(8)],
                {"cross-tree", "cross-delay", "foreign-guard", "leak", "early-drop", "double-drop"} | FAIL | STUCK | CRASH,
                "One execution creates, uses and drops many trees in a generated order on one or several threads, compares each "
                "with its own model after operations on the others, offers every operation a guard of a different tree, and "
                "checks that a guard of one tree does not delay another's reclamation. Distinct: different programs.",
                ["programs"], 50)


def comp(tier, binary, engine, *opts, quick=36000):
    return dict(build="native", bin=binary, engine=engine, opts=list(opts), ms=ms(tier, quick), n=0, grace=100)


def p_comp(binary, seq, conc_n, kinds, rule, minimum=500, free=1, weak=("conc",), hostile=None):
    """`seq` single-threaded and `conc_n` scheduled processes of one component engine, and one for each `weak` engine."""
    def f(tier):
        slots = [[comp(tier, binary, "seq")] for _ in range(seq)] + [[comp(tier, binary, "conc")] for _ in range(conc_n)]
        if conc_n:
            slots = [[comp(tier, binary, e, "--weak", "1")] for e in weak] + slots
        for s in slots[-free:] if conc_n > 1 else []:
            s[0]["pin"] = False
        if hostile:
            slots.append([clients(hostile)])
            kinds.add("hostile-client")
        return plan(slots, kinds | FAIL | STUCK | CRASH, rule, ["programs"], minimum, [A_SCHED] if conc_n else [], required=(binary,))
    return f


P12 = p_comp("nv", 2, 4, {"lock-left", "mark-left", "flags", "stable", "change-hidden", "split-hidden", "change-invented", "held",
                          "exclusion", "clone", "new-for-split", "refused", "snapshot-dirty", "torn-read"},
             "One execution drives one real node version word: a random sequence of lock, try-lock, bounded lock, marking, unlocking, "
             "cloning and validation calls from arbitrary counter values (also next to overflow) against a model of holder, marks, "
             "flags and completed changes; or two to four threads doing so under the scheduler, with a payload only the holder may "
             "write and snapshots only validated readers may trust, in two processes with loads that yield older values. Distinct: different "
             "programs with their schedule, hashed.", weak=("weak", "weak"), hostile="lock")
P13 = p_comp("perm", 4, 3, {"not-a-permutation", "wrong-order", "frozen-wrong", "swap-wrong", "frozen-modified", "frozen-handed-out",
                            "swap-lost"},
             "One execution applies a random sequence of every slot-order operation to random orders of every width and size and "
             "compares the decoded order with a list model; or races publishers, freezers and readers on one leaf's shared word "
             "under the scheduler. Distinct: different programs (with their schedule), hashed.")
P14 = p_comp("sfx", 4, 3, {"suffix-wrong", "suffix-compare", "in-place", "not-reclaimed", "suffix-torn"},
             "One execution applies a random sequence of assignments, in-place assignments, clearings, compactions and copies to a "
             "suffix bag of several widths and to a leaf, and compares every slot, every comparison and the storage in use with a "
             "map of byte strings; or reads a leaf's suffixes beside a writer under the scheduler. Distinct: different programs, hashed.",
             hostile="suffix")
P15 = p_comp("slice", 8, 0, {"slice-wrong", "key-order", "scan-wrong", "bound-wrong"},
             "One execution takes pairs of keys of 0 to 256 bytes (boundary lengths, zero and sign-bit bytes, near-equal pairs), walks "
             "them slice by slice in both directions against the plain bytes; and arrays of 0 to 32 values (pools around the sign "
             "bit, differing in one byte or half, duplicates, single matches, matching neighbours outside the window) through every "
             "scan and bound search against a loop. Distinct: different key pairs, arrays with target, and node contents, hashed.")
P16 = p_comp("node", 5, 2, {"node-wrong", "insert-wrong", "split-lost", "split-wrong", "split-point", "parent-wrong", "chain-wrong",
                            "harness"},
             "One execution fills internodes of widths 1 to 15 in a random order, with every key and child compared after every insert, "
             "splits the full ones at the position of one more key, fills leaves (groups of equal slices, all lengths, suffixes, "
             "layers, both storage modes), asks for the split point and splits at it or elsewhere, comparing entries, values, links, "
             "marks and drop counts; or has threads split the leaves of a chain while others walk it. Distinct: different node "
             "contents with their split, hashed.")

P20 = p_comp("own", 4, 4, {"ownership", "value-wrong", "slot-wrong", "tracking", "early-free", "node-leak"},
             "One execution applies a random sequence of operations to value slots, to the slots of a leaf (both in either storage "
             "mode) or to a node allocator with guards opened and closed in any order, and compares every slot, every owner count and "
             "every drop with a model that knows all owners; or has threads replace, retire and read allocated leaves, or claim "
             "and take the slots of one leaf, under the scheduler. Distinct: different programs (with their schedule), hashed.", weak=())

PLANS = {
    "P01": p_conc(ALL8, MAPPING | FAIL | STUCK | CRASH | {"damaged-value"}),
    "P02": p02,
    "P03": p_conc(ALL8, {"lost-key", "final-value", "foreign-value", "stale-value", "stale-order", "structure", "displaced-lost",
                         "displaced-foreign", "paths-disagree"} | FAIL | STUCK | CRASH),
    "P04": p_conc(ALL8, MAPPING | CRASH | {"damaged-value", "insert-error", "panic"}),
    "P05": p_conc(["mem"] * 5 + ["all"] * 3, DROPS | CRASH),
    "P06": p_conc(["mem"] * 5 + ["all"] * 3, DROPS | CRASH | STUCK | {"hostile-client"}, hostile="ref"),
    "P07": p07,
    "P08": p_conc(ALL8, {"structure", "lost-key", "final-value", "len-final"} | FAIL | CRASH | STUCK, large=(6, 7), siege=(6,)),
    "P09": p_conc(ALL8, FAIL | STUCK | CRASH, free=2, large=(4, 7), siege=(4, 7)),
    "P10": p10,
    "P11": p11,
    "P12": P12,
    "P13": P13,
    "P14": P14,
    "P15": P15,
    "P16": P16,
    "P17": p17,
    "P18": p_conc(["counts"] * 5 + ["all"] * 3, COUNTS | CRASH),
    "P19": p19,
    "P20": P20,
}

NOT_APPLICABLE = {}

_SCHED = "runtime monitoring: real code under a seeded atomic-access scheduler and OS threads, "
_ASSUME = (" Held on the executions explored, not proved; interleavings are sequentially consistent or have loads yield "
           "older values as the memory model permits, and the monitor, the scheduler hooks and the libraries below the tree are trusted.")
NOTES = {
    "P01": (_SCHED + "per-key linearizability checking of recorded histories",
            "Every recorded history of generated concurrent programs is checked, key by key, against a sequential map; values are "
            "unique, so each read names the write it saw." + _ASSUME),
    "P02": ("runtime monitoring: differential testing of long generated histories against a sorted-map model",
            "Single-threaded histories over key families built to reach every split and layer shape. Held on those explored."),
    "P03": (_SCHED + "visibility monitor over histories and a structure walk at rest",
            "Lookups racing with splits, root growth and layer creation; the tree is walked after every execution." + _ASSUME),
    "P04": (_SCHED + "exactly-once monitor over displaced values",
            "Unique values; displaced plus final values must equal the inserted ones, per key." + _ASSUME),
    "P05": (_SCHED + "drop-count and liveness monitor on instrumented values, freed memory poisoned",
            "Every value carries an identity, a canary and a drop record." + _ASSUME),
    "P06": (_SCHED + "reference re-reading monitor, freed memory poisoned",
            "References are re-read at every later step of their guard's life, and after it is flushed; safe programs that would outlive "
            "the guard are run under the address sanitizer if the compiler accepts them." + _ASSUME),
    "P07": ("ThreadSanitizer, AddressSanitizer, Miri and a weak-memory monitor on generated concurrent client programs",
            "Race detection on real threads, address checking on scheduled and single-threaded engines, and interpretation with "
            "tree borrows and weak-memory emulation over seeded schedules; hostile safe programs the compiler accepts are run too. Held on "
            "the executions explored; seize, parking_lot and the standard library are trusted."),
    "P08": (_SCHED + "structural invariant monitor at quiescent points",
            "After every execution the whole trie is walked through the public node interface and compared with the keys inserted." + _ASSUME),
    "P09": (_SCHED + "bounded-progress monitor under fair and adversarial schedules",
            "Termination restated as progress within a step budget once every thread is scheduled again, plus a wall-clock watchdog." + _ASSUME),
    "P10": ("runtime monitoring: differential testing with rejected keys injected into histories, alone and beside other threads",
            "Every entry point and length class; contents compared after each rejection. Held on the histories explored."),
    "P11": ("runtime monitoring: differential testing of all access paths and storage modes against one model",
            "Every lookup and insert form compared after each step of generated histories, and the diagnostics build, logging "
            "everything, under the single-threaded, concurrent and large-tree engines. Held on those explored."),
    "P12": (_SCHED + "lock-state model, exclusion and snapshot monitor on the real version word",
            "Every call's result and the word after it compared with a model; racing holders write a payload that only a "
            "holder may touch; safe programs that would keep or copy a lock guard are run if the compiler accepts them." + _ASSUME),
    "P13": (_SCHED + "list model of every slot-order operation and a history check of the shared word",
            "Random operation sequences on both widths and every size; racing swaps and freezes checked for lost and torn effects." + _ASSUME),
    "P14": (_SCHED + "byte-string map model of suffix storage",
            "Random operation sequences at capacity boundaries; validated readers beside a writer, the bytes they see checked to "
            "have been written before." + _ASSUME),
    "P15": ("runtime monitoring: randomised differential testing of key slicing and searches against plain loops",
            "Inputs drawn from pools built around slice boundaries, sign bits and lane positions; the CPU's AVX2 path, the SSE path "
            "(through a hook) and the scalar path are each run. Held on the inputs drawn."),
    "P16": (_SCHED + "list model of node inserts and splits, drop counts, and a chain-walking monitor",
            "Every width, fill order and insertion point drawn; leaves of both storage modes." + _ASSUME),
    "P17": ("runtime monitoring: allocation accounting against walked contents, retirement allowances and drop",
            "A counting allocator compares heap use with what the walked contents and reclamation batches can justify."),
    "P18": (_SCHED + "interval monitor over size and emptiness reports",
            "Every report must lie between completed and started first inserts at that moment." + _ASSUME),
    "P19": ("runtime monitoring: many-tree programs against per-tree models, with foreign guards injected",
            "Trees created, used and dropped in generated orders by one or several threads. Held on the programs explored."),
    "P20": (_SCHED + "an ownership model of value slots, leaf slots and the node allocator, drop records",
            "Owner counts and drops compared after every operation; retired nodes re-read under older guards." + _ASSUME),
}
