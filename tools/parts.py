"""Which test binaries decide which property."""


def seq(name="seq", **kw):
    return dict(name=name, pkg="seq", mode="plain", **kw)


def sched(**kw):
    return dict(name="sched", pkg="conc", mode="sched", **kw)


def free(**kw):
    return dict(name="free", pkg="conc", mode="plain", shards=2, **kw)


def vt(**kw):
    return dict(name="vt", pkg="vt", mode="sched", procs=1, **kw)


# case counts are written for one second or so; the quick tier takes half a minute
SCALE = {2: 10, 3: 8, 4: 5, 15: 10, 16: 12, 18: 10, 21: 8, 22: 6, 25: 10, 26: 10, 27: 4, 28: 6}
PARTS = {f"C{i:02d}": [seq(scale=SCALE.get(i, 15))] for i in (2, 3, 4, *range(13, 29))}
PARTS["C01"] = [seq(), sched(scale=2), free()]
def clock(**kw):
    return dict(name="clock", pkg="clock", mode="plain", **kw)


PARTS["C05"] = [dict(name="race", pkg="race", mode="race", shards=4, procs=4, scale=3)]
PARTS["C06"] = [clock(scale=6)]
PARTS["C08"] = [clock(scale=12), vt()]
PARTS["C10"] = [clock(scale=15)]
PARTS["C11"] = [clock(scale=15)]
PARTS["C07"] = [clock(scale=3), sched(scale=2), vt(), free()]
PARTS["C09"] = [sched(scale=3), vt(), free(scale=2)]
PARTS["C12"] = [sched(scale=2), vt(), free()]
PARTS["C29"] = [dict(name="seq386", pkg="seq", mode="386"), dict(name="clock386", pkg="clock", mode="386")]
PARTS["C30"] = [dict(name="mem", pkg="mem", mode="plain", procs=2, scale=3)]
PARTS["C31"] = [dict(name="fault", pkg="fault", mode="plain", scale=40)]
PARTS["C32"] = [dict(name="cost", pkg="cost", mode="plain", procs=2, scale=6)]
PARTS["C03"] += [sched(scale=2), free()]
PARTS["C04"] += [sched(scale=1.5), free()]

ASSUMPTIONS = {
    "*": ["random generation from VERIF_SEED: what was not generated is not decided",
          "the Go toolchain and runtime of this sandbox"],
}

PBT = "property-based testing (rapid): "
TECHNIQUE = {
    "*": PBT + "generated operation histories against a reference model, with shrinking",
    "C01": PBT + "generated concurrent programs under a deterministic scheduler (generated schedules over a sync/atomic overlay) and on real goroutines, oracle: linearizability search",
    "C03": PBT + "generated histories, and concurrent programs under a deterministic scheduler and on real goroutines; invariant: Len equals the entries visited at rest",
    "C04": PBT + "generated histories with re-entrant callbacks, and concurrent programs under a deterministic scheduler; oracle: map states during the call",
    "C05": PBT + "generated concurrent programs over many value types in race-detector builds; oracle: race detector, checkptr and payload contents",
    "C06": PBT + "generated histories with time (synctest fake clock) against a model of entries with deadlines",
    "C07": PBT + "generated histories on a fake clock, concurrent programs under a deterministic scheduler and timed concurrent programs with generated stalls, callback reports matched with removals",
    "C08": PBT + "generated histories over several caches on a fake clock against a model of deadlines and started periods; concurrent programs around the instant of a sweep with generated stalls",
    "C09": PBT + "generated concurrent programs with expiring entries under a deterministic scheduler, and on a fake clock with generated stalls, oracle: linearizability search",
    "C10": PBT + "generated histories on a fake clock against a model of value, time and error, three variants",
    "C11": PBT + "generated histories with failing and panicking refreshes on a fake clock against a model, three variants",
    "C12": PBT + "generated concurrent programs under a deterministic scheduler, on a fake clock with generated stalls, and on real goroutines, oracle: linearizability search and overlap of refresh calls",
    "C19": PBT + "differential against container/ring on generated histories",
    "C25": PBT + "metamorphic and differential relations over generated node sets, histories and forged keys; a second process",
    "C26": PBT + "metamorphic relations before and after generated membership changes; distribution bounds",
    "C29": PBT + "the other properties' generated histories on a 32-bit build, containers at generated placements; differential against the 64-bit build",
    "C30": PBT + "generated cycles of operations that keep the contents small, repeated thousands of times (fake clock); invariant: the heap in use and the number of goroutines do not follow the number of repetitions",
    "C32": PBT + "generated contents (quicksort adversary included) and phases of operations on large containers; invariant: counted comparisons, bytes allocated and processor time stay within bounds",
    "C31": PBT + "generated histories with panics and goroutine exits injected at generated calls of the caller's functions, against reference models",
}
CONC = ("every schedule with at most one preemption of each generated program (sampled if too many) plus random schedules with 2 to 7; "
        "preemption only at calls into sync and sync/atomic; memory model weaker than sequential consistency not explored")
LEVEL_NOTE = {
    "*": "generated cases against a reference model; exhaustive for nothing, see the evidence for counts and classes",
    "C01": CONC, "C03": CONC, "C04": CONC, "C07": CONC, "C09": CONC, "C12": CONC,
    "C05": "finds a race only in an execution that reaches both accesses; happens-before based, so not dependent on their actual overlap",
    "C30": "cycles of 1 to 4 operations, contents of at most 60 elements, 9000 rounds; growth of less than 10 bytes a round is not seen",
    "C32": "bounds are some times what the code needs, so that a constant factor is not seen",
    "C29": "GOARCH=386 stands for 32-bit platforms",
}
