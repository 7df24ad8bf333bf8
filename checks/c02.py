"""C02: every interleaving of appends, housekeeping and finalize on the real StreamWriter, to a preemption bound."""
from mcheck import sched, streams

PROPERTY, LEVEL = "C02", "model_checking"
TECHNIQUE = "stateless exploration of all thread schedules (preemption bounded, virtual time) of the real StreamWriter"
RULE = (
    "driver programs of 1-3 threads with 1-4 operations over 1-2 partitions; every schedule with at most `bound` deviations, where a deviation is a preemption "
    "or a timer landing before a runnable thread; scheduling points at every lock operation, commit, sleep, thread start/join/end and, for line programs, at every "
    "executed line of the repository; a state is the history of calls and commits a schedule produces"
)
ASSUMPTIONS = [
    "one thread runs at a time and switches happen at the listed scheduling points (sources of the repository only, line granularity)",
    "virtual time: a sleeping thread may be woken at any point, which moves the clock to its wake time",
    "in-memory store; commits are atomic with respect to each other",
]
A, B = ["a", "1"], ["a", "2"]
F = ["F"]
ST, JN = [["start", 1]], [["join", 1]]
ST2, JN2 = [["start", 1], ["start", 2]], [["join", 1], ["join", 2]]
NAP = ["s", 0.25]

PROGRAMS = {
    # main thread against the pool attendant
    "seq": [[A, B, A, F]],
    "seq-nap": [[A, NAP, A, F]],
    "nap2": [[A, NAP, B, NAP, A, NAP, F]],
    # two appenders
    "two-same": [[*ST, A, A, *JN, F], [A, A]],
    "two-cross": [[*ST, A, B, *JN, F], [B, A]],
    "two-children": [[*ST2, *JN2, F], [A], [A]],
    "two-nap": [[*ST, A, NAP, A, *JN, F], [A, NAP, A]],
    # finalize against appenders
    "overlap": [[*ST, A, F, *JN, F], [A, B]],
    "overlap2": [[A, *ST, F, *JN, F], [A]],
    "two-finals": [[A, B, *ST, F, *JN, F], [F]],
    "refill": [[A, F, A, B, F]],
}
CONFIGS = {
    "cap5": {"idle": 30, "capacity": 5},
    "cap1": {"idle": 30, "capacity": 1},
    "idle": {"idle": 0.05, "capacity": 5},
    "idle-cap1": {"idle": 0.05, "capacity": 1},
    "roll": {"idle": 0.05, "capacity": 1, "blob": 10},
    "plain": {"idle": 0.05, "capacity": 1, "template": "same"},
    "parquet": {"idle": 0.05, "capacity": 1, "format": "parquet", "schema": [{"name": n, "type": "VARCHAR"} for n in ("id", "k")] + [{"name": n, "type": "INTEGER"} for n in "tn"]},
    "two-writers": {"idle": 0.05, "capacity": 1, "writers": 2},
}
A0, B0, A1, B1 = ["a", "1", 0], ["a", "2", 0], ["a", "1", 1], ["a", "2", 1]
PROGRAMS_2W = {"w2-seq": [[A0, A1, B0, B1, F]], "w2-two": [[*ST, A0, B0, *JN, F], [A1, B1]]}

SYNC = [(p, c) for p in PROGRAMS for c in ("cap5", "cap1", "idle", "idle-cap1", "roll", "plain")] + [
    (p, "two-writers") for p in PROGRAMS_2W
]
LINES_1 = [(p, c) for p in ("seq", "two-same", "two-cross", "overlap", "overlap2", "two-finals", "two-children") for c in ("idle-cap1",)] + [
    ("seq-nap", "roll"), ("two-same", "plain"), ("overlap", "roll"), ("two-nap", "cap1"), ("overlap", "plain"),
]
LINES_QUICK = [("two-cross", "idle-cap1"), ("overlap", "idle-cap1"), ("two-finals", "plain"), ("seq", "roll"), ("overlap2", "idle-cap1"), ("two-same", "plain"), ("two-nap", "cap1")]
LINES_2 = [("overlap2", "idle-cap1"), ("two-children", "plain"), ("seq-nap", "idle"), ("two-finals", "idle-cap1")]


def units(tier):
    out = []
    if tier == "quick":
        for p, c in SYNC:
            if p in ("two-cross", "overlap2", "two-finals", "seq-nap") and c in ("idle-cap1", "roll"):
                out += [[p, c, False, 2, [i, 3]] for i in range(3)]
            else:
                out.append([p, c, False, 1, [0, 1]])
        out.append(["seq", "parquet", False, 1, [0, 1]])
        for p, c in LINES_QUICK:
            for i in range(8):
                out.append([p, c, True, 1, [i, 8]])
    else:
        for p, c in SYNC:
            for i in range(8):
                out.append([p, c, False, 4, [i, 8]])
        for p in ("seq", "two-same", "overlap"):
            out.append([p, "parquet", False, 2, [0, 1]])
        for p in PROGRAMS:
            for c in ("cap5", "cap1", "idle", "idle-cap1", "roll", "plain"):
                for i in range(4):
                    out.append([p, c, True, 1, [i, 4]])
        for p, c in LINES_2:
            for i in range(96):
                out.append([p, c, True, 2, [i, 96]])
    return out


def is_explored(unit):
    return True


def program(name):
    return PROGRAMS.get(name) or PROGRAMS_2W[name]


def explore(ctx, unit):
    p, c, lines, bound, shard = unit
    out = {}

    def run(prefix, expected, dup):
        case = {"program": p, "config": c, "lines": lines, "schedule": list(prefix)}
        with ctx.case(case):
            r = streams.Run(program(p), CONFIGS[c], prefix=prefix, expected=expected, lines=lines)
            if r.s.aborting and r.s.aborting[0] == "diverged":
                raise sched.Diverged(r.s.aborting[1])
            case["schedule"] = trim(r.s.choices)
            judge(ctx, r)
            ctx.step(len(r.s.points))
            out["s"] = r.s
        return out.pop("s", None) or r.s

    n, complete = sched.explore(run, bound, shard)
    ctx.count(f"schedules_{'lines' if lines else 'sync'}_bound{bound}", n)


def trim(choices):
    c = list(choices)
    while c and c[-1] == 0:
        c.pop()
    return c


def check(ctx, case):
    r = streams.Run(program(case["program"]), CONFIGS[case["config"]], prefix=case["schedule"], lines=case["lines"])
    judge(ctx, r)


def judge(ctx, r):
    ctx.state([[e[1:] if e[2] != "commit" else ["commit", e[3]] for e in r.events], [[f, [x["id"] for x in rs]] for f, rs in r.committed()]])
    bad = r.problems() + [f"{e[2]} {e[-1]}" for e in r.events if e[2].endswith("failed")]
    if not ctx.expect(not bad, lambda: f"{bad}"):
        return
    template = r.config.get("template", "k_{k}")
    nw = r.config.get("writers", 1)
    where, order = {}, {}
    for i, (f, recs) in enumerate(r.committed()):
        if not ctx.expect(recs, f"an empty blob was committed to {f}"):
            return
        for x in recs:
            w = x.get("k1", 0) or 0
            want = f"bucket/data{w if nw > 1 else 0}/" + template.replace("{k}", x["k"])
            if not ctx.expect(f == want, lambda: f"record {x} was committed to {f}, its partition is {want}"):
                return
            if not ctx.expect(x["id"] not in where, lambda: f"record {x} was committed twice"):
                return
            where[x["id"]] = i
            order.setdefault((f, x["t"]), []).append(x["n"])
    for (f, t), ns in order.items():
        ctx.expect(ns == sorted(ns), lambda: f"records of thread {t} in {f} were committed in the order {ns}")
    # which records must be there when: the commits before each finalize returned
    ncommit, returned = 0, []
    active = {}
    done_before = None
    for e in r.events:
        if e[2] == "commit":
            ncommit += 1
        elif e[2] == "appended":
            returned.append(f"{e[1]}.{e[3]}")
        elif e[2] == "finalize":
            active[(e[1], e[3])] = list(returned)
        elif e[2] == "finalized" and nw == 1:
            for rid in active.pop((e[1], e[3]), []):
                if not ctx.expect(where.get(rid, 1 << 30) < ncommit, lambda: f"record {rid} was appended before finalize was called but not committed when it returned"):
                    return
    # the last finalize ran after everything was appended
    for rid in returned:
        ctx.expect(rid in where, lambda: f"record {rid} was never committed")


def finish(extra, states, tier):
    if states < 100:
        return f"only {states} distinct histories: the threads never collide"
