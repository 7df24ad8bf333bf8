"""C09: every history of appends and pauses over a few partitions, with virtual time, against the eviction rules."""
import itertools

from mcheck import sched, streams

PROPERTY, LEVEL = "C09", "model_checking"
TECHNIQUE = "exhaustive enumeration of append/pause histories of the real StreamWriter and its housekeeping thread under virtual time, plus schedule deviations; every observed sweep is compared with the eviction rules"
RULE = (
    "every history of up to `depth` appends over up to 4 partitions (up to renaming) with every pause from an alphabet before each, for each idle time, capacity, template and format; every commit outside finalize must be "
    "exactly what the rules evict at that instant, and nothing evictable may stay longer than a sweep period; a state is the sequence of (partition, reason) evictions"
)
ASSUMPTIONS = ["virtual time: code takes no time, sleeps take exactly the time asked for (with schedule deviations: at least)", "in-memory store with atomic, instant commits", "sweep period taken as at most 0.2 s"]
PAUSES = [0, 0.03, 0.13, 0.37]
LAST = [0.05, 0.9]
CONFIGS = [
    {"idle": 30, "capacity": 1}, {"idle": 30, "capacity": 2}, {"idle": 0.31, "capacity": 5}, {"idle": 0.31, "capacity": 1}, {"idle": 0.12, "capacity": 2},
    {"idle": 0.31, "capacity": 1, "blob": 60}, {"idle": 30, "capacity": 3}, {"idle": 0.31, "capacity": 2, "format": "zstd"},
]
PERIOD = 0.2
NAMES = ["a", "ab", "A", "1", "11"]  # partitions whose names begin alike or differ in case only
EPS = 1e-6


def shapes(n, width):
    """assignments of appends to partitions up to renaming"""

    def go(prefix, used):
        if len(prefix) == n:
            yield prefix
            return
        for k in range(min(used + 1, width)):
            yield from go(prefix + (k,), max(used, k + 1))

    return go((), 0)


def units(tier):
    out = []
    for c in range(len(CONFIGS)):
        for first in range(len(PAUSES)):
            for n in range(1, 5):
                out.append(["hist", c, first, n, 4, 0 if tier == "thorough" or c in (1, 3) else 1 + first])
            if tier == "thorough" or (c == 3 and first == 2):
                for p2 in range(len(PAUSES)):
                    out.append(["hist", c, first, 5, 4, 0, p2])
        out.append(["burst", c])
        for prog in range(len(DEVIATE)):
            out.append(["dev", c, prog, 2 if tier == "thorough" else 1])
    return out


DEVIATE = [[(0, 0), (1, 0.13), (2, 0)], [(0, 0), (1, 0), (0, 0.37)], [(0, 0), (1, 0.03), (2, 0.03), (0, 0.13)]]


def is_explored(unit):
    return unit[0] == "dev"


def cases(unit):
    if unit[0] == "burst":
        # many partitions at once, re-appended in every order, to see several sweeps drain the excess
        for n in (4, 5):
            for perm in itertools.permutations(range(n)):
                yield {"c": unit[1], "ops": [[k, 0] for k in range(n)] + [[k, 0.003] for k in perm[: n - 1]], "last": 0.9}
        return
    _, c, first, n, width, _ = unit[:6]
    for shape in shapes(n, width):
        for ps in itertools.product(range(len(PAUSES)), repeat=n - 1):
            if n == 4 and len(unit) == 6 and unit[5] and ps[-1] == unit[5] - 1:
                continue
            if len(unit) > 6 and ps[0] != unit[6]:
                continue
            if n == 5 and ps[-1] == first:  # the five-step histories: a quarter less, still every pair of neighbours
                continue
            for last in LAST:
                yield {"c": c, "ops": [[shape[i], PAUSES[([first] + list(ps))[i]]] for i in range(n)], "last": last}


def explore(ctx, unit):
    _, c, prog, bound = unit
    out = {}

    def run(prefix, expected, dup):
        case = {"c": c, "ops": [list(o) for o in DEVIATE[prog]], "last": 0.9, "schedule": list(prefix)}
        with ctx.case(case):
            r = drive(case, expected)
            if r.s.aborting and r.s.aborting[0] == "diverged":
                raise sched.Diverged(r.s.aborting[1])
            ctx.step(len(r.s.points))
            out["s"] = r.s
            judge(ctx, case, r)
        return out.pop("s")

    n, _ = sched.explore(run, bound)
    ctx.count(f"schedules_bound{bound}", n)


def drive(case, expected=None):
    prog = []
    for k, pause in case["ops"]:
        if pause:
            prog.append(["s", pause])
        prog.append(["a", NAMES[k]])
    prog += [["s", case["last"]], ["F"]]
    return streams.Run([prog], CONFIGS[case["c"]], prefix=case.get("schedule", ()), expected=expected)


def check(ctx, case):
    r = drive(case)
    ctx.step(len(case["ops"]))
    judge(ctx, case, r)


def judge(ctx, case, r):
    bad = r.problems() + [f"{e[2]} {e[-1]}" for e in r.events if e[2].endswith("failed")]
    if not ctx.expect(not bad, lambda: f"{bad}"):
        return
    cfg = CONFIGS[case["c"]]
    idle, cap, rolls = cfg["idle"], cfg["capacity"], "blob" in cfg
    committed = r.committed()
    pool = {}  # partition -> [earliest and latest possible last append, records]
    exact = "schedule" not in case
    ev = [(t / 1e9, who, what, rest) for t, who, what, *rest in r.events]
    sec = lambda t: round(t - ev[0][0], 4)
    trace = []
    appending = None
    due = {}  # partition -> since when it has to go
    i = 0

    def stale(t, slack=0):
        return {p for p, (a, b, _) in pool.items() if t - b > idle + slack}

    def excess(t, without):
        left = sorted((p for p in pool if p not in without), key=lambda p: pool[p][1])
        return left[: max(0, len(left) - cap)][:cap]

    def overdue(t):
        """what had to be evicted a sweep ago and still is open"""
        for p, since in due.items():
            if not ctx.expect(t - since <= PERIOD + EPS, lambda: f"partition {p} had to be evicted from {sec(since)} s on and is still open at {sec(t)} s ({describe(case)})"):
                return False
        return True

    def renew(t):
        """when the first partition becomes due"""
        due.clear()
        for p in stale(t):
            due[p] = pool[p][1] + idle
        gone = set(due)
        for p in excess(t, gone):
            due[p] = over_since[0] if over_since[0] is not None else t

    over_since = [None]
    taken = set()

    def note_size(t, sweep=False):
        over = len(pool) > cap
        if not over:
            over_since[0] = None
        elif over_since[0] is None or sweep:
            over_since[0] = t

    while i < len(ev):
        t, who, what, rest = ev[i]
        if exact:
            renew(t - EPS)
            if what != "commit" and not overdue(t):
                return
        if what == "append":
            appending = str(rest[1][0])
            started = t
        elif what == "appended":
            p = str(rest[1][0])
            rec = f"0.{rest[0]}"
            if rec not in taken:  # (with deviations it may have been evicted before its append returned)
                pool.setdefault(p, [t, t, []])
                pool[p][0], pool[p][1] = started, t
                pool[p][2].append(rec)
            appending = None
            note_size(t)
        elif what == "finalize":
            # everything open is committed now, one blob each
            rest_commits = [committed[e[3][0]] for e in ev[i:] if e[2] == "commit"]
            got = sorted((f.rsplit("k_", 1)[1], [x["id"] for x in recs]) for f, recs in rest_commits)
            want = sorted((p, v[2]) for p, v in pool.items())
            if exact:
                ctx.expect(got == want, lambda: f"finalize committed {got}, open were {want} ({describe(case)})")
            break
        elif what == "commit" and appending is not None and exact and rolls:
            f, recs = committed[rest[0]]
            p = f.rsplit("k_", 1)[1]
            ids = [x["id"] for x in recs]
            if not ctx.expect(p == appending and p in pool and pool[p][2] == ids, lambda: f"append to {appending} committed {ids} of {p} ({describe(case)})"):
                return
            pool[p][2] = []
        elif what == "commit":
            # a sweep: the commits that follow at the same instant belong to it
            j = i
            sweep = []
            while j < len(ev) and ev[j][2] == "commit" and (abs(ev[j][0] - t) < EPS):
                f, recs = committed[ev[j][3][0]]
                sweep.append((f.rsplit("k_", 1)[1], [x["id"] for x in recs]))
                j += 1
            if exact:
                st = stale(t)
                ex = excess(t, st)
                names = [p for p, _ in sweep]
                ok = (
                    ctx.expect(len(set(names)) == len(names) and set(names) == st | set(ex), lambda: f"sweep at {sec(t)} s evicted {names}, idle are {sorted(st)}, in excess {ex} ({describe(case)})")
                    and ctx.expect([p for p in names if p in ex] == ex, lambda: f"excess partitions evicted in the order {names}, oldest first is {ex} ({describe(case)})")
                    and ctx.expect(all(p in pool and pool[p][2] == ids for p, ids in sweep), lambda: f"sweep committed {sweep}, the partitions hold {dict((p, v[2]) for p, v in pool.items())} ({describe(case)})")
                )
                if not ok:
                    return
                trace += [(p, "idle" if p in st else "excess") for p in names]
            else:
                # with deviations an append may be under way: each eviction must be justified by what is known
                for p, ids in sweep:
                    taken.update(ids)
                    known = pool.get(p)
                    if known is None:
                        # the append that opened it has not returned yet
                        if not ctx.expect(appending == p, lambda: f"partition {p} was evicted but is not open"):
                            return
                        trace.append((p, "opening"))
                        continue
                    others = [q for q in set(pool) | ({appending} if appending else set()) if q != p]
                    idle_now = t - known[0] > idle
                    newer = [q for q in others if q == appending or pool[q][1] >= known[0]]
                    if not ctx.expect(idle_now or len(newer) >= cap, lambda: f"partition {p} evicted at {sec(t)} s with {len(pool)} open, last append at {sec(known[1])} s ({describe(case)})"):
                        return
                    trace.append((p, "idle" if idle_now else "excess"))
                    late = [f"0.{e[3][0]}" for e in ev[:j] if e[2] == "append"][-1:]
                    if not ctx.expect(ids in (known[2], known[2] + late), lambda: f"sweep committed {ids} of {p}, which holds {known[2]} ({describe(case)})"):
                        return
                    if ids != known[2] and p == appending:
                        appending = None
                    del pool[p]
                i = j
                continue
            for p, _ in sweep:
                pool.pop(p, None)
            over_since[0] = None
            note_size(t, True)
            i = j
            continue
        i += 1
    ctx.state([case["c"], trace, [f for f, _ in committed]])
    ctx.count("evictions", len(trace))


def describe(case):
    return f"{CONFIGS[case['c']]}, appends with pauses {case['ops']}"


def finish(extra, states, tier):
    if extra.get("evictions", 0) < 1000:
        return "hardly anything was evicted"
