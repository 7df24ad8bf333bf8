"""C03: every pattern of rejected commits over short histories (writers and stream housekeeping), every failing file operation."""
import os
import shutil

from mcheck import env, sched, streams  # noqa: installs the scheduler first
from mabel.adapters.disk import DiskWriter
from mabel.data import BatchWriter, Writer

from mcheck.choice import Chooser, enumerate_answers
from mcheck.store import Store, StoreError, decode
from mcheck.util import seqs

PROPERTY, LEVEL = "C03", "model_checking"
TECHNIQUE = "exhaustive enumeration of store-failure patterns over operation histories and of failing file operations, on the real writers"
RULE = (
    "writers: every append/finalize sequence up to the depth, each commit attempt (data and marker) accepted or rejected, with at most the stated number of rejections; "
    "streams: driver programs with housekeeping sweeps under the controlled scheduler, same patterns, with schedules of bounded deviations; disk: every file operation of "
    "every commit failing with several errors and torn writes of several lengths; a state is a history of results and stored blobs"
)
ASSUMPTIONS = [
    "a rejected commit raises and stores nothing (disk: what the failed system call left behind)",
    "one file operation fails in a disk run, later ones succeed",
    "the record of an append that raised may be stored once or not at all",
]
SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "p", "type": "VARCHAR"}]
ST, JN, F = ["start", 1], ["join", 1], ["F"]
A, B, C = ["a", "x"], ["a", "xy"], ["a", "X"]  # names that begin alike or differ in case only
NAP = ["s", 0.35]
PROGRAMS = {
    "final": [[A, B, C, F]],
    "sweep": [[A, NAP, NAP, F]],
    "sweep2": [[A, B, NAP, C, NAP, F]],
    "again": [[A, NAP, A, NAP, A, F]],
    "child": [[ST, A, NAP, JN, B, F], [B, NAP, A]],
    "final2": [[A, B, F, A, C, F]],
}
CONFIGS = {
    "idle": {"idle": 0.15, "capacity": 5},
    "cap": {"idle": 30, "capacity": 1},
    "roll": {"idle": 30, "capacity": 5, "blob": 10},
    "parquet": {"idle": 0.15, "capacity": 1, "format": "parquet", "schema": [{"name": n, "type": "VARCHAR"} for n in ("id", "k")] + [{"name": n, "type": "INTEGER"} for n in "tn"]},
}
ERRNOS = (28, 5, 13)  # ENOSPC EIO EACCES


def units(tier):
    deep = tier == "thorough"
    out = []
    for cls in ("BatchWriter", "Writer"):
        for fmt, depth in (("jsonl", 7 if deep else 6), ("zstd", 6 if deep else 5), ("text", 6 if deep else 5), ("parquet", 5 if deep else 4)):
            for first in "slF":
                out.append(["mem", cls, fmt, first, depth, 4 if deep else 3])
    for p in PROGRAMS:
        for c in CONFIGS:
            if c == "parquet" and p not in ("final", "sweep"):
                continue
            out.append(["stream", p, c, 4 if deep else 3, 2 if deep and c != "parquet" else (1 if p != "child" else 0)])
    for cls in ("BatchWriter", "Writer"):
        for fmt in ("jsonl", "zstd", "parquet", "text"):
            for n in (1, 2) if not deep else (1, 2, 3):
                out.append(["disk", cls, fmt, n])
    return out


def is_explored(unit):
    return True


def explore(ctx, unit):
    if unit[0] == "mem":
        _, cls, fmt, first, depth, dev = unit
        for tail in seqs("slF", 0, depth - 1):
            ops = first + "".join(tail)

            def run(prefix):
                case = {"kind": "mem", "cls": cls, "fmt": fmt, "ops": ops, "answers": list(prefix)}
                ch = Chooser(prefix)
                with ctx.case(case):
                    memory(ctx, case, ch)
                    case["answers"] = ch.taken
                return ch

            ctx.count("failure_patterns", enumerate_answers(run, dev))
    elif unit[0] == "stream":
        _, p, c, dev, bound = unit

        def run(prefix):
            keep = Chooser(prefix)

            def one(sprefix, expected, dup):
                case = {"kind": "stream", "program": p, "config": c, "answers": list(prefix), "schedule": list(sprefix)}
                ch = Chooser(prefix)
                r = None
                with ctx.case(case):
                    r = stream_run(p, c, ch, sprefix, expected)
                    stream_judge(ctx, r, ch)
                if not sprefix:
                    keep.taken, keep.width = ch.taken, ch.width
                return r and r.s

            # deviations of the schedule and of the store share the budget: each pattern with few rejections gets all schedules
            b = bound if sum(1 for x in prefix if x) <= 1 else 0
            n, _ = sched.explore(one, b)
            ctx.count("schedules", n)
            return keep

        ctx.count("failure_patterns", enumerate_answers(run, dev))
    else:
        _, cls, fmt, n = unit
        case = {"kind": "disk", "cls": cls, "fmt": fmt, "n": n, "fault": None}
        log = []
        with ctx.case(case):
            log = disk(ctx, case)
        for i, (op, size) in enumerate(log or []):
            faults = [[env.FS_FAIL, i, -1, e] for e in ERRNOS]
            if op == "write":
                faults += [[env.FS_TEAR_FAIL, i, k, 28] for k in sorted({0, 1, size // 2, size - 1, size})]
            for f in faults:
                case = {"kind": "disk", "cls": cls, "fmt": fmt, "n": n, "fault": f}
                with ctx.case(case):
                    disk(ctx, case)
                ctx.count("file_faults")


def check(ctx, case):
    if case["kind"] == "mem":
        memory(ctx, case, Chooser(case["answers"]))
    elif case["kind"] == "stream":
        ch = Chooser(case["answers"])
        stream_judge(ctx, stream_run(case["program"], case["config"], ch, case["schedule"], None), ch)
    else:
        disk(ctx, case)


def make(inner, cls, fmt, root):
    return (BatchWriter if cls == "BatchWriter" else Writer)(
        dataset=root + "/data", format=fmt, inner_writer=inner, blob_size=60, schema=SCHEMA if fmt == "parquet" else False, date="2020-02-03"
    )


def record(fmt, k, size):
    r = {"i": 1000 + k, "p": "x" * (70 if size == "l" else 1)}
    return f"{r['i']}:{r['p']}" if fmt == "text" else r


def sub(got, certain, possible):
    """got is `certain` in order with some of `possible` (each at most once) at their places"""
    allr = sorted(certain + possible)
    return got == sorted(got) and len(set(got)) == len(got) and set(certain) <= set(got) <= set(allr)


def ident(fmt, r):
    return int(r.split(":")[0]) if fmt == "text" else r["i"]


def memory(ctx, case, ch):
    fmt = case["fmt"]
    rejected = [0]

    def gate(name, data):
        if ch(2):
            rejected[0] += 1
            raise StoreError("rejected")

    store = Store(gate=gate)
    w = make(store.Writer, case["cls"], fmt, "bucket")
    certain, possible = [], []
    history = []
    for k, op in enumerate(case["ops"] + "F"):
        if k == len(case["ops"]):
            ch.frozen = True  # the store works again
        r0, m0 = rejected[0], len(store.markers())
        try:
            if op == "F":
                w.finalize()
            else:
                w.append(record(fmt, k, op))
            raised = False
        except Exception:
            raised = True
        ctx.step()
        failed = rejected[0] > r0
        if not ctx.expect(raised == failed, lambda: f"operation {k} ({op}): commit rejected={failed}, raised={raised}"):
            return
        if op != "F":
            (possible if raised else certain).append(1000 + k)
        elif raised:
            ctx.expect(len(store.markers()) == m0, "a finalize that raised stored a completion marker")
        history.append((op, raised))
    got = [ident(fmt, r) for n, d in store.data_blobs() for r in decode(n, d)]
    ctx.expect(sub(got, certain, possible), lambda: f"stored {got}; accepted {certain}, raised {possible}; history {history}")
    if case["cls"] == "BatchWriter" and certain:
        ctx.expect(bool(store.markers()), "the last finalize stored no completion marker")
    ctx.state([case["cls"], fmt, history, [len(decode(n, d)) for n, d in store.data_blobs()]])


def stream_run(p, c, ch, sprefix, expected):
    state = {"rej": []}
    programs = [list(x) for x in PROGRAMS[p]]
    config = CONFIGS[c]
    holder = {}

    def gate(name, data):
        if ch(2):
            state["rej"].append(len(holder["events"]()))
            raise StoreError("rejected")

    class R(streams.Run):
        def main(self):
            holder["events"] = lambda: self.events
            super().main()
            ch.frozen = True
            self.op(0, "last", F)

    # a rejection before any event is impossible, so the holder is always set
    r = R(programs, config, gate=gate, prefix=sprefix, expected=expected)
    r.rej = state["rej"]
    return r


def stream_judge(ctx, r, ch):
    ctx.step(len(r.s.points))
    ctx.state([[list(e[1:3]) for e in r.events], [[f, [x["id"] for x in rs]] for f, rs in r.committed()], ch.taken])
    bad = r.problems()
    if not ctx.expect(not bad, lambda: f"{bad}"):
        return
    ev = r.events
    certain, possible = set(), set()
    opened = {}
    for i, e in enumerate(ev):
        if e[2] == "appended":
            certain.add(f"{e[1]}.{e[3]}")
        if e[2] == "append-failed":
            possible.add(f"{e[1]}.{e[3]}")
            # some rejection must have happened since that append began
            start = max(j for j in range(i) if ev[j][2] == "append" and ev[j][1] == e[1])
            if not ctx.expect(any(start < x <= i for x in r.rej), lambda: f"append failed without a rejected commit: {e}"):
                return
    where = {}
    for i, (f, recs) in enumerate(r.committed()):
        for x in recs:
            if not ctx.expect(x["id"] not in where and f == f"bucket/data0/k_{x['k']}", lambda: f"{x} committed to {f}, before: {where.get(x['id'])}"):
                return
            where[x["id"]] = i
    ctx.expect(certain <= set(where), lambda: f"accepted records {sorted(certain - set(where))} were never committed; rejected at {r.rej}")
    ctx.expect(set(where) <= certain | possible, "records that were never appended were committed")
    # finalize: raises exactly if a commit in it was rejected, after trying every open partition
    ncommit = 0
    open_parts, start, rej_before = {}, None, 0
    single = not r.s.choices or not any(r.s.choices)
    for i, e in enumerate(ev):
        if e[2] == "finalize":
            start = i
        elif e[2] in ("finalized", "finalize-failed") and start is not None:
            rej = [x for x in r.rej if start < x <= i]
            if single and len(r.threads) == 1:
                if not ctx.expect((e[2] == "finalize-failed") == bool(rej), lambda: f"finalize: {len(rej)} commits rejected, {e[2]}"):
                    return
                commits = sum(1 for x in ev[: i] if x[2] == "commit")
                pend = {rid for rid in appended_before(ev, start) if where.get(rid, 1 << 30) >= commits}
                parts = {r_part(ev, rid) for rid in pend}
                ctx.expect(len(parts) <= len(rej), lambda: f"finalize left partitions {parts} uncommitted with {len(rej)} rejections")
            start = None
    # housekeeping goes on after a rejection: an idle partition is committed by a later sweep, before finalize
    if r.config["idle"] < 1 and single and len(r.threads) == 1 and len(r.rej) == 1:
        first_final = next(i for i, e in enumerate(ev) if e[2] == "finalize")
        t_final = ev[first_final][0]
        commits_before = sum(1 for x in ev[:first_final] if x[2] == "commit")
        if r.rej[0] <= first_final:
            for i, e in enumerate(ev[:first_final]):
                if e[2] == "appended" and t_final - e[0] > (r.config["idle"] + 0.45) * env.NS:
                    rid = f"{e[1]}.{e[3]}"
                    later = [x for x in ev[i + 1 : first_final] if x[2] == "appended" and x[4] == e[4]]
                    if not later:
                        ctx.expect(where.get(rid, 1 << 30) < commits_before, lambda: f"{rid} was idle for {(t_final-e[0])/1e9}s but not committed by housekeeping after a rejected commit")


def appended_before(ev, i):
    return [f"{e[1]}.{e[3]}" for e in ev[:i] if e[2] == "appended"]


def r_part(ev, rid):
    for e in ev:
        if e[2] == "append" and f"{e[1]}.{e[3]}" == rid:
            return e[4][0]


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[p] = h.read()
    return out


def disk(ctx, case):
    fmt, n, fault = case["fmt"], case["n"], case["fault"]
    root = os.path.join(os.getcwd(), "d")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    w = make(DiskWriter, case["cls"], fmt, root)
    if fault:
        env.fs_arm(root, fault[0], fault[1], fault[2], fault[3])
    else:
        env.fs_arm(root, env.FS_COUNT)
    certain, possible, raises = [], [], 0
    ops = ["l"] * n + ["F"]
    for k, op in enumerate(ops + ["F", "F"]):
        if k >= len(ops):
            log = env.fs_log() if k == len(ops) else log
            env.fs_off()  # recovered
            if k == len(ops) and not raises:
                break
        try:
            if op == "F":
                w.finalize()
            else:
                w.append(record(fmt, k, op))
                certain.append(1000 + k)
        except OSError:
            raises += 1
            if op != "F":
                possible.append(1000 + k)
            armed = env.fs_log()
            env.fs_off()
            check_tree(ctx, fmt, tree(root), certain, possible, case, op)
            if fault:
                env.fs_arm(root, env.FS_COUNT)
        ctx.step()
    env.fs_off()
    blobs = tree(root)
    got = check_tree(ctx, fmt, blobs, certain, possible, case, None)
    ctx.expect(set(certain) <= set(got), lambda: f"stored {got}, accepted {certain}, raised {possible} ({raises} operations raised)")
    if case["cls"] == "BatchWriter" and certain:
        ctx.expect(any(b.endswith("/frame.complete") for b in blobs), "no completion marker at the end")
    ctx.state([case, raises, sorted(len(v) for v in blobs.values()) if fmt != "parquet" else len(blobs)])
    ctx.count("disk_runs_that_raised", 1 if raises else 0)
    return log if not fault else None


def check_tree(ctx, fmt, blobs, certain, possible, case, op):
    got = []
    for name, data in sorted(blobs.items()):
        if name.endswith(".complete"):
            ctx.expect(op != "F" or not case["fault"], f"completion marker {name} after a finalize that raised")
            continue
        try:
            recs = [ident(fmt, r) for r in decode(name, data)]
            ctx.expect(len(recs) > 0, f"an empty blob {name} was left behind")
        except Exception as e:
            ctx.fail(f"partial blob left behind: {name} ({len(data)} bytes)")
            return got
        got += recs
    ctx.expect(len(set(got)) == len(got) and set(got) <= set(certain + possible), lambda: f"on disk {got}, accepted {certain}, raised {possible}")
    return got
