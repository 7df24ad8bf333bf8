"""C16: every schedule (bounded) of the multi-process reader's workers, feeders and consumer, plus reads with real processes."""
import gc
import itertools
import json
import os
import shutil
import signal
import subprocess
import sys
import time as _time

import orso.logging, orso, pyarrow.parquet, zstandard, orjson, concurrent.futures, queue, logging, lz4.frame, numpy, pandas  # noqa: before install

from mcheck import env, processes, sched

sched.install()
processes.install()

from mabel.data import Reader  # noqa: E402

from mcheck.core import same  # noqa: E402
from mcheck.store import Store, lines, zst  # noqa: E402

PROPERTY, LEVEL = "C16", "model_checking"
TECHNIQUE = "stateless exploration of all schedules (deviation bounded, virtual time) of the real multi-process reader over model processes and queues, validated against runs with real processes"
RULE = (
    "blob vectors (empty, filtered, damaged, several records), worker counts, worker speeds, consumer speeds, stops after k records; every schedule with at most `bound` deviations, scheduling points at every queue operation, "
    "feeder step, sleep, start, join, alive and terminate; the same reads with real processes; a state is the sequence of records returned"
)
ASSUMPTIONS = [
    "processes are modelled as threads whose queue items are pickled and become visible after put returned (feeder); a terminated process stops at a scheduling point",
    "JSON records; a read of less than ten minutes (virtual)", "queues never lose or reorder the items of one process",
]
CASE_SECONDS = 120
DAY = "bucket/data/year_2020/month_02/day_03/"
VALUES = [
    {"n": 0, "v": None}, {"n": 1, "v": [None, {"a": []}]}, {"n": 2, "v": {"a": {"b": None}}}, {"n": 3, "v": "line\nbreak\u2028"}, {"n": 4, "v": 2**63 - 1}, {"n": 5, "v": [1.5, True, "x", []]}, {"n": 6, "v": ""}, {}, {"n": 8, "v": "é"},
    {"n": 9, "v": [[], [[]]]}, {"n": 10, "v": 1e300}, {"n": 11, "mini": "x"}, {"n": 12, "v": "2020-01-01T00:00:00"}, {"n": 13, "v": -0.0},
    {"n": 14, "v": "x" * 70_000}, {"n": 15, "v": list(range(3000))}, {"n": 16, "v": {str(i): {"a": [None, 1.25, {}]} for i in range(300)}}, {"n": 17, "v": "a b" * 400_000}, {f"c{i}": i or None for i in range(300)}, {"n": 19, "v": [[[[[[[[[[[[1.5, None]]]]]]]]]]]]},
]
SHAPES = {
    "five": [1, 1, 1, 1, 1],
    "empties": [0, 2, 0, 0, 1],
    "allempty": [0, 0, 0, 0, 0],
    "uneven": [3, 0, 1, 2, 1, 2],
    "seven": [1, 0, 2, 1, 1, 0, 1],
    "damaged": [2, -1, 1, -1, 2],
}
OPTS = {"plain": {}, "filter": {"filters": "n < 2"}, "nothing": {"filters": "n > 900"}, "select": {"select": "n"}}


def setup():
    logging.disable(logging.CRITICAL)
    gc.collect()
    gc.freeze()


def units(tier):
    deep = tier == "thorough"
    out = []
    for sh in SHAPES:
        for cpus in (2, 4) if sh in ("five", "uneven") else (3,):
            for opt in ("plain", "filter", "nothing") if sh in ("five", "empties") else ("plain",):
                for stop in (None, 0, 1, 3, 99):
                    if stop is not None and opt != "plain":
                        continue
                    main = sh in ("five", "empties") and cpus < 4 and opt == "plain" and stop in (None, 1)
                    if deep:
                        k = 24 if main else 8
                        for i in range(k):
                            out.append(["sched", sh, cpus, opt, stop, "fast", 2, [i, k]])
                    elif main and sh == "five" and stop is None:
                        for i in range(16):
                            out.append(["sched", sh, cpus, opt, stop, "fast", 2, [i, 16]])
                    else:
                        out.append(["sched", sh, cpus, opt, stop, "fast", 1, [0, 1]])
    for sp in SPEEDS:
        for stop in (None, 1):
            out.append(["sched", "five", 3, "plain", stop, sp, 1, [0, 1]])
    for a in range(4):
        out.append(["speeds", a])
    out.append(["values"])
    for cpus in (1, 2, 4, 9, 33):
        out.append(["counts", cpus])
    for i in range(8):
        out.append(["real", i, deep])
    return out


# how long the fetch of each blob takes, and how long the consumer thinks after each record
SPEEDS = {"slowstart": ([30, 0, 0, 0, 0], 0), "slowlast": ([0, 0, 0, 0, 45], 0), "slowall": ([7, 7, 7, 7, 7], 0), "slowconsumer": ([0] * 5, 6), "both": ([3, 0, 3, 0, 3], 5), "fast": ([0] * 5, 0)}


def is_explored(unit):
    return unit[0] == "sched"


def cases(unit):
    if unit[0] == "speeds":
        for sp in itertools.product((0, 2, 70), repeat=5):
            for think in (0, 3):
                if sum(sp) % 4 == unit[1] or True:
                    if (sp.index(max(sp)) + sum(1 for x in sp if x)) % 4 == unit[1]:
                        yield {"k": "virtual", "shape": "five", "cpus": 3, "opt": "plain", "stop": None, "speeds": list(sp), "think": think, "schedule": []}
    elif unit[0] == "counts":
        for n in (*range(5, 19), 31, 32, 33, 34, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200):
            for size in (1, 0, 2):
                if size != 1 and n % 3 and n > 18:
                    continue
                yield {"k": "virtual", "shape": [(size * 1100 if n == 9 else size * 16_400 if n == 6 and i == 1 else size * 70_001 if n == 8 and unit[1] == 2 and i == 2 else size) if i % 4 else 1 for i in range(n)], "cpus": unit[1], "opt": "filter" if n == 7 else "plain", "stop": None, "speeds": [0] * n, "think": 0, "schedule": []}
    elif unit[0] == "values":
        for i in range(len(VALUES)):
            for opt in ("plain", "select"):
                for sh in ("five", "uneven"):
                    yield {"k": "virtual", "shape": sh, "cpus": 4, "opt": opt, "stop": None, "speeds": [0] * 7, "think": 0, "schedule": [], "values": i}
    else:
        _, i, deep = unit
        shapes = [[1] * 5, [0] * 5, [3, 0, 1, 2, 1, 2], [1] * 130, [0, 0, 0, 0, 400], [2000, 1, 2000, 1, 2000, 0], [1, 2, 3, 4, 5, 6, 7], [5000] * 8]
        for n, (take, pause, kw) in enumerate(itertools.product((None, 0, 1, 4), (0, 1.2), ({}, {"filters": "n < 2"}))):
            if take is None and pause and not deep and i % 2:
                continue
            if kw and take is not None:
                continue
            if pause and i in (4, 5) and not deep:
                continue
            yield {"k": "real", "sizes": shapes[i], "take": take, "pause": pause, "kw": kw}


def records(shape, values=None):
    out, n = [], 0
    for size in shape:
        recs = []
        for _ in range(abs(size)):
            recs.append({"n": n, "blob": len(out)} if values is None else dict(VALUES[(values + n) % len(VALUES)]))
            n += 1
        out.append(recs)
    return out


def fill(store, shape, values=None):
    names = []
    for i, (size, recs) in enumerate(zip(shape, records(shape, values))):
        ext, data = ("zstd", zst(lines(recs))) if i % 2 else ("jsonl", lines(recs))
        if size < 0:
            ext, data = "jsonl", b'{"n": 1'
        names.append(f"{DAY}b{i:03d}.{ext}")
        store.put(names[-1], data)
    return names


def shape_of(case):
    return SHAPES[case["shape"]] if isinstance(case["shape"], str) else case["shape"]


class Run:
    def __init__(self, case, expected=None):
        self.case = case
        self.store = Store()
        self.names = fill(self.store, shape_of(case), case.get("values"))
        self.got, self.error, self.times = [], None, {}
        speeds = dict(zip(self.names, case["speeds"]))
        run = self

        class Reading(self.store.Reader):
            def get_blob_bytes(self, blob):
                if sched.cur() is not None:
                    if speeds.get(blob):
                        sched.csleep(speeds[blob])
                    run.times["fetched"] = sched.S.now
                return super().get_blob_bytes(blob)

        self.Reader = Reading
        processes.ALL.clear()
        processes.CPUS[0] = case["cpus"]
        self.s = sched.Scheduler(case["schedule"], expected, horizon=20000 + 2000 * len(self.names), delay=True)
        self.s.run(self.main)

    def read(self, **kw):
        return Reader(dataset="bucket/data", inner_reader=self.Reader, start_date="2020-02-03", end_date="2020-02-03", **OPTS[self.case["opt"]], **kw)

    def main(self):
        c = self.case
        ds = self.read(multiprocess=True)
        it = iter(ds)
        t0 = sched.S.now
        for k in itertools.count():
            if c["stop"] is not None and k >= c["stop"]:
                break
            try:
                self.got.append(next(it))
            except StopIteration:
                break
            if c["think"]:
                sched.csleep(c["think"])
                self.times["thought"] = sched.S.now
        t1 = sched.S.now
        it = ds = None
        if c["stop"] is not None:
            gc.collect()  # the reader and its generator refer to each other
        self.times["end"], self.times["release"] = t1, sched.S.now - t1
        self.times["all"] = t1 - t0
        # a second for the workers to go away
        sched.csleep(1.5)
        self.alive = sum(1 for p in processes.ALL if p._t is not None and p._t.state != "done")


def explore(ctx, unit):
    _, sh, cpus, opt, stop, sp, bound, shard = unit
    out = {}

    def run(prefix, expected, dup):
        case = {"k": "virtual", "shape": sh, "cpus": cpus, "opt": opt, "stop": stop, "speeds": SPEEDS[sp][0] + [0, 0], "think": SPEEDS[sp][1], "schedule": list(prefix)}
        with ctx.case(case):
            r = Run(case, expected)
            if r.s.aborting and r.s.aborting[0] == "diverged":
                raise sched.Diverged(r.s.aborting[1])
            c = list(r.s.choices)
            while c and c[-1] == 0:
                c.pop()
            case["schedule"] = c
            judge(ctx, case, r)
            ctx.step(len(r.s.points))
            out["s"] = r.s
        return out.pop("s", None) or r.s

    n, _ = sched.explore(run, bound, shard)
    ctx.count(f"schedules_bound{bound}", n)


def check(ctx, case):
    if case["k"] == "real":
        return real(ctx, case)
    r = Run(case)
    judge(ctx, case, r)
    ctx.step(len(r.s.points))


def tags(recs):
    return [json.dumps(r, sort_keys=True) for r in recs]


def judge(ctx, case, r):
    why, text = r.s.aborting or ("end", "")
    what = f"shape {shape_of(case)}, {case['cpus']} cpus, {case['opt']}, stopped after {case['stop']}, fetch times {case['speeds']}, consumer waits {case['think']}"
    if not ctx.expect(why == "end", lambda: f"{why}: {text} ({what})"):
        return
    bad = [f"{t.name}: {type(t.exc).__name__}: {t.exc}" for t in r.s.threads if t.exc is not None]
    if not ctx.expect(not bad, lambda: f"{bad} ({what})"):
        return
    serial = [dict(x) for x in r.read()] if not all(s == 0 for s in shape_of(case)) or True else []
    verdict(ctx, case, r.got, serial, what)
    ctx.expect(r.alive == 0, lambda: f"{r.alive} worker(s) still run after the read is over ({what})")
    # a departure from the schedule may let a fetch that is under way end first
    slack = sum(1 for x in case["schedule"] if x) * max(case["speeds"]) * 1e9
    ctx.expect(r.times["release"] <= 5e9 + slack, lambda: f"giving the read up took {r.times['release'] / 1e9} s ({what})")
    if case["stop"] is None:
        idle = r.times["end"] - max(r.times.get("fetched", 0), r.times.get("thought", 0))
        ctx.expect(idle <= 8e9, lambda: f"the read ended {idle / 1e9} s after the last blob was fetched and the last record consumed ({what})")
    ctx.state([case["shape"], case["opt"], tags(r.got)])


def verdict(ctx, case, got, serial, what):
    g, s = tags(got), tags(serial)
    if case.get("stop") is None and case.get("take") is None:
        ctx.expect(sorted(g) == sorted(s), lambda: f"the multi-process read returns {short(got)}, the serial one {short(serial)} ({what})")
    else:
        left = list(s)
        for x in g:
            if not ctx.expect(x in left, lambda: f"the multi-process read returns {x} (once too often), the serial one {short(serial)} ({what})"):
                return
            left.remove(x)
    if all("blob" in r for r in got) and got:
        for b in {r["blob"] for r in got}:
            mine = [r["n"] for r in got if r["blob"] == b]
            full = [r["n"] for r in serial if r["blob"] == b]
            ctx.expect(mine == full[: len(mine)], lambda: f"records of blob {b} in the order {mine} ({what})")


def short(recs):
    t = repr(recs)
    return t if len(t) < 600 else t[:600] + f"... ({len(recs)} records)"


def real(ctx, case):
    """the same with real processes"""
    root = os.path.join(env.SCRATCH, f"c16-{os.getpid()}")
    os.makedirs(f"{root}/{DAY}", exist_ok=True)
    try:
        all_recs = records(case["sizes"])
        for i, recs in enumerate(all_recs):
            ext, data = ("zstd", zst(lines(recs))) if i % 2 else ("jsonl", lines(recs))
            with open(f"{root}/{DAY}b{i:03d}.{ext}", "wb") as f:
                f.write(data)
        arg = json.dumps({"dataset": f"{root}/bucket/data", "kw": case["kw"], "take": case["take"], "pause": case["pause"]})
        e = dict(os.environ)
        e.pop("LD_PRELOAD", None)
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mcheck.mpreal", arg], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True, cwd=root)
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            out, err = None, b""
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    what = f"real processes, blobs of {case['sizes'][:8]} records, stopped after {case['take']}, {case['kw']}"
    if not ctx.expect(out is not None, f"the read did not finish within a minute ({what})"):
        return
    try:
        res = json.loads(out.decode().strip().splitlines()[-1])
    except (ValueError, IndexError):
        ctx.fail(f"the read failed: {err.decode(errors='replace')[-1500:]} ({what})")
        return
    ctx.step()
    if case["take"] is None:
        serial = [r for recs in all_recs for r in recs if not case["kw"] or r["n"] < 2]
        verdict(ctx, case, res["records"], serial, what)
        ctx.count("real_records", len(res["records"]))
    else:
        ctx.expect(res["seconds"] < 20, lambda: f"giving up the read took {res['seconds']} s ({what})")
    ctx.expect(res["children"] == 0, lambda: f"{res['children']} worker processes are left ({what})")
    ctx.count("real_reads", 1)
    ctx.state(["real", case["sizes"], case["take"]])
