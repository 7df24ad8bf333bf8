"""C06: every short commit history over writers, forks and threads under every scripted clock answer."""
import os
import pickle

from mcheck import sched, streams  # noqa: installs the scheduler first
from mabel.adapters.disk import DiskWriter
from mabel.data import BatchWriter, Writer

from mcheck import env
from mcheck.store import Store
from mcheck.util import seqs

PROPERTY, LEVEL = "C06", "model_checking"
TECHNIQUE = "exhaustive enumeration of commit histories, fork points, thread schedules and scripted clock answers on the real writers"
RULE = (
    "every history of commits by writer 1, writer 2 (same dataset), commits by two forked children and a grandchild, up to the depth, with every clock movement from "
    "{still, +1ns, +1s, back 1ns, 1us, 1s, 1 day} before each; every pair of jumps of the clock from 1 ns to 30 years; tens of thousands of commits under a standing clock; and all schedules (bounded preemptions) of two threads committing under a standing clock; a state is a set of names in order"
)
ASSUMPTIONS = ["one host; the clock is the environment's and may answer anything; names are those handed to the store (files on disk for the disk cases)"]
MOVES = {"=": 0, "+": 1, "s": 10**9, "-": -1000, "d": -86400 * 10**9}
BACK = {"=": 0, "+": 1, "s": 10**9, "b": -1, "S": -(10**9)}  # back to a moment there was before
ALLMOVES = {**MOVES, **BACK}
JUMPS = sorted({0, 1, 999, 1000, 1001, 10**6, 10**6 - 1, 10**9 - 1, 10**9, 10**9 + 1, *(n * 10**9 for n in (59, 60, 3600, 86399, 86400, 7 * 86400, 31 * 86400, 366 * 86400, 3660 * 86400)), *(1 << k for k in range(8, 61, 2)), *((1 << k) * 1000 for k in range(8, 50, 4))})
STARTS = [1_700_000_000 * 10**9, (0x17 << 56) - 1 + (1 << 56), 1_599_999_999_999_999_999, 0x17FFFFFF_FFFFFFFE, 1_999_999_999 * 10**9 + 999_999_998]
T = 1_700_000_000 * 10**9


def units(tier):
    deep = tier == "thorough"
    out = []
    for cls in ("Writer", "BatchWriter", "mixed"):
        for m in MOVES:
            for first in "ab":
                out.append(["hist", cls, first + m, 5 if deep else 4])
    for cls in ("Writer", "BatchWriter"):
        for first in "ab":
            out.append(["back", cls, first, 5 if deep else 4])
        for i in range(len(STARTS)):
            out.append(["jumps", cls, i, 3])
    for m in MOVES:
        out.append(["fork", "Writer", m, 4 if deep else 3])
        out.append(["fork", "BatchWriter", m, 4 if deep else 3])
    for lines, bound in ((False, 3), (True, 1)) if not deep else ((False, 5), (True, 2)):
        for i in range(8):
            out.append(["threads", lines, bound, [i, 8]])
    for cls in ("Writer", "BatchWriter"):
        for m in "=+":
            out.append(["many", cls, m, 70000 if not deep else 300000])
    out.append(["disk", None, None, 3 if not deep else 5])
    return out


def is_explored(unit):
    return unit[0] == "threads"


def cases(unit):
    kind, cls, first, depth = unit
    if kind == "many":
        yield {"kind": kind, "cls": cls, "move": first, "n": depth}
    elif kind == "back":
        for tail in seqs([w + m for w in "ab" for m in BACK], 2, depth - 1):
            for m in "=+" if len(tail) < 3 else "=":
                yield {"kind": "hist", "cls": cls, "ops": [first + m, *tail]}
    elif kind == "jumps":
        for a in JUMPS:
            for b in JUMPS:
                yield {"kind": "jumps", "cls": cls, "start": first, "jumps": [a, b]}
    elif kind == "hist":
        # one writer commits, the clock moves before the commit
        alphabet = [w + m for w in "ab" for m in MOVES]
        for tail in seqs(alphabet, 1, depth - 1 if len(alphabet) > 4 else depth):
            if len(tail) < depth:
                yield {"kind": kind, "cls": cls, "ops": [first, *tail]}
    elif kind == "fork":
        # p: parent commits, F: fork (child commits as many as follow, in step with the parent), same clock in both
        for k in range(0, depth):
            for pre in seqs("ab", k, k):
                for post in seqs("ab", 1, depth - 1):
                    yield {"kind": kind, "cls": cls, "move": first, "pre": list(pre), "post": list(post)}
    else:
        for ops in seqs([w + m for w in "ab" for m in ("=", "-")], 2, depth):
            yield {"kind": kind, "cls": "Writer", "ops": list(ops)}


def writers(cls, inner, root="bucket", between=None):
    c = {"Writer": (Writer, Writer), "BatchWriter": (BatchWriter, BatchWriter), "mixed": (BatchWriter, Writer)}[cls]
    out = {}
    for k, w in zip("ab", c):
        kw = {"frame_id": root + "/data/x"} if w is BatchWriter else {"dataset": root + "/data/x"}
        if w is BatchWriter:
            kw["dataset"] = root + "/data"
        if out and between:
            between()
        out[k] = w(format="jsonl", schema=False, inner_writer=inner, partitions=None, **kw)
    return out


def commit(w):
    w.append({"a": 1})
    w.finalize()


def check(ctx, case):
    if case["kind"] == "hist":
        store = Store()
        now, forward = T, True
        env.clock_fixed(now)
        ws = writers(case["cls"], store.Writer, between=lambda: env.clock_set(T + 10**9))  # the second is made a second later
        now = T + 10**9
        for op in case["ops"]:
            now += ALLMOVES[op[1]]
            forward = forward and ALLMOVES[op[1]] >= 0
            env.clock_set(now)
            commit(ws[op[0]])
            ctx.step()
        names = [n for n, d in store.data_blobs()]
        judge(ctx, names, len(case["ops"]), forward)
        ctx.state([case["cls"], case["ops"]])
    elif case["kind"] == "jumps":
        store = Store()
        now = STARTS[case["start"]]
        env.clock_fixed(now)
        ws = writers(case["cls"], store.Writer)
        for j, jump in enumerate([0, *case["jumps"], case["jumps"][0]]):
            now += jump
            if now >= 1 << 63:
                break
            env.clock_set(now)
            commit(ws["ab"[j % 2]])
            ctx.step()
        names = [n for n, d in store.data_blobs()]
        judge(ctx, names, len(names), True)
        ctx.state([case["cls"], case["start"], case["jumps"]])
    elif case["kind"] == "many":
        # far more commits than a short counter can tell apart while the clock stands or crawls
        store = Store()
        now = T
        env.clock_fixed(now)
        w = writers(case["cls"], store.Writer)["a"]
        for i in range(case["n"]):
            now += MOVES[case["move"]]
            env.clock_set(now)
            commit(w)
        names = [n for n, d in store.data_blobs()]
        ctx.step(case["n"])
        ctx.expect(len(names) == len(set(names)) == case["n"], lambda: f"{case['n']} commits used {len(set(names))} names for {len(names)} blobs")
        bad = next((i for i in range(1, len(names)) if names[i - 1] >= names[i]), None)
        ctx.expect(bad is None, lambda: f"names do not sort in commit order: {names[bad - 1 : bad + 1]} are number {bad} and {bad + 1}")
        ctx.state([case["cls"], case["move"], len(set(names))])
    elif case["kind"] == "disk":
        root = os.path.join(os.getcwd(), "c06")
        import shutil

        shutil.rmtree(root, ignore_errors=True)
        now = T
        env.clock_fixed(now)
        ws = writers("Writer", DiskWriter, root)
        for i, op in enumerate(case["ops"]):
            now += MOVES[op[1]]
            env.clock_set(now)
            ws[op[0]].append({"a": i})
            ws[op[0]].finalize()
            ctx.step()
        files = [os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs]
        got = sorted(open(f).read() for f in files)
        ctx.expect(len(files) == len(case["ops"]) and len(set(got)) == len(files), lambda: f"{len(case['ops'])} commits left {len(files)} files")
        ctx.state([case])
    elif case["kind"] == "fork":
        store = Store()
        now = T
        env.clock_fixed(now)
        ws = writers(case["cls"], store.Writer)
        for op in case["pre"]:
            commit(ws[op])
            ctx.step()
        n0 = len(store.data_blobs())

        def rest():
            t = now
            for op in case["post"]:
                t += MOVES[case["move"]]
                env.clock_set(t)
                commit(ws[op])
            return [n for n, d in store.data_blobs()]

        def forked(fn):
            """what a child returns, asked for later: the parent goes on meanwhile"""
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(fn()))
                finally:
                    os._exit(0)
            os.close(w)

            def result():
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                return pickle.loads(data)

            return result

        def family():
            """a child with a child of its own"""
            grandchild = forked(lambda: rest()[n0:])
            return rest()[n0:], grandchild()

        first, second = forked(family), forked(lambda: rest()[n0:])
        mine = rest()
        (child, grandchild), sibling = first(), second()
        n = len(case["post"])
        ctx.step(4 * n)
        ctx.expect(len(child) == len(grandchild) == len(sibling) == n, "a child did not commit")
        judge(ctx, mine + child + grandchild + sibling, len(case["pre"]) + 4 * n, False)
        if MOVES[case["move"]] >= 0:
            judge(ctx, mine, len(mine), True)
            for c in (child, grandchild, sibling):
                judge(ctx, mine[:n0] + c, len(mine), True)
        ctx.state([case])
    else:
        threads(ctx, case, case["schedule"], None)


def judge(ctx, names, n, forward):
    if not ctx.expect(len(names) == n, lambda: f"{n} commits stored {len(names)} blobs"):
        return
    dup = [x for x in names if names.count(x) > 1]
    ctx.expect(not dup, lambda: f"name {dup[0]} was given to {names.count(dup[0])} blobs: {names}")
    if forward:
        ctx.expect(names == sorted(names), lambda: f"names do not sort in commit order: {names}")


def threads(ctx, case, prefix, expected):
    store = Store(latch=lambda *a: sched.S.point("commit") if sched.cur() else None)

    s = sched.Scheduler(prefix, expected, lines=case["lines"])

    def main():
        ws = writers("Writer", store.Writer)

        def body(k):
            commit(ws[k])
            commit(ws[k])

        t = sched.CThread(target=body, args=("a",), name="t1")
        t.start()
        body("b")
        t.join()

    s.run(main)
    bad = [f"{t.name}: {t.exc!r}" for t in s.threads if t.exc is not None]
    ctx.expect(not bad and s.aborting[0] == "end", lambda: f"{bad} {s.aborting}")
    judge(ctx, [n for n, d in store.data_blobs()], 4, False)
    ctx.step(len(s.points))
    ctx.state(["threads", [n.count("/") for n, d in store.data_blobs()], s.choices])
    return s


def explore(ctx, unit):
    _, lines, bound, shard = unit

    def run(prefix, expected, dup):
        case = {"kind": "threads", "lines": lines, "schedule": list(prefix)}
        s = None
        with ctx.case(case):
            s = threads(ctx, case, prefix, expected)
        return s

    n, _ = sched.explore(run, bound, shard)
    ctx.count(f"schedules_{'lines' if lines else 'sync'}_bound{bound}", n)
