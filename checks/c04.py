"""C04: every crash point and torn write of a batch run on disk, followed by a read, a rerun and a read."""
import os
import shutil
import sys

from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.data import BatchWriter, Reader

from mcheck import env
from mcheck.core import same

PROPERTY, LEVEL = "C04", "model_checking"
TECHNIQUE = "exhaustive crash-point and torn-write enumeration over the file operations of the real batch writer, judged by the real reader"
RULE = (
    "for each format, partition scheme, number of blobs and prior frame: the process is stopped before every file operation and inside every write after 0, 1, half, all but one "
    "and all bytes (thorough: every byte, and a second crash in the rerun); then the date is read, the batch rerun, and read again; a state is (prior frame, crash point, what was visible)"
)
ASSUMPTIONS = [
    "the process dies, the operating system does not: completed file operations persist in order",
    "batches run in different seconds (virtual clock)",
]
T = 1_580_731_200  # 2020-02-03 12:00:00
DATE = "2020-02-03"
SCHEMA = [{"name": "run", "type": "INTEGER"}, {"name": "i", "type": "INTEGER"}, {"name": "p", "type": "VARCHAR"}]
DAILY = ["year_{yyyy}/month_{mm}/day_{dd}"]
LAYOUTS = {
    "daily": dict(w=DAILY, r=DAILY),
    "hour": dict(w=DAILY + ["by_hour/hour={HH}"], r=DAILY),
    "short": dict(w=["{yyyy}/{mm}/{dd}"], r=["{yyyy}/{mm}/{dd}"]),
    "none": dict(w=None, r=None),
}


def units(tier):
    out = []
    for fmt in ("jsonl", "zstd", "parquet", "flat"):
        for layout in LAYOUTS:
            for prior in (0, 1, 2):
                for blobs in (0, 1, 2, 3):
                    out.append([fmt, layout, prior, blobs, tier == "thorough"])
    return out


def is_explored(unit):
    return True


def explore(ctx, unit):
    fmt, layout, prior, blobs, deep = unit
    base = {"fmt": fmt, "layout": layout, "prior": prior, "blobs": blobs}
    log = []
    with ctx.case({**base, "crash": None}):
        log = check(ctx, {**base, "crash": None})
    crashes = points(log, deep)
    for c in crashes:
        case = {**base, "crash": c}
        with ctx.case(case):
            check(ctx, case)
        ctx.count("crash_points")
        if deep and c[1] != env.FS_EXIT_IN:
            for c2 in points(log, False):
                case = {**base, "crash": c, "crash2": c2}
                with ctx.case(case):
                    check(ctx, case)
                ctx.count("double_crashes")


def points(log, deep):
    out = []
    for i, (op, size) in enumerate(log or []):
        out.append([i, env.FS_EXIT_BEFORE, -1])
        if op == "write":
            ks = range(1, size + 1) if deep and size < 400 else sorted({1, size // 2, size - 1, size})
            out += [[i, env.FS_EXIT_IN, k] for k in ks if k > 0]
    return out


def batch(root, case, run, blobs, when):
    """writes one frame; returns its records"""
    recs = [{"run": run, "i": i, "p": "x" * 30} for i in range(blobs * 2)]
    if case["fmt"] == "parquet":
        size = 1 << 40
        if blobs > 1:
            import orso
            from mabel.data.validator import schema_loader

            df = orso.DataFrame(rows=[], schema=schema_loader(SCHEMA))
            df.append(recs[0])
            size = df.nbytes() + 1  # two records to a blob
    else:
        size = 60 if blobs > 1 else 10**6
    w = BatchWriter(
        dataset=root + "/data", format=case["fmt"], inner_writer=DiskWriter, blob_size=size, date=DATE,
        schema=SCHEMA if case["fmt"] == "parquet" else False, partitions=LAYOUTS[case["layout"]]["w"], always_complete=True,
    )
    for r in recs:
        w.append(r)
    w.finalize()
    return recs


def read(root, case):
    try:
        d = Reader(dataset=root + "/data", inner_reader=DiskReader, start_date=DATE, end_date=DATE, partitions=LAYOUTS[case["layout"]]["r"])
        return [dict(r) for r in d]
    except Exception as e:
        if type(e).__name__ == "DataNotFoundError":
            return []
        raise


def crashing(root, case, run, blobs, when, crash):
    """the batch in a process of its own which is stopped at the crash point; returns (stopped?, its file operations)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            env.clock_fixed(when * env.NS)
            if crash is None:
                env.fs_arm(root, env.FS_COUNT)
            else:
                env.fs_arm(root, crash[1], crash[0], crash[2])
            batch(root, case, run, blobs, when)
            log = env.fs_log()
            env.fs_off()
            os.write(w, repr(log).encode())
            code = 0
        except BaseException as e:
            env.fs_off()
            os.write(w, repr(f"{type(e).__name__}: {e}").encode())
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    return code, (eval(data.decode()) if data else None)


def check(ctx, case):
    root = os.path.join(os.getcwd(), "c04")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    before = []
    for k in range(case["prior"]):
        with env.at(T + k):
            before = batch(root, case, k, 1 + k, T + k)
        ctx.step()
    if case["prior"]:
        if not ctx.equal(read(root, case), before, "before the crash"):
            return []
    n = case["blobs"]
    new = [{"run": 7, "i": i, "p": "x" * 30} for i in range(n * 2)]
    code, log = crashing(root, case, 7, n, T + 60, case["crash"])
    if case["crash"] is None:
        if not ctx.expect(code == 0, lambda: f"the batch failed without a crash: {log}"):
            return []
        ctx.equal(read(root, case), new, "after an undisturbed batch")
        ctx.state([case, "none"])
        return log
    if not ctx.expect(code in (77, 0), lambda: f"the batch failed before its crash point: {log}"):
        return
    ctx.step()
    got = read(root, case)
    seen = "new" if same(got, new) else "old" if same(got, before) else "other"
    if not ctx.expect(seen != "other", lambda: f"after the crash a read returns {got}; previous frame {before}, new frame {new}"):
        return
    ctx.state([case, seen])
    ctx.count("reads_seeing_" + seen)
    if case.get("crash2"):
        code, log = crashing(root, case, 8, n, T + 120, case["crash2"])
        newer = [dict(r, run=8) for r in new]
        again = read(root, case)
        ctx.expect(same(again, newer) or same(again, got), lambda: f"after two crashes a read returns {again}")
        ctx.step()
    with env.at(T + 180):
        third = batch(root, case, 9, max(n, 1), T + 180)
    ctx.step()
    ctx.equal(read(root, case), third, "after the rerun")
