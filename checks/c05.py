"""C05: every sequence of accepted/rejected appends and finalize calls, against the completion rule."""
import itertools

from mabel.data import BatchWriter

from mcheck import env
from mcheck.store import Store, decode, folder
from mcheck.util import seqs

PROPERTY, LEVEL = "C05", "model_checking"
TECHNIQUE = "exhaustive enumeration of append/finalize histories of the real BatchWriter against a completion-rule model"
RULE = (
    "every sequence over {accepted append, rejected append, over-limit append, finalize(), finalize(has_failure=True), finalize(has_failure=False)} up to the depth, for each format, "
    "always_complete, frame_id and partition setting; every interleaving of such sequences on two batches which share a frame, a second or a dataset; a state is the model state with the stored names"
)
ASSUMPTIONS = ["in-memory store that accepts every commit", "fixed virtual clock, so the frame's name is known"]
SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "p", "type": "VARCHAR"}]
T = 1_580_738_645  # 2020-02-03 14:04:05
PARTS = {
    "default": (["year_{yyyy}/month_{mm}/day_{dd}"], "year_2020/month_02/day_01/"),
    "none": (None, ""),
    "by": (["year_{yyyy}/month_{mm}/day_{dd}", "by_hour/hour={HH}"], "year_2020/month_02/day_01/by_hour/hour=00/"),
}
OPS = "axlFTN"
OPS2 = ["0a", "0x", "0F", "0T", "1a", "1x", "1F", "1T"]


def units(tier):
    deep = tier == "thorough"
    out = []
    for fmt, d in (("jsonl", 6 if deep else 5), ("parquet", 4 if deep else 3), ("zstd", 5 if deep else 4), ("text", 5 if deep else 3), ("flat", 4 if deep else 3)):
        for always in (False, True):
            for frame in (None, "bucket/data/as_at_20200101-000000", "bucket/data/job_7"):
                for parts in PARTS:
                    if fmt != "jsonl" and parts == "by":
                        continue
                    dd = d if (frame is None and parts == "default") or fmt != "jsonl" else d - 1
                    for first in OPS:
                        out.append([fmt, always, frame, parts, first, dd])
    for share in ("frame", "second", "other"):
        for first in OPS2:
            out.append(["pair", share, first, 6 if deep else 5])
    out.sort(key=lambda u: -u[-1])
    return out


def cases(unit):
    if unit[0] == "pair":
        for n in range(unit[3]):
            for tail in itertools.product(OPS2, repeat=n):
                yield ["pair", unit[1], [unit[2], *tail]]
        return
    fmt, always, frame, parts, first, depth = unit
    for tail in seqs(OPS, 0, depth - 1):
        yield [fmt, always, frame, parts, first + "".join(tail)]


def check(ctx, case):
    if case[0] == "pair":
        return pair(ctx, *case[1:])
    fmt, always, frame, parts, ops = case
    store = Store()
    env.clock_fixed(T * env.NS)
    kw = {}
    if frame:
        kw["frame_id"] = frame
    w = BatchWriter(
        dataset="bucket/data", format=fmt, date="2020-02-01", partitions=PARTS[parts][0], inner_writer=store.Writer, schema=SCHEMA, blob_size=60,
        always_complete=always, **kw,
    )
    home = frame or "bucket/data/" + PARTS[parts][1] + "as_at_20200203-140405"
    accepted, failed, pending = 0, False, 0
    for k, op in enumerate(ops):
        before = len(store.log)
        if op in "axl":
            rec = {"i": k, "p": "x" * (70 if op == "l" else 1)}
            if op == "x":
                rec["i"] = "not a number"
            try:
                w.append(rec)
                ok = True
            except Exception:
                ok = False
            if not ctx.expect(ok == (op != "x"), lambda: f"append {rec} accepted={ok}"):
                return
            accepted += ok
            new = store.log[before:]
            ctx.expect(not [n for n, d in new if not is_data(n)], lambda: f"append stored {[n for n, d in new]}")
        else:
            if op == "F":
                res = w.finalize()
            else:
                res = w.finalize(has_failure=(op == "T"))
            failed = failed or op == "T"
            complete = not failed and (accepted > 0 or always)
            new = [n for n, d in store.log[before:]]
            marks = [n for n in new if not is_data(n)]
            if complete:
                ctx.expect(marks == [home + "/frame.complete"] and new[-1:] == marks, lambda: f"finalize stored {new}, expected the marker of {home} last")
                ctx.expect(res != -1, "finalize returned -1 although the batch was marked complete")
                ctx.expect(store.log[-1][1] == b"", "the marker is not empty")
            else:
                ctx.expect(not marks, lambda: f"finalize stored {marks} (records {accepted}, failure seen {failed}, always_complete {always})")
                ctx.expect(res == -1, lambda: f"finalize returned {res!r} for a batch that is not complete")
            stored = sum(len(decode(n, d)) for n, d in store.data_blobs())
            ctx.expect(stored == accepted, lambda: f"{stored} records stored after finalize, {accepted} accepted")
        ctx.step()
        ctx.expect(all(folder(n) == home for n, d in store.log), lambda: f"blobs {[n for n, d in store.log]} outside the frame {home}")
        if ctx.failed_case:
            return
    ctx.state([fmt, always, frame, parts, accepted, failed, len(store.log), len(store.markers())])


def is_data(name):
    return name.endswith((".jsonl", ".parquet", ".zstd", ".txt"))


def pair(ctx, share, ops):
    """two batches at a time: parts of one job (frame_id), made within a second, or of two datasets"""
    store = Store()
    env.clock_fixed(T * env.NS)
    common = {"format": "jsonl", "inner_writer": store.Writer, "schema": SCHEMA, "blob_size": 60, "date": "2020-02-01"}
    writers, homes = [], []
    for i in (0, 1):
        if share == "frame":
            writers.append(BatchWriter(dataset="bucket/data", frame_id="bucket/data/as_at_20200101-000000", **common))
            homes.append("bucket/data/as_at_20200101-000000")
        else:
            d = "bucket/data" if share == "second" else f"bucket/data{i}"
            writers.append(BatchWriter(dataset=d, **common))
            homes.append(f"{d}/year_2020/month_02/day_01/as_at_20200203-140405")
    accepted, failed = [[], []], [False, False]
    for k, (who, op) in enumerate(ops):
        i = int(who)
        before = len(store.log)
        if op in "ax":
            try:
                writers[i].append({"i": k if op == "a" else "no number", "p": "x" * 9})
                ok = True
            except Exception:
                ok = False
            if not ctx.expect(ok == (op == "a"), lambda: f"append accepted={ok}"):
                return
            accepted[i] += [k] if ok else []
            ctx.expect(not [n for n, d in store.log[before:] if not is_data(n)], "append stored a marker")
        else:
            failed[i] = failed[i] or op == "T"
            res = writers[i].finalize(has_failure=op == "T")
            complete = bool(accepted[i]) and not failed[i]
            marks = [n for n, d in store.log[before:] if not is_data(n)]
            ctx.expect(marks == [homes[i] + "/frame.complete"] * complete and (res != -1) == complete, lambda: f"finalize of batch {i} gave {res} and stored {marks}; it has {len(accepted[i])} records, failure seen: {failed[i]}")
            stored = [r["i"] for n, d in store.log if is_data(n) and folder(n) == homes[i] for r in decode(n, d)]
            ctx.expect([x for x in stored if x in accepted[i]] == accepted[i], lambda: f"after finalize of batch {i} its folder holds {stored}, accepted were {accepted[i]}")
        ctx.step()
        if ctx.failed_case:
            return
    ctx.state([share, accepted, failed, len(store.log)])
