"""C11: every small layout of frames, markers, by_ groupings and loose blobs, read by the real Reader, against the frame rules."""
import datetime
import itertools
import os
import shutil

from mabel.adapters.disk import DiskReader
from mabel.data import Reader

from mcheck import env
from mcheck.store import Store, lines

PROPERTY, LEVEL = "C11", "model_checking"
TECHNIQUE = "exhaustive enumeration of folder layouts (frames x markers x groupings x names x listing order) read by the real Reader, against a model of the frame rules"
RULE = (
    "date folders with up to 3 frames in each of 7 states, by_ groupings with up to 2 groupings, 2 value folders and 2 frames each, loose blobs, up to 12 frames x 24 value folders x 3 groupings, every one of up to 257 frames, value folders, blobs and days, names that begin alike, dataset folders named like groupings, frames or dead letters, sibling datasets, BACKOUT blobs, every partition_filter; "
    "in memory and on disk; a state is the list of blobs read"
)
ASSUMPTIONS = ["frame names order like their times (as_at_%Y%m%d-%H%M%S)", "data of a date folder lies either in by_ groupings or directly in it, not both"]
# state of a frame: number of data blobs (None: no such frame), complete, ignore
STATES = [None, (1, 0, 0), (1, 1, 0), (1, 1, 1), (1, 0, 1), (0, 1, 0), (2, 1, 0), (0, 0, 1)]
SHORT = [None, (1, 0, 0), (1, 1, 0), (1, 1, 1), (2, 1, 0)]
NAMES = {
    "times": ["as_at_20200203-010203", "as_at_20200203-010204", "as_at_20200203-235959"],
    "alike": ["as_at_20200203-01", "as_at_20200203-0102", "as_at_20200203-010203"],
    "years": ["as_at_20191231-235959", "as_at_20200203-000000", "as_at_20210101-000000"],
}
LOTS = [*range(1, 14), 15, 16, 17, 20, 21, 24, 25, 30, 31, 32, 33, 49, 50, 51, 60, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]
DAY = "year_2020/month_02/day_03"
BYS = [("by_hour", "hour", ["00", "01"]), ("by_h", "h", ["0", "00"]), ("by_hourly", "hourly", ["1", "11"]), ("by_a", "a", ["x", "xy"]), ("by_Unit", "Unit", ["Ab", "a B"])]
# partition_filter candidates: (field, value)
# datasets with folders that look like groupings, frames, markers or dead letters
BASES = ["bucket/by_team/data", "bucket/by_hour/data", "bucket/as_at_20990101-000000/data", "bucket/as_at/data", "bucket/BACKOUTS/data", "bucket/by_/data", "bucket/year_2020/data", "bucket/frame.ignored/data", "bucket/data/by_x", "bucket/data/as_at_x", "bucket/frame.complete/data", "bucket/frame.ignore"]
FILTERS = {
    ("by_hour", "by_h"): [None, ("hour", "00"), ("hour", "01"), ("hour", "0"), ("h", "0"), ("h", "00"), ("none", "0")],
    ("by_hour", "by_hourly"): [None, ("hour", "00"), ("hour", "02"), ("hourly", "1"), ("hourly", "11"), ("hourl", "1")],
    ("by_a", "by_h"): [None, ("a", "x"), ("a", "xy"), ("a", "y"), ("h", "0")],
    ("by_Unit", "by_a"): [None, ("Unit", "Ab"), ("Unit", "a B"), ("Unit", "ab"), ("a", "x"), ("unit", "Ab"), ("a", "X")],
}


def units(tier):
    deep = tier == "thorough"
    out = []
    for where in ("mem", "disk"):
        for names in NAMES:
            for s in range(len(STATES)):
                out.append(["flat", where, names, s])
        for b in range(len(BYS)):
            for s in range(len(SHORT)):
                out.append(["by", where, b, s, deep])
        for pair in range(len(FILTERS)):
            for s in range(len(SHORT)):
                if deep or where == "mem" or pair == 0:
                    out.append(["two", where, pair, s, deep])
        for s in range(len(STATES)):
            out.append(["days", where, s])
        for m in range(1, 4 if where == "mem" else 2):
            out.append(["many", where, m])
        for b in range(len(BASES)):
            out.append(["base", where, b])
        for dim in ("frames", "values", "blobs", "loose", "days"):
            out.append(["lots", where, dim])
    return out


def cases(unit):
    kind, where = unit[:2]
    if kind == "flat":
        _, _, names, s0 = unit
        for rest in itertools.product(range(len(STATES)), repeat=2):
            for loose in (0, 1):
                for extra in ("", "b") if where == "mem" else ("",):
                    yield {"kind": kind, "where": where, "names": names, "s": [s0, *rest], "loose": loose, "extra": extra}
    elif kind == "by":
        _, _, b, s0, deep = unit
        for s in itertools.product(range(len(SHORT)), repeat=3):
            if not deep and where == "disk" and s[1] == s[2]:
                continue
            for loose in range(4):
                yield {"kind": kind, "where": where, "by": b, "s": [[s0, s[0]], [s[1], s[2]]], "loose": loose}
    elif kind == "two":
        _, _, pair, s0, deep = unit
        for s in itertools.product(range(len(SHORT)), repeat=3 if deep else 2):
            for f in range(len(list(FILTERS.values())[pair])):
                for loose in (0, 1):
                    yield {"kind": kind, "where": where, "pair": pair, "s": [s0, *s], "filter": f, "loose": loose}
    elif kind == "lots":
        for n in LOTS if where == "mem" else LOTS[::3]:
            for good in sorted({0, n // 2, n - 2, n - 1}) if unit[2] in ("frames", "values") else (0,):
                if good >= 0:
                    yield {"kind": kind, "where": where, "dim": unit[2], "n": n, "good": good}
    elif kind == "many":
        # more frames, groupings and value folders than can be told apart by looking at the ends of a list
        n = unit[2]
        for frames in (4, 7, 12):
            for good in range(-1, frames) if where == "mem" else (frames // 2,):
                yield {"kind": kind, "where": where, "frames": frames, "good": good, "bys": n, "values": (1, 5, 24)[(good + frames) % 3]}
    elif kind == "base":
        for s in itertools.product(range(len(SHORT)), repeat=2):
            for by in (0, 1):
                for loose in (0, 1):
                    yield {"kind": kind, "where": where, "base": unit[2], "s": list(s), "by": by, "loose": loose}
    else:
        for s in itertools.product(range(len(STATES)), repeat=3):
            if where == "mem" or s[2] in (0, 2):
                yield {"kind": kind, "where": where, "s": [unit[2], *s]}


class Layout:
    """builds blobs and, from the structure, what the rules say is read"""

    def __init__(self):
        self.blobs = {}
        self.n = 0

    def data(self, path, name):
        self.n += 1
        full = f"{path}/{name}.jsonl"
        self.blobs[full] = lines([{"n": self.n}])
        return (full, self.n)

    def frames(self, path, names, states, loose=0, order=0):
        """returns the data read from this folder"""
        best, any_frame, out_loose = [], False, []
        for name, st in zip(names, states):
            if st is None:
                continue
            k, complete, ignore = st
            here = [self.data(f"{path}/{name}", f"{os.path.basename(path)[:2]}{i}") for i in range(k)]
            if complete:
                self.blobs[f"{path}/{name}/frame.complete"] = b""
            if ignore:
                self.blobs[f"{path}/{name}/frame.ignore"] = b"{}"
            any_frame = any_frame or k or complete or ignore
            if complete and not ignore:
                best = here
        if loose:
            out_loose = [self.data(path, "loose0"), self.data(path, "zloose")]
        return best if any_frame else out_loose


def lots(lay, dim, n, good, base, day):
    """one dimension of the layout at size n"""
    if dim == "frames":
        return lay.frames(day, [f"as_at_20200203-{i // 60:02d}{i % 60:02d}00" for i in range(n)], [STATES[2] if i <= good else STATES[(1, 3, 7)[i % 3]] for i in range(n)])
    if dim == "values":
        return [x for i in range(n) for x in lay.frames(f"{day}/by_h/h={i:04d}", NAMES["times"], [STATES[2], STATES[2] if i == good else STATES[1], STATES[3]])]
    if dim == "blobs":
        return lay.frames(day, NAMES["times"], [(1, 1, 0), (n, 1, 0), (n, 0, 0)])
    if dim == "loose":
        return [lay.data(day, f"part-{i:05d}") for i in range(n)]
    days = [datetime.date(2020, 2, 3) + datetime.timedelta(days=i) for i in range(n)]
    return [x for d in days for x in lay.frames(f"{base}/year_{d:%Y}/month_{d:%m}/day_{d:%d}", NAMES["times"], [STATES[2], (1, 1, d.day % 2), None])]


def check(ctx, case):
    lay = Layout()
    base = "bucket/data" if case["kind"] != "base" else BASES[case["base"]]
    day = f"{base}/{DAY}"
    kw = {}
    # neighbours which must never matter
    other = Layout()
    other.n = 1000
    other.frames(f"bucket/data2/{DAY}", NAMES["times"], [STATES[2]] * 3)
    other.frames(f"bucket/data/{DAY[:-1]}4", NAMES["times"], [STATES[2]] * 3)
    if case.get("extra") == "b":
        other.frames(f"{day}/BACKOUT", NAMES["years"], [None, None, STATES[2]])
        other.data(f"{day}/BACKOUT", "b")
        other.blobs[f"{day}/notes.foo"] = b"{}\n"
    want = []
    if case["kind"] == "flat":
        want = lay.frames(day, NAMES[case["names"]], [STATES[s] for s in case["s"]], case["loose"])
    elif case["kind"] == "by":
        by, field, values = BYS[case["by"]]
        for v, states, loose in zip(values, case["s"], (case["loose"] & 1, case["loose"] & 2)):
            want += lay.frames(f"{day}/{by}/{field}={v}", NAMES["times"], [SHORT[s] for s in states], loose)
    elif case["kind"] == "many":
        # value folder j: frame (good + j) is the last good one; later ones are incomplete or ignored in turn
        fr = case["frames"]
        names = [f"as_at_20200203-{i:02d}{i:02d}00" for i in range(fr)]
        for g in range(case["bys"]):
            here = []
            for j in range(case["values"]):
                good = (case["good"] + j * (g + 1) + 1) % (fr + 1) - 1
                states = [STATES[2] if i <= good else STATES[(1, 3, 7)[i % 3]] for i in range(fr)]
                here += lay.frames(f"{day}/by_{'hmz'[g]}/{'hmz'[g]}={j:02d}", names, states)
            want = here  # the last grouping in name order
    elif case["kind"] == "lots":
        want = lots(lay, case["dim"], case["n"], case["good"], base, day)
        if case["dim"] == "days":
            kw = dict(start_date="2020-02-03", end_date=(datetime.date(2020, 2, 3) + datetime.timedelta(days=case["n"] - 1)).isoformat())
            other.blobs = {k: v for k, v in other.blobs.items() if "/data/" not in k}
    elif case["kind"] == "base":
        states = [SHORT[s] for s in case["s"]]
        if case["by"]:
            for v, st in (("00", states), ("01", states[::-1])):
                want += lay.frames(f"{day}/by_hour/hour={v}", NAMES["times"], st, case["loose"])
        else:
            want = lay.frames(day, NAMES["times"], states, case["loose"])
        other.frames(f"{base}2/{DAY}", NAMES["times"], [STATES[2]] * 3)
    elif case["kind"] == "two":
        pair, flt = list(FILTERS.items())[case["pair"]]
        f = flt[case["filter"]]
        if f:
            kw["partition_filter"] = (f[0], "==" if case["loose"] else "=", f[1])
        got = {}
        s = list(case["s"]) + [2, 1]
        for i, by in enumerate(pair):
            by, field, values = next(b for b in BYS if b[0] == by)
            for j, v in enumerate(values):
                st = [SHORT[s[2 * i]], SHORT[s[2 * i + 1]]] if j == 0 else [SHORT[s[2 * i + 1]], SHORT[s[2 * i]]]
                here = lay.frames(f"{day}/{by}/{field}={v}", NAMES["times"], st, case["loose"])
                present = case["loose"] or any(x is not None for x in st)
                if present:
                    got.setdefault((by, field), {})[v] = here
        if got:
            chosen = None
            if f:
                chosen = next((k for k in got if k[1] == f[0]), None)
            if chosen:
                want = got[chosen].get(f[1], [])
            else:
                want = [x for v in got[max(got)].values() for x in v]
    else:
        st = [STATES[s] for s in case["s"]]
        want = lay.frames(day, NAMES["times"], st[:2]) + lay.frames(f"{base}/year_2020/month_02/day_05", NAMES["times"], st[2:])
        kw["end_date"] = "2020-02-05"
        other.blobs = {k: v for k, v in other.blobs.items() if "day_04" not in k}
    want = [n for _, n in sorted(want)]
    blobs = dict(lay.blobs)
    blobs.update(other.blobs)
    args = dict(dataset=base, start_date="2020-02-03", end_date="2020-02-03", partitions=["year_{yyyy}/month_{mm}/day_{dd}"])
    args.update(kw)
    if case["where"] == "mem":
        store = Store()
        store.blobs = blobs
        got = read(dict(args, inner_reader=store.Reader))
        store.blobs = dict(reversed(list(blobs.items())))
        again = read(dict(args, inner_reader=store.Reader))
        ctx.expect(again == got, lambda: f"with another listing order the reader returns {again} instead of {got}")
        ctx.step(2)
    else:
        root = os.path.join(env.SCRATCH, f"c11-{os.getpid()}")
        try:
            for name, data in blobs.items():
                p = os.path.join(root, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)
            got = read(dict(args, dataset=f"{root}/{base}", inner_reader=DiskReader))
        finally:
            shutil.rmtree(root, ignore_errors=True)
        ctx.step()
    ctx.expect(got == (want or "nothing"), lambda: f"read {got}, the rules give {want or 'nothing'} of {sorted(lay.blobs)} {kw}")
    ctx.state([case["kind"], got, sorted(lay.blobs)])


def read(args):
    from mabel.errors import DataNotFoundError

    try:
        return [r["n"] for r in Reader(**args)]
    except DataNotFoundError:
        return "nothing"
