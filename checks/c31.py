"""C31: every history of writes for dates near calendar edges by the real writers, read back over every range by the real Reader."""
import datetime
import gc
import itertools
import os
import shutil
import tempfile
import time

from mcheck import env, streams  # noqa: installs the scheduler first (threads stay inert)
from mabel.adapters.disk import DiskReader, DiskWriter
from mabel.data import BatchWriter, Reader, StreamWriter, Writer
from mabel.errors import DataNotFoundError

from mcheck.store import Store

PROPERTY, LEVEL = "C31", "model_checking"
TECHNIQUE = "exhaustive enumeration of write histories (writer class, date, form, dataset, time of the write) for every partition template on the real writers, read back by the real Reader over every range, against a model keyed by date"
RULE = (
    "for every partition template (daily in several spellings, split, hourly, with repeated parts, monthly, in the dataset name, legacy, none): every single write by every writer class, in every form of the date, with the clock before and after midnight, in local time zones east and west of UTC, in every format, every writer given two records from a second to a year apart, batches for one date a second to a year apart, and every history of up to 2 "
    "(thorough: 3) writes by Writer, BatchWriter (completed or failed) and StreamWriter for dates of a window around month, leap-day and year ends or for no date, to two datasets with names that begin alike; "
    "after which every range of the window is read from every dataset; pairs of hostile dataset names written in every format and order; in memory and (single writes) on disk; a state is what the ranges return"
)
ASSUMPTIONS = [
    "the writes of a history happen in different seconds (virtual clock), every batch writer is finalized",
    "ranges of hourly folders are given with times",
    "the legacy {datefolders} dataset names are given to Writer and StreamWriter and read with the equivalent partitions",
]
D, H = datetime.datetime, datetime.timedelta(hours=1)
TEMPLATES = {  # writer dataset suffix, writer partitions, reader suffix, reader partitions, what identifies a folder
    "default": ("", "default", "", "default", "%Y%m%d"),
    "slash": ("", ["{yyyy}/{mm}/{dd}"], "", ["{yyyy}/{mm}/{dd}"], "%Y%m%d"),
    "split": ("", ["{yyyy}", "{mm}", "{dd}"], "", ["{yyyy}", "{mm}", "{dd}"], "%Y%m%d"),
    "dashes": ("", ["{yyyy}-{mm}-{dd}"], "", ["{yyyy}-{mm}-{dd}"], "%Y%m%d"),
    "dmy": ("", ["d{dd}{mm}{yyyy}"], "", ["d{dd}{mm}{yyyy}"], "%Y%m%d"),
    "hour": ("", ["year_{yyyy}/month_{mm}/day_{dd}", "hour_{HH}"], "", ["year_{yyyy}/month_{mm}/day_{dd}", "hour_{HH}"], "%Y%m%d%H"),
    "repeat": ("", ["{yyyy}{mm}/{yyyy}-{mm}-{dd}", "{HH}/at_{dd}{HH}"], "", ["{yyyy}{mm}/{yyyy}-{mm}-{dd}", "{HH}/at_{dd}{HH}"], "%Y%m%d%H"),
    "month": ("", ["{yyyy}_{mm}"], "", ["{yyyy}_{mm}"], "%Y%m"),
    "year": ("", ["{yyyy}"], "", ["{yyyy}"], "%Y"),
    "inset": ("/{yyyy}/{mm}/{dd}", None, "/{yyyy}/{mm}/{dd}", None, "%Y%m%d"),
    "raw": ("", None, "", None, ""),
    "legacy": ("/{datefolders}", "default", "", "default", "%Y%m%d"),
    "legacy-short": ("/{datefolders_short}", "default", "", ["{yyyy}/{mm}/{dd}"], "%Y%m%d"),
}
WINDOWS = [D(2019, 12, 31), D(2020, 2, 28), D(2021, 2, 28), D(2020, 10, 31)]
DATASETS = ["bucket/a", "bucket/ab"]
# pairs of dataset names that begin alike, or look like something else
NAMES = [
    ("bucket/v1", "bucket/v1.2"), ("bucket/Data Set", "bucket/Data"), ("bucket/é", "bucket/e"), ("bucket/UPPER", "bucket/upper"), ("bucket/a-b_c", "bucket/a-b"), ("bucket/deep/er/a.b.c", "bucket/deep/er/a.b"),
    ("bucket/2020", "bucket/202"), ("bucket/jsonl", "bucket/a.jsonl"), ("bucket/x.parquet", "bucket/x.zstd"), ("b.u.c/a", "b.u/a"), ("bucket/a=b", "bucket/a"), ("bucket/a%2F", "bucket/a%"), ("bucket/year_2020", "bucket/year_2020/month_02"), ("bucket/" + "n" * 200, "bucket/" + "n" * 199),
    ("bucket/" + "/".join("abcdefghijklmnopqrstuvwxyz"), "bucket/a/b/c"), ("bucket/x.complete", "bucket/x.ignore"), ("bucket/frame.complete", "bucket/frame.ignore"),
]
FORMS = ["text", "minutes", "seconds", "zulu", "date", "datetime"]
ZONES = ["VRF+10:30", "UTC0", "VRF-13:30"]  # POSIX: hours west of UTC
CLASSES = {"W": Writer, "B": BatchWriter, "X": BatchWriter, "S": StreamWriter}


def units(tier):
    deep = tier == "thorough"
    out = []
    for t in TEMPLATES:
        for w in range(len(WINDOWS)):
            out.append(["one", t, w, "memory"])
            if w == 1:
                out.append(["one", t, w, "disk"])
        if t in ("default", "hour", "inset", "month"):
            for place in ("memory", "disk"):
                out.append(["names", t, 1, place])
            for w in range(len(WINDOWS)) if t == "default" else (1,):
                out.append(["between", t, w, "memory"])
            if t == "default":
                out.append(["between", t, 1, "disk"])
        for w in () if t == "repeat" else range(len(WINDOWS)) if deep else (0, 1) if t == "default" else (0,) if t in ("hour", "month", "raw", "split") else (1,):
            for k in "WBXS":
                out.append(["history", t, w, k, 3 if deep and w < 2 else 2])
    return out


def cases(unit):
    kind, t, w = unit[:3]
    legacy = t.startswith("legacy")
    if kind == "one":
        disk = unit[3] == "disk"
        for k in "WS" if legacy else "WBS":
            for fmt in ("jsonl",) if disk else ("jsonl", "zstd", "parquet"):
                for start in (-3600 * 24 + 1, -2, -1, 0, 3600 * 12):
                    for zone in ZONES if fmt == "jsonl" and not disk else ZONES[:1]:
                        yield {"t": t, "w": w, "start": start, "fmt": fmt, "disk": disk, "ops": [[k, None, "", 0]], "zone": zone}
                # a writer which is given records long after one another
                for start in (-2, 3600 * 9 - 2, 3600 * 12 - 1):
                    for gap in (3600,) if disk or fmt != "jsonl" else (1, 3599, 3600, 3600 * 24 - 2, 3600 * 24, 3600 * 24 * 7, 3600 * 24 * 31, 3600 * 24 * 365):
                        yield {"t": t, "w": w, "start": start, "fmt": fmt, "disk": disk, "gap": gap, "ops": [[k, None, "", 0]]}
                for d in range(4):
                    for f in FORMS:
                        yield {"t": t, "w": w, "start": -1, "fmt": fmt, "disk": disk, "ops": [[k, d, f, 0]]}
    elif kind == "names":
        f = "seconds" if t == "hour" else "text"
        for i in range(len(NAMES)):
            for fmt in ("jsonl", "zstd", "parquet"):
                for a, b in itertools.product("WBS", repeat=2):
                    if unit[3] == "disk" and (a != b or i == 13):
                        continue
                    for first in (0, 1):
                        yield {"t": t, "w": w, "start": -2, "fmt": fmt, "disk": unit[3] == "disk", "names": i, "ops": [[a, 1, f, first], [b, 1, f, 1 - first]]}
    elif kind == "between":
        # batches for one date, finished long after one another; the later one is the one to read
        f = "seconds" if t == "hour" else "text"
        for start in (-3600 * 24, -3600 * 15, -3600 * 11 - 1, -3600 * 2, -1, 3600 * 3):
            for gap in (1, 9, 10, 50, 59, 60, 600, 3599, 3600, 3600 * 7, 3600 * 9, 3600 * 10, 3600 * 11, 3600 * 12, 3600 * 13, 3600 * 24 - 3, 3600 * 24, 3600 * 24 * 9, 3600 * 24 * 31, 3600 * 24 * 365):
                for ops in (["B", "B"], ["B", "X", "B"], ["W", "B", "B"], ["S", "B", "X"]):
                    yield {"t": t, "w": w, "start": start, "fmt": "jsonl", "disk": unit[3] == "disk", "between": gap, "ops": [[k, 1, f, 0] for k in ops]}
    else:
        events = [[k, d, "text" if d is None or t not in ("hour", "repeat") else "seconds", ds] for k in ("WS" if legacy else "WBXS") for d in (None, 0, 1) for ds in (0, 1)]
        for n in range(2, unit[4] + 1):
            for ops in itertools.product(events, repeat=n):
                if ops[0][0] == unit[3]:
                    if n == 3 and (ops[0][3] or any(o[2] != "text" for o in ops)):
                        continue
                    yield {"t": t, "w": w, "start": -2, "fmt": "jsonl", "disk": False, "ops": [list(o) for o in ops]}


def day(window, d):
    """the dates of a window: the day before an edge, the edge, later hours"""
    return [window + 20 * H, window + 24 * H, window + 47 * H + datetime.timedelta(minutes=59, seconds=59), window + 72 * H + datetime.timedelta(minutes=1)][d]


def form(when, f):
    if f == "date":
        return when.date()
    if f == "datetime":
        return when
    return when.strftime({"text": "%Y-%m-%d", "minutes": "%Y-%m-%d %H:%M", "seconds": "%Y-%m-%dT%H:%M:%S", "zulu": "%Y-%m-%dT%H:%M:%SZ"}[f])


def meant(when, f):
    if f in ("text", "date"):
        return D(when.year, when.month, when.day)
    return when.replace(second=0) if f == "minutes" else when


def check(ctx, case):
    home = None
    if case["disk"]:
        home = tempfile.mkdtemp(dir=env.SCRATCH)
    try:
        with env.zone(case.get("zone", ZONES[0])):
            run(ctx, case, home)
    finally:
        env.clock_real()
        gc.collect()
        if home:
            shutil.rmtree(home, ignore_errors=True)


def now():
    return D(1970, 1, 1) + datetime.timedelta(seconds=env.clock_get() // env.NS)


def run(ctx, case, home):
    wsuffix, wparts, rsuffix, rparts, key = TEMPLATES[case["t"]]
    store = Store()
    writer, reader = (DiskWriter, DiskReader) if home else (store.Writer, store.Reader)
    names = [(home + "/" + d if home else d) for d in (DATASETS if case.get("names") is None else NAMES[case["names"]])]
    window = WINDOWS[case["w"]]
    env.clock_fixed(int((window + 24 * H - D(1970, 1, 1)).total_seconds() + case["start"]) * env.NS)
    tick = lambda: env.clock_set(env.clock_get() + env.NS)
    loose, frames, times = {}, {}, []
    for n, (k, d, f, ds) in enumerate(case["ops"]):
        if n and case.get("between"):
            env.clock_set(env.clock_get() + case["between"] * env.NS)
        kw = {} if d is None else {"date": form(day(window, d), f)}
        if wparts != "default":
            kw["partitions"] = wparts
        if case["fmt"] == "parquet":
            kw["schema"] = [{"name": "v", "type": "INTEGER"}]
        else:
            kw["schema"] = False
        when = now()
        w = CLASSES[k](dataset=names[ds] + wsuffix, format=case["fmt"], inner_writer=writer, **kw)
        recs = []
        for i in range(2):
            if i and case.get("gap"):
                env.clock_set(env.clock_get() + case["gap"] * env.NS)
            tick()
            if k == "S":
                when = now()
            v = n * 10 + i
            w.append({"v": v})
            if d is not None:
                when = meant(day(window, d), f)
            if k in "WS":
                loose.setdefault((ds, when.strftime(key)), []).append(v)
            recs.append(v)
            times.append(when)
        tick()
        w.finalize(**({"has_failure": True} if k == "X" else {}))
        if k in "BX":
            frames.setdefault((ds, when.strftime(key)), []).append((recs, k == "B"))
        del w
        ctx.step()
    shown = []
    hourly = "%H" in key
    bounds = [now()] + [day(window, d) for d in (range(4) if len(case["ops"]) == 1 else (0, 1, 3))] + ([window - 30 * H] if len(case["ops"]) == 1 else [])
    if case.get("gap"):
        bounds = [now(), *times, times[0] - H, times[0] + H, times[-1] - H, times[-1] - 24 * H]
    if case.get("between"):
        bounds = [day(window, 0), day(window, 1), day(window, 3)]
    bounds = sorted({b if hourly else D(b.year, b.month, b.day) for b in bounds})
    for ds in range(2):
        if not any(o[3] == ds for o in case["ops"]) and ds:
            ranges = [(bounds[0], bounds[-1])]
        else:
            ranges = [(a, b) for a in bounds for b in bounds if a <= b and (case.get("gap", 0) < 90000 or b - a < 25 * H)]
        for r in ranges + [None]:
            kw = {}
            a, b = r or (now(), now())
            if r:
                kw = {"start_date": a if hourly else a.strftime("%Y-%m-%d"), "end_date": b}
            keys, x = set(), a.replace(minute=0, second=0)
            while x <= b:
                keys.add(x.strftime(key))
                x += H
            want = []
            for p in sorted(keys):
                if (ds, p) in frames:
                    done = [recs for recs, ok in frames[ds, p] if ok]
                    want += done[-1] if done else []
                else:
                    want += loose.get((ds, p), [])
            if rparts != "default":
                kw["partitions"] = rparts
            try:
                got = [x["v"] for x in Reader(dataset=names[ds] + rsuffix, inner_reader=reader, **kw)]
            except DataNotFoundError:
                got = []
            ctx.step()
            if not ctx.expect(sorted(got) == sorted(want), lambda: f"a read of {names[ds]} from {a} to {b}{'' if r else ' (no range given)'} (local time zone {time.tzname[0]}{time.timezone // -60:+d} min) returns {got}, written for those dates was {want}"):
                return
            shown.append(len(got))
    ctx.state([case["t"], shown, [o[0] for o in case["ops"]]])
