"""C13: every blob layout, every stop, every second stop, cursor forms, filters and growth in between, on the real Reader."""
import datetime
import itertools

import orjson
from mabel.data import Reader
from mabel.errors import DataNotFoundError

from mcheck.store import Store, lines, zst

PROPERTY, LEVEL = "C13", "model_checking"
TECHNIQUE = "exhaustive enumeration of blob layouts, stop/resume points, cursor forms and blob arrivals on the real Reader, compared with the uninterrupted read"
RULE = (
    "every vector of blob sizes up to the bound (and up to 200 one-record blobs, blobs of up to 10300 records), every pair of stops and the stop after every record, cursor as dictionary, JSON text and object, filters as text and DNF, select, "
    "formats, and blobs added (with names after all others) before each resume; a state is (layout, stops, records)"
)
ASSUMPTIONS = ["in-memory store", "a read stopped before its first record has no cursor (None) and resumes from the start"]
OPTIONS = {
    "plain": {},
    "text": {"filters": "n <> 2 AND n <> 5"},
    "dnf": {"filters": [("n", "!in", [1, 4, 5])]},
    "none": {"filters": "n > 99"},
    "select": {"select": "n, UPPER(name) AS u", "filters": ("n", ">=", 2)},
    "range": {"start_date": "2020-02-02", "end_date": "2020-02-04"},
}


def units(tier):
    deep = tier == "thorough"
    out = []
    for opt in OPTIONS:
        for n in range(1, 5 if deep or opt in ("plain", "text") else 4):
            for s0 in range(4 if deep else 3):
                out.append(["sizes", opt, n, s0, 4 if deep else 3])
        out.append(["many", opt, deep])
        if opt != "range":
            for names in ("num", "days", "alike"):
                out.append(["names", opt, names])
    for first in range(3):
        out.append(["long", first])
    for fmt in ("jsonl", "zstd", "parquet"):
        out.append(["records", fmt])
    for fmt in ("zstd", "parquet", "csv", "text"):
        out.append(["format", fmt, deep])
    return out


def stops(total):
    yield []
    for a in range(total + 2):
        yield [a]
        for b in range(total + 2 - a):
            yield [a, b]
    yield [1] * (total + 1)
    yield [2] * (total // 2 + 1)


def cases(unit):
    kind, opt = unit[:2]
    if kind == "sizes":
        _, _, n, s0, width = unit
        for rest in itertools.product(range(width), repeat=n - 1):
            sizes = [s0, *rest]
            total = sum(sizes)
            for grow in ([], [2], [1, 0, 1]) if opt in ("plain", "text") and (n < 4 or width > 3) else ([], [2]):
                for form in ("dict", "json") if grow else ("dict", "json", "object"):
                    for st in stops(total):
                        if grow and not st:
                            continue
                        if form == "object" and len(st) == 2 and st[1] > 1:
                            continue
                        yield {"opt": opt, "sizes": sizes, "stops": st, "form": form, "grow": grow, "fmt": "jsonl"}
    elif kind == "long":
        for n in (31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200)[opt::3]:
            for a in sorted({0, 1, 8, 30, 31, 32, 33, 62, 63, 64, 65, 66, n // 2, n - 2, n - 1, n}):
                if a <= n:
                    for grow in ([], [1]):
                        yield {"opt": "plain", "sizes": [1] * n, "stops": [a, 1, 7], "form": "json", "grow": grow, "fmt": "jsonl", "names": "num" if n % 2 else "days"}
    elif kind == "records":
        # stops deep inside long blobs
        for size in (300, 1100, 4100, 10300):
            for a in sorted({1, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001, size - 1, size, size + 1}):
                if a <= size + 1:
                    for o in ("plain", "text"):
                        yield {"opt": o, "sizes": [2, size, 3], "stops": [a, 1, 50], "form": ("json", "dict")[a % 2], "grow": [], "fmt": opt}
    elif kind == "names":
        for sizes in itertools.product(range(3), repeat=3):
            for st in stops(sum(sizes)):
                for grow in ([], [2]):
                    for form in ("json",) if grow else ("json", "object"):
                        yield {"opt": opt, "sizes": list(sizes), "stops": st, "form": form, "grow": grow, "fmt": "jsonl", "names": unit[2]}
    elif kind == "many":
        for n in (7, 8, 9, 15, 16, 17):
            for a in range(n + 1):
                for grow in ([], [1], [1] * 9):
                    for form in ("dict", "json"):
                        yield {"opt": opt, "sizes": [1] * n, "stops": [a, 1, 3] if unit[2] else [a, 1], "form": form, "grow": grow, "fmt": "jsonl"}
                        yield {"opt": opt, "sizes": [0] * (n - 1) + [3], "stops": [min(a, 4), 1], "form": form, "grow": grow, "fmt": "jsonl"}
    else:
        for sizes in itertools.product(range(3), repeat=3):
            for st in stops(sum(sizes)):
                for grow in ([], [2]):
                    yield {"opt": "plain" if opt == "text" else "text", "sizes": list(sizes), "stops": st, "form": "json", "grow": grow, "fmt": opt}


def blob(fmt, records):
    if fmt == "zstd":
        return zst(lines(records))
    if fmt == "csv":
        return ("n,name\n" + "".join(f"{r['n']},{r['name']}\n" for r in records)).encode()
    if fmt == "parquet":
        import io
        import pyarrow
        import pyarrow.parquet

        b = io.BytesIO()
        pyarrow.parquet.write_table(pyarrow.table({"n": pyarrow.array([r["n"] for r in records], pyarrow.int64()), "name": pyarrow.array([r["name"] for r in records], pyarrow.string())}), b)
        return b.getvalue()
    return lines(records)


EXT = {"text": "jsonl"}
DAYS = ["02", "03", "03", "04"]


def place(names, day, i):
    if names == "num":
        return f"bucket/data/year_2020/month_02/day_03/part-{i:04d}"
    if names == "alike":  # each begins with the one before
        return "bucket/data/year_2020/month_02/day_03/a" + "a" * i
    if names == "days":  # the same name in every folder
        d = datetime.date(2020, 2, 3) + datetime.timedelta(days=i)
        return f"bucket/data/year_{d:%Y}/month_{d:%m}/day_{d:%d}/data"
    return f"bucket/data/year_2020/month_02/day_{day}/{chr(97 + i)}"


def check(ctx, case):
    store = Store()
    counter = itertools.count()

    def put(i, size):
        day = DAYS[min(i, 3)] if case["opt"] == "range" else "03"
        recs = []
        for _ in range(size):
            n = next(counter)
            recs.append({"n": n, "name": f"v{n}"})
        fmt = case["fmt"]
        store.put(place(case.get("names"), day, i) + f".{EXT.get(fmt, fmt)}", blob(fmt, recs))

    for i, s in enumerate(case["sizes"]):
        put(i, s)
    kw = dict(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03")
    kw.update(OPTIONS[case["opt"]])
    grow_all = case["grow"]
    if case.get("names") == "days":
        kw["end_date"] = datetime.date(2020, 2, 2) + datetime.timedelta(days=len(case["sizes"]) + len(grow_all))
    grow = list(case["grow"])
    cursor, got, trail = None, [], []
    for k in case["stops"] + [None]:
        rd = Reader(cursor=cursor, **kw)
        it = iter(rd)
        part = list(itertools.islice(it, k)) if k is not None else list(it)
        got += part
        ctx.step(len(part) + 1)
        if k is None:
            break
        c = rd.cursor
        if c is not None and k:
            if case["form"] == "json":
                cursor = str(c)
                orjson.loads(cursor)
            elif case["form"] == "dict":
                cursor = dict(c.get()) if hasattr(c, "get") else c
            else:
                cursor = c
        trail.append(str(cursor))
        if case["form"] != "object":
            # (None and the cursor given stay what they were when nothing was read)
            rd = it = c = None
        if grow:
            put(len(store.blobs), grow.pop(0))
    while grow:  # what would have come later
        grow.pop()
    want = list(iter(Reader(**kw)))
    ctx.expect(
        [dict(r) for r in got] == [dict(r) for r in want],
        lambda: f"blobs of {case['sizes']} records (added {case['grow']}), stops {case['stops']}: read {[r.get('n') for r in got]}, an uninterrupted read gives {[r.get('n') for r in want]}; cursors {trail}",
    )
    base = [n for n in range(sum(case["sizes"]) + sum(case["grow"][: len(case["stops"])]))]
    if case["opt"] == "plain":
        ctx.expect([int(r["n"]) for r in want] == base, lambda: f"an uninterrupted read gives {[r['n'] for r in want]}")
    ctx.state([case["sizes"], trail, [r.get("n") for r in got]])
