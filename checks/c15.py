"""C15: every truncation and every altered byte of a blob of every format among undamaged ones, and every fetch failure."""
import io
import itertools
import lzma
import zipfile

import orjson
from mabel.data import Reader

from mcheck.core import same
from mcheck.store import Store, lines, zst

PROPERTY, LEVEL = "C15", "model_checking"
TECHNIQUE = "exhaustive fault enumeration: every truncation point, every byte altered, every pair of damaged blobs and every fetch error, on the real Reader"
RULE = (
    "for every format: the damaged blob first, in the middle and last among undamaged blobs of mixed formats, cut at every byte, every byte replaced by several values, every pair of damaged blobs, every fetch failing with "
    "every exception type; plain, filtered, selected and persisted reads; a state is (format, records returned)"
)
ASSUMPTIONS = ["in-memory store; a fetch fails with an exception derived from Exception", "records are JSON objects"]
RECS = [{"n": 1, "s": "one"}, {"n": 22, "s": "two, \u00e9"}, {"n": 333, "s": "three{}"}, {"n": -4.5, "s": ""}]


def parquet(recs, **kw):
    import pyarrow
    import pyarrow.parquet

    b = io.BytesIO()
    pyarrow.parquet.write_table(pyarrow.table({"n": pyarrow.array([float(r["n"]) for r in recs]), "s": pyarrow.array([r["s"] for r in recs])}), b, **kw)
    return b.getvalue()


def zipped(recs):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("a.jsonl", lines(recs[:2]))
        z.writestr("b.jsonl", lines(recs[2:]))
    return b.getvalue()


def csv(recs):
    return ("n,s\n" + "".join('%s,"%s"\n' % (r["n"], r["s"]) for r in recs)).encode()


BLOBS = {
    "jsonl": lambda: lines(RECS),
    "zstd": lambda: zst(lines(RECS)),
    "lzma": lambda: lzma.compress(lines(RECS)),
    "parquet": lambda: parquet(RECS),
    "zip": lambda: zipped(RECS),
    "csv": lambda: csv(RECS),
    "json": lambda: orjson.dumps(RECS[0]),
    "xml": lambda: b"<a><n>1</n></a>",
    "lxml": lambda: b"<a><n>1</n></a>\n<a><n>2</n></a>",
}
BIG = {  # several frames / larger than the decoders' buffers
    "zstd": lambda: zst(lines(RECS * 3)) ,
    "lzma": lambda: lzma.compress(lines([dict(r, k=i) for i in range(60) for r in RECS])),
    "jsonl": lambda: lines([dict(r, k=i) for i in range(5) for r in RECS]),
    "parquet": lambda: parquet(RECS * 2, row_group_size=2, compression="gzip"),
}
PREFIX = ("jsonl", "lzma", "zstd", "parquet")
ERRORS = [OSError, ValueError, KeyError, TimeoutError, RuntimeError, FileNotFoundError, PermissionError, StopIteration, EOFError, UnicodeError, MemoryError]
OPTIONS = {"plain": {}, "filters": {"filters": "n > 0 OR n <= 0"}, "dnf": {"filters": ("n", "!=", None)}, "select": {"select": "n, s"}, "memory": {"persistence": 2}}
BYTES = [0x00, 0xFF, 0x0A, 0x22, None]  # None: lowest bit flipped


def units(tier):
    deep = tier == "thorough"
    out = []
    for f in BLOBS:
        for pos in range(3):
            out.append(["cut", f, pos, 0, deep])
            out.append(["alter", f, pos, 0, deep])
        out.append(["fetch", f])
    for f in BIG:
        for part in range(4):
            out.append(["cut", f, 1, 1 + part, deep])
            out.append(["alter", f, 1, 1 + part, deep])
    for f in BLOBS:
        out.append(["two", f, deep])
    return out


_cache = {}


def make(f, big):
    if (f, big) not in _cache:
        _cache[f, big] = (BIG if big else BLOBS)[f]()
    return _cache[f, big]


def cases(unit):
    kind, f = unit[:2]
    if kind == "cut":
        _, _, pos, big, deep = unit
        n = len(make(f, bool(big)))
        for cut in range(n):
            if big and cut % 4 != big - 1:
                continue
            for o in OPTIONS if (pos == 1 and not big) or deep else ("plain",):
                yield {"f": f, "pos": pos, "big": int(bool(big)), "cut": cut, "o": o}
    elif kind == "alter":
        _, _, pos, big, deep = unit
        n = len(make(f, bool(big)))
        for at in range(n):
            if big and (at % 4 != big - 1 or (not deep and at % 3 == 0)):
                continue
            for v in BYTES if (pos == 1 and not big) or deep else (BYTES[at % 5],):
                yield {"f": f, "pos": pos, "big": int(bool(big)), "at": at, "byte": v, "o": "plain"}
    elif kind == "fetch":
        for pos in range(3):
            for e in range(len(ERRORS)):
                for o in OPTIONS:
                    yield {"f": f, "pos": pos, "big": 0, "error": e, "o": o}
        for broken in range(1, 8):
            yield {"f": f, "pos": 1, "big": 0, "broken": broken, "o": "plain"}
    else:
        n = len(make(f, 0))
        for g in BLOBS:
            m = len(make(g, 0))
            for a, b in itertools.product((0, 1, n // 2, n - 1), (0, 1, m // 2, m - 1)):
                yield {"f": f, "pos": 1, "big": 0, "cut": a, "g": g, "cut2": b, "o": "plain"}


def check(ctx, case):
    f = case["f"]
    whole = make(f, case["big"])
    data = whole
    if "cut" in case:
        data = whole[: case["cut"]]
    elif "at" in case:
        b = case["byte"]
        data = whole[: case["at"]] + bytes([whole[case["at"]] ^ 1 if b is None else b]) + whole[case["at"] + 1 :]
    base = "bucket/data/year_2020/month_02/day_03/"
    first, last = [{"n": 1001, "s": "f"}, {"n": 1002, "s": "f"}], [{"n": 2001, "s": "l"}, {"n": 2002, "s": "l"}]
    store = Store()
    pos = case["pos"]
    ends = {"a": ("jsonl", lines(first)), "z": ("zstd", zst(lines(last)))}
    names = []
    for k, (ext, d) in ends.items():
        store.put(f"{base}{k}.{ext}", d)
        names.append(f"{base}{k}.{ext}")
    mine = base + {0: "Z", 1: "m", 2: "~"}[pos] + "." + f
    store.put(mine, data)
    damaged = {mine}
    if "g" in case:
        d2 = make(case["g"], 0)[: case["cut2"]]
        other = f"{base}n.{case['g']}"
        store.put(other, d2)
        damaged.add(other)
    before, after = first, last
    want = {0: [[], first + last], 1: [first, last], 2: [first + last, []]}[pos]
    failing = set()
    error = None
    if "error" in case:
        error, failing = ERRORS[case["error"]], {mine}
    if "broken" in case:
        error = OSError
        failing = {n for i, n in enumerate([names[0], mine, names[1]]) if case["broken"] >> i & 1}
        want = [first if names[0] not in failing else [], last if names[1] not in failing else []]

    class Fetch(store.Reader):
        def get_blob_bytes(self, blob):
            if blob in failing:
                raise error("cannot be fetched")
            return super().get_blob_bytes(blob)

    got = [dict(r) if hasattr(r, "keys") else r for r in Reader(dataset="bucket/data", inner_reader=Fetch, start_date="2020-02-03", end_date="2020-02-03", **OPTIONS[case["o"]])]
    ctx.step()
    head, tail = want
    ok = got[: len(head)] == head and got[len(got) - len(tail) :] == tail and len(got) >= len(head) + len(tail)
    ctx.expect(ok, lambda: f"{describe(case)}: the undamaged blobs hold {head} before and {tail} after it, read {got}")
    middle = got[len(head) : len(got) - len(tail)]
    if failing and mine in failing:
        ctx.expect(middle == [], lambda: f"{describe(case)}: read {middle} from a blob that cannot be fetched")
    elif "cut" in case and f in PREFIX and "g" not in case:
        full = original(f, case["big"])
        ctx.expect(same(middle, full[: len(middle)]), lambda: f"{describe(case)}: read {middle}, which is not a prefix of its records {full[:6]}")
        ctx.expect(len(middle) < len(full) or f in ("jsonl", "lzma", "zstd"), lambda: f"{describe(case)}: everything was read")
    elif "g" in case and f in PREFIX and case["g"] in PREFIX:
        # a prefix of the one, then a prefix of the other
        fa, fb = original(f, 0), original(case["g"], 0)
        ctx.expect(any(same(middle, fa[:i] + fb[: len(middle) - i]) for i in range(min(len(middle), len(fa)) + 1)), lambda: f"{describe(case)}: read {middle}")
    ctx.state([f, case["big"], middle])


def original(f, big):
    """the records of the undamaged blob"""
    recs = RECS
    if big:
        recs = {"zstd": RECS * 3, "lzma": [dict(r, k=i) for i in range(60) for r in RECS], "jsonl": [dict(r, k=i) for i in range(5) for r in RECS], "parquet": RECS * 2}[f]
    return [dict(r, n=float(r["n"])) for r in recs] if f == "parquet" else recs


def describe(case):
    what = f"cut to {case['cut']} bytes" if "cut" in case else f"byte {case['at']} altered ({case['byte']})" if "at" in case else f"fetch fails with {ERRORS[case['error']].__name__}" if "error" in case else f"fetches {case['broken']} fail"
    return f"{case['f']} blob {what}" + (f" and a {case['g']} blob cut to {case['cut2']}" if "g" in case else "")
