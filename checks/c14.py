"""C14: every value of an alphabet in every position through every format, on the real writers and reader."""
import datetime
import decimal
import io
import itertools
import json
import lzma
import math
import uuid
import zipfile

import orjson
from mabel.data import BatchWriter, Reader, StreamWriter, Writer
from mabel.errors import DataNotFoundError

from mcheck.core import same
from mcheck.store import Store, decode, lines, raw, zst

PROPERTY, LEVEL = "C14", "model_checking"
TECHNIQUE = "exhaustive enumeration of values, keys, nesting, positions, formats and containers on the real writers and reader, compared with the records written"
RULE = (
    "every value of the alphabet, every pair nested in lists and dictionaries, every hostile key, lists, objects, nestings, keys and text of every size up to 5000 (around every threshold), alone and among other records, one blob or many, for every writer and format; every (declared type, value) in parquet; the same lines in "
    "every container with every line ending; single records and blobs of up to 70 MB; records that are hard to store among good ones; a state is (format, stored bytes)"
)
ASSUMPTIONS = [
    "JSON data: finite floats, integers within 64 bits, text without lone surrogates, text keys; others only have to be refused or not to harm their neighbours",
    "parquet STRUCT columns: records of one blob with one shape (parquet stores the union of the shapes)", "TIMESTAMP without time zone, TIME in whole seconds (what orso stores)",
]
TEXTS = ["", "a", "é", "\u2028", "\x85", "\x0c", "\r\n", "\n", "\t", '"', "\\", "\x00", "\x1c", "𝄞", ",", "a,b", " a ", "'", "{}", "[1]", "null", "1", "True", "\ufeff", "\u200b", "a\nb\n", "%", "0" * 300]
SCALARS = [None, True, False, 0, 1, -1, 2**31, 2**53 + 1, 2**63 - 1, -(2**63), 2**64 - 1, 0.0, 1.5, -0.1, 1e300, 1e-300, 0.1 + 0.2, 1e16, 123456789.123456789] + TEXTS
NESTED = [[], {}, [[]], [{}], {"a": {}}, {"a": []}, [None], [1, "a", None, 1.5, True], {"a": {"b": {"c": 1}}}, [{"a": 1}, {"b": [2]}], {"": 1}, {"a.b": 1}, {"a": {"b.c": 2}}, {"x": None}]
KEYS = ["a", "", " ", ".", "a.b", "é", "\n", '"', "\u2028", "A", "0", "_id", "a b", "items", "\x00", "dict", "keys", "mini"]
D, DT = datetime.date, datetime.datetime
DATES = [D(2020, 2, 29), D(1, 1, 1), D(9999, 12, 31), DT(2020, 2, 29, 1, 2, 3), DT(2020, 2, 29, 1, 2, 3, 456789), DT(1, 1, 1), DT(2020, 1, 1, 0, 0), DT(9999, 12, 31, 23, 59, 59, 999999)]
# declared type -> values and how they come back
COLUMNS = {
    "INTEGER": [0, 1, -1, 2**31, 2**53 + 1, 2**63 - 1, -(2**63)],
    "DOUBLE": [0.0, 1.5, -0.1, 1e300, 1e-300, 0.1 + 0.2],
    "VARCHAR": TEXTS,
    "BOOLEAN": [True, False],
    "TIMESTAMP": [d for d in DATES if isinstance(d, DT)],
    "DATE": [d for d in DATES if not isinstance(d, DT)],
    "ARRAY<VARCHAR>": [[], [""], ["a", "b"], ["a", None], [None], ["é", "\n", "a,b"], ["1"]],
    "ARRAY<INTEGER>": [[], [0], [1, 2, 2], [None, 1], [2**63 - 1]],
    "ARRAY<DOUBLE>": [[], [0.5], [1.5, None]],
    "ARRAY<BOOLEAN>": [[], [True], [True, False, None]],
    "BLOB": [b"", b"a", b"\x00\xff", b"\n"],
    "STRUCT": [{"a": 1}, {"a": {"b": [1, 2]}}, {"a": None, "b": "x"}, {"a b": True}],
    "TIME": [datetime.time(0, 0), datetime.time(23, 59, 59), datetime.time(1, 2, 3)],
    "DECIMAL(10,2)": [decimal.Decimal("1.50"), decimal.Decimal("-0.01"), decimal.Decimal("99999999.99")],
}
# accepted by the schema but not (always) storable
HARD = {
    "INTEGER": [("True", True), ("2^63", 2**63), ("2^70", 2**70)],
    "VARCHAR": [("surrogate", "\ud800")],
    "ARRAY<VARCHAR>": [("surrogate", ["\ud800"])],
    "STRUCT": [("empty", {}), ("intkey", {1: 2}), ("othertype", {"a": "x"})],
    "DECIMAL(10,2)": [("1e30", decimal.Decimal("1e30")), ("1.555", decimal.Decimal("1.555"))],
    "DOUBLE": [("nan", math.nan), ("inf", math.inf)],
    "DATE": [("datetime", DT(2020, 1, 2, 3, 4))],
    "TIMESTAMP": [("utc", DT(2020, 1, 2, tzinfo=datetime.timezone.utc)), ("date", D(2020, 1, 2))],
}
ODD = {  # for the text formats: not plain JSON data
    "bigint": {"v": 2**70}, "negbig": {"v": -(2**64)}, "nan": {"v": math.nan}, "inf": {"v": [math.inf]}, "intkey": {1: 2}, "nonekey": {None: 1}, "boolkey": {True: 1}, "nankey": {1: math.nan}, "surrogate": {"v": "\ud800"}, "surkey": {"\udfff": 1},
    "bytes": {"v": b"x"}, "set": {"v": {1}}, "decimal": {"v": decimal.Decimal("1.5")}, "tuple": {"v": (1, 2)}, "object": {"v": object}, "uuid": {"v": uuid.UUID(int=5)}, "list": [1, 2], "text": "abc", "newline": "a\nb", "number": 5,
    "none": None, "rawbytes": b'{"a":1}', "deep": None, "datekey": {D(2020, 1, 1): 1}, "bigintkey": {1: 2**70}, "time": {"v": datetime.time(1, 2)}, "empty": {}, "hugefloat": {"v": 1e308}, "frozenset": {"v": frozenset()}, "lonenl": "\n", "emptytext": "",
}
FORMATS = ("jsonl", "zstd", "flat")
KINDS = {"Writer": Writer, "BatchWriter": BatchWriter, "StreamWriter": StreamWriter}


def units(tier):
    deep = tier == "thorough"
    out = []
    for fmt in FORMATS:
        for kind in KINDS:
            out.append(["values", fmt, kind, deep])
        out.append(["nest", fmt, "Writer", deep])
        out.append(["shape", fmt, deep])
        for k in range(4):
            out.append(["odd", fmt, k, deep])
    out.append(["text", "text", "Writer", deep])
    for t in COLUMNS:
        out.append(["parquet", t, deep])
    for t in HARD:
        out.append(["hard", t, deep])
    for c in CONTAINERS:
        out.append(["container", c, deep])
    for how in ("jsonl", "zstd", "flat", "parquet", "text") + tuple("in:" + c for c in CONTAINERS):
        out.append(["big", how, deep])
    return out


# records x size of the text in each: long records, many records, more than the default blob holds
BIG = [(1, 70_000), (70_001, 10), (140_000, 0), (3, 1_100_000), (2, 5_000_000), (40_000, 60), (1001, 1200)]
OVER = [(70, 1_000_003)]


def pool():
    return SCALARS + NESTED + DATES


def cases(unit):
    kind = unit[0]
    if kind == "values":
        _, fmt, w, deep = unit
        n = len(pool())
        for v in range(n):
            for pos in ("alone", "first", "middle", "last"):
                for blob in (None, 1) if pos != "alone" else (None,):
                    yield {"k": "rt", "fmt": fmt, "w": w, "vs": [v], "key": 0, "pos": pos, "blob": blob}
        for key in range(len(KEYS)):
            for v in (0, 4, len(SCALARS) + 8, len(SCALARS) + 12):
                yield {"k": "rt", "fmt": fmt, "w": w, "vs": [v], "key": key, "pos": "middle", "blob": None}
    elif kind == "nest":
        _, fmt, w, deep = unit
        n = len(pool())
        for a, b in itertools.product(range(n), repeat=2):
            if deep or (a * 7 + b) % 4 == 0:
                yield {"k": "rt", "fmt": fmt, "w": w, "vs": [a, b], "key": (a + b) % len(KEYS), "pos": "alone", "blob": None}
    elif kind == "shape":
        for what in SHAPES:
            for n in (2, 9, 10, 11, 12, 16, 17, 31, 32, 33, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 500, 511, 512, 999, 1000, 1001, 1024, 1025, 5000) + ((70000,) if unit[2] else ()):
                if n <= SHAPES[what][1]:
                    yield {"k": "shape", "fmt": unit[1], "what": what, "n": n, "w": list(KINDS)[n % 3]}
    elif kind == "odd":
        _, fmt, k, deep = unit
        names = list(ODD)
        for name in names[k::4]:
            for pos in range(3):
                for blob in (None, 1):
                    yield {"k": "odd", "fmt": fmt, "odd": [name], "pos": pos, "blob": blob}
            for other in names if deep else names[::3]:
                yield {"k": "odd", "fmt": fmt, "odd": [name, other], "pos": 1, "blob": None}
    elif kind == "text":
        things = ["", "a", "é", "a\nb", b"", b"\x00\xff", b"a", 5, None, {"a": 1}, [1], 1.5, "a\r"]
        for n in range(1, 4):
            for t in itertools.product(range(len(things)), repeat=n):
                yield {"k": "text", "things": list(t), "blob": 1 if sum(t) % 2 else None}
    elif kind == "parquet":
        vals = COLUMNS[unit[1]]
        n = len(vals)
        for size in (1, 2, 3):
            for c in itertools.product(range(-1, n), repeat=size):
                if size == 3 and n > 8 and not (c[0] == c[2] or c[1] == -1):
                    continue
                if unit[1] == "STRUCT" and len({x for x in c if x >= 0}) > 1:
                    continue
                for blob in (None, 1) if size > 1 else (None,):
                    yield {"k": "parquet", "t": unit[1], "vs": list(c), "blob": blob, "w": list(KINDS)[sum(c) % 3]}
    elif kind == "hard":
        for h in range(len(HARD[unit[1]])):
            for pos in range(3):
                yield {"k": "hard", "t": unit[1], "h": h, "pos": pos}
    elif kind == "big":
        for n, size in BIG + (OVER if unit[2] or unit[1] in ("jsonl", "zstd") else []):
            yield {"k": "big", "how": unit[1], "n": n, "size": size}
    else:
        rows = [["a", "b"], ["", "x"], ["é", "1"], ['"', ","], ["a,b", 'q"q'], [" ", "\u2028"], ["\x85", "\x0c"], ["null", "{}"], ["a\nb", "c\r\nd"], ["\x1c\x1d\x1e", "\x0b"]]
        for n in range(0, 4):
            for c in itertools.product(range(len(rows)), repeat=n):
                if n == 3 and not unit[2] and (c[0] + c[1] + c[2]) % 3:
                    continue
                for end in ENDINGS if unit[1] in ("jsonl", "lzma", "zstd", "zip", "streamed") else ENDINGS[:1]:
                    yield {"k": "container", "c": unit[1], "rows": list(c), "end": end}


def nested(n, step):
    v = "end"
    for i in range(n):
        v = step(i, v)
    return v


SHAPES = {  # what a record of size n holds, the largest n
    "list": (lambda n: list(range(n)), 70000),
    "texts": (lambda n: [f"t{i}" for i in range(n)] + [None], 70000),
    "keys": (lambda n: {f"k{i}": i for i in range(n)}, 70000),
    "records": (lambda n: [{"a": i, "b": [i, {"c": i}]} for i in range(n)], 1025),
    "lists": (lambda n: [[i, i + 1] for i in range(n)], 1025),
    "wide list": (lambda n: [[list(range(n))], {"x": list(range(n))}], 1025),
    "empties": (lambda n: [[[], {}, ""][i % 3] for i in range(n)], 1025),
    "deep dict": (lambda n: nested(n, lambda i, v: {f"d{i}": v, "s": i}), 100),
    "deep list": (lambda n: nested(n, lambda i, v: [i, v]), 100),
    "deep mix": (lambda n: nested(n, lambda i, v: [v, {"m": i}] if i % 2 else {"v": v}), 100),
    "long key": (lambda n: {"k" * n: 1, "é" * n: {"k" * n: 2}}, 5000),
    "long text": (lambda n: ["x" * n, "é" * n, "\n" * n, '"' * n], 70000),
    "long number": (lambda n: [int("9" * min(n, 18)), float("1" * min(n, 300)), -1 / 10 ** min(n, 300)], 500),
}


def shape(ctx, case):
    v = SHAPES[case["what"]][0](case["n"])
    recs = [{"id": 0, "v": v, "z": 1}, {"id": 1, **(v if isinstance(v, dict) else {"w": v})}, {"id": 2}]
    store = Store()
    w = writer(case["w"], case["fmt"], store, None)
    for r in recs:
        w.append(r)
    w.finalize()
    got = read(store)
    want = [flat(r) if case["fmt"] == "flat" else jsoned(r) for r in recs]
    ctx.step(case["n"])
    ctx.state([case["fmt"], case["what"], case["n"]])
    if case["fmt"] == "flat":
        ctx.expect(all(x is not None for x in want), "the check has colliding paths")
    ctx.expect(same(got, want), lambda: f"{case['fmt']} ({case['w']}): wrote {case['what']} of {case['n']}, read back other records: {str(got)[:200]}")


ENDINGS = ["\n", "\r\n", "last"]


def check(ctx, case):
    {"rt": round_trip, "shape": shape, "odd": odd, "text": texts, "parquet": parquet, "hard": hard, "container": container, "big": big}[case["k"]](ctx, case)


def writer(kind, fmt, store, blob, schema=False, dataset="bucket/data"):
    kw = dict(dataset=dataset, format=fmt, inner_writer=store.Writer, date="2020-02-03", schema=schema)
    if blob is not None:
        kw["blob_size"] = blob
    return KINDS[kind](**kw)


def read(store, **kw):
    try:
        return list(Reader(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03", **kw))
    except DataNotFoundError:
        return []


def jsoned(v):
    """the JSON data a value stands for"""
    if isinstance(v, (D, DT)):
        return v.isoformat()
    if isinstance(v, dict):
        return {k: jsoned(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsoned(x) for x in v]
    return v


def paths_of(v, path, out):
    if isinstance(v, dict):
        for k, x in v.items():
            paths_of(x, path + [str(k)], out)
    elif isinstance(v, (list, tuple)):
        for k, x in enumerate(v):
            paths_of(x, path + [str(k)], out)
    else:
        out.append((path, v))
    return out


def flat(rec):
    """every scalar under its dotted path; None if two paths collide"""
    out = {}
    for path, v in paths_of(rec, [], []):
        # an empty key has an empty part
        name = ".".join(path)
        if name in out:
            return None
        out[name] = jsoned(v)
    return out


def round_trip(ctx, case):
    store = Store()
    p = pool()
    vals = [p[i] for i in case["vs"]]
    key = KEYS[case["key"]]
    v = vals[0] if len(vals) == 1 else ([vals[0], vals[1]] if case["vs"][0] % 2 else {"p": vals[0], "q": [vals[1]]})
    mid = {key: v, "z": 1}
    recs = {"alone": [mid], "first": [mid, {"id": 1}, {"id": 2}], "middle": [{"id": 1}, mid, {"id": 2}], "last": [{"id": 1}, {"id": 2}, mid]}[case["pos"]]
    if case["fmt"] == "flat" and any(flat(r) is None for r in recs):
        return
    if key in ("items", "keys", "dict", "mini") and case["fmt"] == "flat" and False:
        return
    w = writer(case["w"], case["fmt"], store, case["blob"])
    before = repr(recs)
    for r in recs:
        w.append(r)
    w.finalize()
    ctx.expect(repr(recs) == before, "writing changed the record")
    got = read(store)
    want = [flat(r) if case["fmt"] == "flat" else jsoned(r) for r in recs]
    ctx.step(len(recs))
    ctx.state([case["fmt"], want])
    ctx.expect(same(got, want), lambda: f"{case['fmt']} ({case['w']}): wrote {recs}, read {got}, expected {want}")


def odd(ctx, case):
    store = Store()
    odds = [build(n) for n in case["odd"]]
    good = [{"id": i, "t": "x"} for i in range(3)]
    recs = list(good)
    recs[case["pos"] : case["pos"]] = odds
    w = writer("Writer", case["fmt"], store, case["blob"])
    taken = []
    for r in recs:
        try:
            w.append(r)
            taken.append(r)
        except Exception as e:
            ctx.expect(not any(r is g for g in good), lambda: f"{r} was refused: {type(e).__name__} {e}")
        ctx.step()
    try:
        w.finalize()
    except Exception as e:
        ctx.fail(f"{case['fmt']}: after accepting {names(case)} nothing can be committed: {type(e).__name__} {e}", f"poison {case['fmt']} {'+'.join(case['odd'])}")
        return
    got = [r for r in read(store)]
    goods = [r for r in got if any(same(r, g) for g in good)]
    ctx.expect(same(goods, good), lambda: f"{case['fmt']}: with {names(case)} accepted, the other records read back are {goods}")
    ctx.expect(len(got) == len(taken), lambda: f"{case['fmt']}: accepted {len(taken)} records ({taken}), read back {got}")
    ctx.state([case["fmt"], case["odd"], len(taken)])


def names(case):
    return " and ".join(case["odd"])


def build(name):
    if name == "deep":
        d = {}
        for _ in range(300):
            d = {"d": d}
        return d
    return ODD[name]


def texts(ctx, case):
    things = ["", "a", "é", "a\nb", b"", b"\x00\xff", b"a", 5, None, {"a": 1}, [1], 1.5, "a\r"]
    recs = [things[i] for i in case["things"]]
    store = Store()
    w = writer("Writer", "text", store, case["blob"])
    for r in recs:
        w.append(r)
    w.finalize()
    stored = b"".join(d for n, d in store.data_blobs())
    want = b"".join((r if isinstance(r, bytes) else str(r).encode()) + b"\n" for r in recs)
    ctx.expect(stored == want, lambda: f"text: stored {stored}, the records are {recs}")
    ctx.expect(b"".join(read(store)) == want, lambda: f"text: read {read(store)}, the records are {recs}")
    ctx.step(len(recs))
    ctx.state(stored)


def parquet(ctx, case):
    store = Store()
    vals = COLUMNS[case["t"]]
    recs = [{"id": i, "c": None if v < 0 else vals[v]} for i, v in enumerate(case["vs"])]
    schema = [{"name": "id", "type": "INTEGER"}, {"name": "c", "type": case["t"]}]
    w = writer(case["w"], "parquet", store, case["blob"], schema)
    for r in recs:
        w.append(dict(r))
    w.finalize()
    got = read(store)
    ctx.step(len(recs))
    ctx.expect(same(got, recs), lambda: f"parquet {case['t']}: wrote {recs}, read {got}")
    ctx.state([case["t"], repr(recs)])


def hard(ctx, case):
    name, v = HARD[case["t"]][case["h"]]
    good = [{"id": i, "c": x} for i, x in enumerate((COLUMNS[case["t"]][0], None))]
    recs = list(good)
    recs[case["pos"] : case["pos"]] = [{"id": 99, "c": v}]
    store = Store()
    schema = [{"name": "id", "type": "INTEGER"}, {"name": "c", "type": case["t"]}]
    w = writer("Writer", "parquet", store, None, schema)
    sig = f"poison-parquet-{case['t']}-{name}"
    taken = 0
    for r in recs:
        try:
            w.append(r)
            taken += 1
        except Exception as e:
            ctx.expect(r["id"] == 99, lambda: f"parquet {case['t']}: after {v!r}, {r} was refused: {type(e).__name__}: {e}", sig)
    try:
        w.finalize()
    except Exception as e:
        ctx.fail(f"parquet: with {v!r} accepted as {case['t']} the blob cannot be written: {type(e).__name__}: {e}", sig)
        return
    got = read(store)
    ctx.expect(same([r for r in got if r["id"] != 99], good) and len(got) == taken, lambda: f"parquet {case['t']}: with {v!r} the records read are {got}", sig)
    ctx.state([case["t"], case["h"], taken])


def arrow(recs):
    import pyarrow
    import pyarrow.parquet

    b = io.BytesIO()
    pyarrow.parquet.write_table(pyarrow.table({k: pyarrow.array([r[k] for r in recs], pyarrow.string()) for k in ("x", "y")}), b)
    return b.getvalue()


def zipped(files, how=zipfile.ZIP_STORED):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", how) as z:
        for n, d in files:
            z.writestr(n, d)
    return b.getvalue()


def members(recs):
    """a member for every record (or some hundred of many), in folders, among empty and foreign ones"""
    step = max(1, len(recs) // 300)
    out = [("top/", b""), ("top/readme", b"x"), ("top/empty.jsonl", b"")]
    for i in range(0, len(recs), step):
        d = lines(recs[i : i + step])
        out.append(("top/a.b/", b""))
        out.append([(f"top/a.b/z{-i}.jsonl", d), (f"{i}.zstd", zst(d)), (f"top/{i}/.lzma", lzma.compress(d)), (f"{i}.zip", zipped([("in/x.jsonl", d), ("in/e.jsonl", b"")]))][i // step % 4])
    return [(f"{k}{n}" if n.endswith("/") else n, d) for k, (n, d) in enumerate(out)]


def groups(recs):
    import pyarrow
    import pyarrow.parquet

    b = io.BytesIO()
    table = pyarrow.table({k: pyarrow.array([r[k] for r in recs], pyarrow.string()) for k in ("x", "y")})
    pyarrow.parquet.write_table(table, b, row_group_size=max(1, len(recs) // 40), compression="zstd", use_dictionary=False)
    return b.getvalue()


def streamed(data):
    """zstandard data whose header does not tell the size, in many blocks"""
    import zstandard

    c = zstandard.ZstdCompressor(level=1).compressobj()
    step = max(1, len(data) // 30)
    return b"".join(c.compress(data[i : i + step]) + c.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK) for i in range(0, len(data), step)) + c.flush()


def csved(recs, end="\n"):
    q = lambda s: '"' + s.replace('"', '""') + '"' if any(c in s for c in ',"\r\n') else s
    return (f"x,y{end}" + "".join(f"{q(r['x'])},{q(r['y'])}{end}" for r in recs)).encode()


def big(ctx, case):
    """contents beyond any buffer: nothing is cut"""
    how, n, size = case["how"], case["n"], case["size"]
    store = Store()
    recs = [{"x": f"{i}", "y": (f"{i}é," * (size // 5 + 1))[:size]} for i in range(n)]
    if how.startswith("in:"):
        ext, data = CONTAINERS[how[3:]](recs, lines(recs))
        store.put(f"bucket/data/year_2020/month_02/day_03/x.{ext}", data)
    else:
        w = writer("Writer", how, store, None, [{"name": "x", "type": "VARCHAR"}, {"name": "y", "type": "VARCHAR"}] if how == "parquet" else False)
        for r in recs:
            w.append(r["y"] if how == "text" else r)
        w.finalize()
    got = list(read(store))
    ctx.step(n)
    if how == "text":
        want = b"".join(r["y"].encode() + b"\n" for r in recs)
        ctx.expect(b"".join(got) == want, lambda: f"text of {len(want)} bytes reads back as {sum(map(len, got))} bytes")
    else:
        bad = next((i for i, (g, w) in enumerate(zip(got, recs)) if not same(dict(g), w)), None)
        ctx.expect(len(got) == n and bad is None, lambda: f"{how}: {n} records of {size} characters read back as {len(got)}, first different: {bad}")
    ctx.state([how, n, size, len(store.blobs)])


MEMBERS = ["_part.jsonl", ".hidden.jsonl", "__MACOSX/a.jsonl", "a b.jsonl", "a/b/_c/.d.jsonl", "é.jsonl", "a.zip.jsonl", "frame.ignore.jsonl", "BACKOUT/x.jsonl", ".jsonl", "n" * 200 + ".jsonl", "a\\b.jsonl", "/abs.jsonl", "../up.jsonl"]
CONTAINERS = {
    "jsonl": lambda rs, t: ("jsonl", t),
    "lzma": lambda rs, t: ("lzma", lzma.compress(t)),
    "zstd": lambda rs, t: ("zstd", zst(t)),
    "zip": lambda rs, t: ("zip", zipped([("a.jsonl", t)])),
    "zip2": lambda rs, t: ("zip", zipped([("b.jsonl", lines(rs[:1])), ("a.lzma", lzma.compress(lines(rs[1:])))])),
    "zipcsv": lambda rs, t: ("zip", zipped([("a.csv", csved(rs)), ("readme.foo", b"x")])),
    "csv": lambda rs, t: ("csv", csved(rs)),
    "parquet": lambda rs, t: ("parquet", arrow(rs)),
    "zipmany": lambda rs, t: ("zip", zipped(members(rs), zipfile.ZIP_DEFLATED)),
    "zippq": lambda rs, t: ("zip", zipped([("a/b.parquet", arrow(rs))], zipfile.ZIP_LZMA)),
    "groups": lambda rs, t: ("parquet", groups(rs)),
    "streamed": lambda rs, t: ("zstd", streamed(t)),
    "zipnames": lambda rs, t: ("zip", zipped([(f"{i}{n}", b"") if n.endswith("/") else (n, lines(rs[len(rs) * i // len(MEMBERS) : len(rs) * (i + 1) // len(MEMBERS)])) for i, n in enumerate(MEMBERS)])),
    "csvcrlf": lambda rs, t: ("csv", csved(rs, "\r\n")),
}
ROWS = [["a", "b"], ["", "x"], ["é", "1"], ['"', ","], ["a,b", 'q"q'], [" ", "\u2028"], ["\x85", "\x0c"], ["null", "{}"], ["a\nb", "c\r\nd"], ["\x1c\x1d\x1e", "\x0b"]]


def container(ctx, case):
    recs = [{"x": ROWS[i][0], "y": ROWS[i][1]} for i in case["rows"]]
    text = lines(recs)
    if case["end"] == "\r\n":
        text = text.replace(b"\n", b"\r\n")
    elif case["end"] == "last":
        text = text[:-1] if text else text
    ext, data = CONTAINERS[case["c"]](recs, text)
    store = Store()
    store.put(f"bucket/data/year_2020/month_02/day_03/x.{ext}", data)
    store.put("bucket/data/year_2020/month_02/day_03/a.jsonl", b'{"x":"first"}\n')
    store.put("bucket/data/year_2020/month_02/day_03/z.jsonl", b'{"x":"last"}\n')
    got = [dict(r) for r in read(store)]
    ctx.step(len(recs) + 1)
    ctx.expect(same(got, [{"x": "first"}] + recs + [{"x": "last"}]), lambda: f"{case['c']} (line end {case['end']!r}): stored {recs}, read {got}")
    # the format may also be named explicitly
    if not case["c"].startswith("zip"):
        other = Store()
        other.put("bucket/data/year_2020/month_02/day_03/x.txt", data)
        got = [dict(r) for r in read(other, override_format=ext)]
        ctx.expect(same(got, recs), lambda: f"{case['c']} with override_format: stored {recs}, read {got}")
    ctx.state([case["c"], text])
