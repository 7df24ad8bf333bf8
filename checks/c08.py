"""C08: every record over a value/shape alphabet against every column type, in every order, for the three writers."""
import datetime
import decimal
import itertools
import json
import os

from mcheck import env, streams  # noqa: installs the scheduler first (threads stay inert)
from mabel.data import BatchWriter, Reader, StreamWriter, Writer
from orso.schema import RelationSchema

from mcheck.core import same
from mcheck.store import Store, decode, folder

PROPERTY, LEVEL = "C08", "model_checking"
TECHNIQUE = "exhaustive enumeration of schemas, records and append orders on the real writers and reader against a routing model"
RULE = (
    "every (column type, nullability) x value, every record shape (missing, extra, not a record), every sequence of conforming and nonconforming records up to the depth, given as dictionaries and as pydantic-like models, for Writer, BatchWriter and "
    "StreamWriter, text and parquet formats, schemas of up to 257 columns in every form (one definition for two writers), up to 1001 records with bad ones among them, templates with and without placeholders; a state is what was stored where"
)
ASSUMPTIONS = ["whether a single record conforms is orso's RelationSchema.validate (trusted); cross-checked with a plain isinstance table", "in-memory store; housekeeping inert"]
VALUES = [
    0, 1, -5, 2**62, 1.5, 0.0, True, False, None, "", "a", "1", "2020-02-03", "2020-02-03T04:05:06", [], ["a"], [1], {}, {"a": 1}, b"x",
    datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.date(2020, 1, 2),
]
TYPES = ["INTEGER", "DOUBLE", "VARCHAR", "BOOLEAN", "TIMESTAMP", "DATE", "ARRAY<VARCHAR>", "STRUCT", "BLOB"]
CLEAR = {  # unambiguous cells of the conformance table
    "INTEGER": ([0, 1, -5], ["a", "", [], {}, 1.5]), "DOUBLE": ([1.5, 0.0], ["a", [], {}]), "VARCHAR": (["", "a"], [1, 1.5, [], {}]), "BOOLEAN": ([True, False], ["a", []]),
    "TIMESTAMP": ([datetime.datetime(2020, 1, 2, 3, 4, 5)], [[], {}, 1.5]), "ARRAY<VARCHAR>": ([["a"], []], [1, True]),
}
SEQ = {"v": {"i": 1, "p": "k"}, "w": {"i": 2, "p": "k"}, "n": {"i": None, "p": None}, "b": {"i": "bad", "p": "k"}, "m": {"p": "k"}, "x": {"i": 3, "p": "k", "z": 1}, "t": "text", "h": {"i": 1, "p": None}, "q": {"i": 1}}
SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "p", "type": "VARCHAR"}]


class BaseModel:
    """what mabel asks of a pydantic model"""

    def __init__(self, values):
        self.values_ = values


    def export_(self, exclude_none=False, exclude=(), include=None, **_):
        return {k: v for k, v in self.values_.items() if not (exclude_none and v is None) and k not in (exclude or ()) and (include is None or k in include)}


class Model(BaseModel):
    def dict(self, **kw):
        return self.export_(**kw)


class NewModel(BaseModel):
    def model_dump(self, **kw):
        return self.export_(**kw)


START, DAY = 1_582_848_000 * env.NS, datetime.datetime(2020, 2, 3)
KINDS = ("Writer", "BatchWriter", "StreamWriter")


def units(tier):
    deep = tier == "thorough"
    out = []
    for k in KINDS:
        for fmt in ("jsonl", "parquet") + (("zstd", "flat", "text") if deep else ()):
            out.append(["types", k, fmt])
            for first in SEQ:
                d = (4 if fmt == "parquet" else 5) + (1 if deep else 0) - (1 if not deep else 0)
                out.append(["seq", k, fmt, first, d, "plain"])
                out.append(["model", k, fmt, first, d - 1, "plain"])
                if k == "StreamWriter":
                    out.append(["seq", k, fmt, first, d - 1, "p_{p}"])
                    out.append(["seq", k, fmt, first, d - 1, "{p}/{i}"])
                    out.append(["model", k, fmt, first, d - 1, "{p}/{i}"])
                    out.append(["seq", k, fmt, first, d - 1, "y_{yyyy}/m_{mm}"])
                    out.append(["seq", k, fmt, first, d - 2, "y_{yyyy}/p_{p}"])
                    out.append(["drift", k, fmt, first, d - 1, "m_{mm}/d_{dd}"])
            out.append(["wide", k, fmt])
            out.append(["long", k, fmt])
    return out


FORMS = ["list", "columns", "fields", "text", "fieldstext", "object", "file"]
SIZES = [*range(1, 35), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]
LONG = [*range(5, 34), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 499, 500, 501, 999, 1000, 1001]


def cases(unit):
    if unit[0] == "wide":
        for n in SIZES:
            for f in range(len(FORMS)):
                if n < 5 or (n + f) % 3 == 0:
                    yield {"k": "wide", "kind": unit[1], "fmt": unit[2], "n": n, "form": f}
        return
    if unit[0] == "long":
        for n in LONG:
            if n < 300 or unit[2] != "parquet":
                for every in (0, 2, 3, n - 1):
                    yield {"k": "long", "kind": unit[1], "fmt": unit[2], "n": n, "every": every}
        return
    if unit[0] == "types":
        for t in range(len(TYPES)):
            for nullable in (0, 1):
                for v in range(len(VALUES)):
                    for pos in ("only", "first", "last"):
                        yield {"kind": unit[1], "fmt": unit[2], "type": t, "null": nullable, "v": v, "pos": pos, "t": "plain"}
    else:
        how, k, fmt, first, depth, t = unit
        for n in range(0, depth):
            for tail in itertools.product(SEQ, repeat=n):
                yield {"kind": k, "fmt": fmt, "ops": first + "".join(tail), "t": t, "model": int(how == "model"), "drift": int(how == "drift")}
                if how == "model" and k != "StreamWriter" and n < depth - 1:
                    yield {"kind": k, "fmt": fmt, "ops": first + "".join(tail), "t": t, "model": 2, "drift": 0}


def jsonable(v):
    return not isinstance(v, (bytes, datetime.date, datetime.datetime, decimal.Decimal))


def definition(columns, form):
    """one schema in every form a writer takes"""
    cols = [dict(c) for c in columns]
    if form == "object":
        return RelationSchema.from_dict({"name": "m", "columns": cols})
    if form == "file":
        path = os.path.join(env.SCRATCH, f"c08-{os.getpid()}.json")
        with open(path, "w") as f:
            json.dump({"fields": cols}, f)
        return path
    d = cols if form in ("list", "text") else {"columns": cols} if form == "columns" else {"fields": cols}
    return json.dumps(d) if "text" in form else d


def sized(ctx, case):
    """schemas of many columns in every form, and many records with bad ones among them; the definition serves two writers"""
    kind, fmt, n = case["kind"], case["fmt"], case["n"]
    if case["k"] == "wide":
        kinds = ("INTEGER", "VARCHAR", "BOOLEAN")
        columns = [{"name": f"c{i}", "type": kinds[i % 3], "nullable": False} for i in range(n)]
        good = {f"c{i}": (i, f"t{i}", True)[i % 3] for i in range(n)}
        records = [good]
        for i in sorted({0, n // 2, n - 1}):
            records += [{**good, f"c{i}": [1]}, {**good, f"c{i}": None}, {k: v for k, v in good.items() if k != f"c{i}"}, dict(good)]
        records.append({**good, "other": 1})
        form = FORMS[case["form"]]
    else:
        columns, form = SCHEMA, "list"
        every = case["every"]
        records = [{"i": "bad" if every and i % every == every - 1 else i, "p": f"p{i}"} for i in range(n)]
    valid = [conforms(columns, r) for r in records]
    d = definition(columns, form)
    for turn in (0, 1):
        store = Store()
        w = {"Writer": Writer, "BatchWriter": BatchWriter, "StreamWriter": StreamWriter}[kind](dataset="bucket/data", format=fmt, schema=d, inner_writer=store.Writer, date="2020-02-03", partitions=["x"])
        for r, ok in zip(records, valid):
            try:
                w.append(dict(r))
                took = True
            except Exception:
                took = False
            ctx.step()
            if not ctx.expect(took == (ok or kind == "StreamWriter"), lambda: f"{case}: record {repr(r)[:300]} conforms={ok}, append accepted={took}"):
                return
        w.finalize()
        good, bad = [], []
        for name, data in store.data_blobs():
            (bad if "BACKOUT" in name.split("/") else good).extend(decode(name, data))
        want_good = [r for r, ok in zip(records, valid) if ok]
        want_bad = [r for r, ok in zip(records, valid) if not ok] if kind == "StreamWriter" else []
        ctx.expect(len(good) == len(want_good) and all(like(a, b) for a, b in zip(good, want_good)), lambda: f"{case}, writer {turn + 1}: {len(good)} conforming records are stored of {len(want_good)}, or others")
        ctx.expect(len(bad) == len(want_bad) and all(like(a, b) for a, b in zip(bad, want_bad)), lambda: f"{case}, writer {turn + 1}: BACKOUT holds {len(bad)} records of {len(want_bad)}, or others")
    ctx.state([kind, fmt, case["k"], n, case.get("every"), sum(valid)])


def check(ctx, case):
    if case.get("k"):
        return sized(ctx, case)
    fmt, kind = case["fmt"], case["kind"]
    store = Store()
    if "ops" in case:
        columns = SCHEMA
        records = [SEQ[o] for o in case["ops"]]
        ids = None
    else:
        t = TYPES[case["type"]]
        columns = [{"name": "i", "type": "INTEGER"}, {"name": "c", "type": t, "nullable": bool(case["null"])}]
        v = VALUES[case["v"]]
        if fmt == "flat" and isinstance(v, (dict, list)):
            return
        good = next(x for x in VALUES if conforms(columns, {"i": 7, "c": x}))
        one, g = {"i": 8, "c": v}, {"i": 7, "c": good}
        if not all(serializable(fmt, r, columns, kind) for r in (one, g)):
            return  # the format cannot hold it, which is not the schema's business
        records = {"only": [one], "first": [one, g], "last": [g, one]}[case["pos"]]
        for cell, want in zip(CLEAR.get(t, ([], [])), (True, False)):
            if any(type(x) is type(v) and x == v for x in cell):
                ctx.expect(conforms(columns, one) == want, f"orso disagrees with the table about {v!r} as {t}")
    if fmt == "flat":
        records = [r for r in records if isinstance(r, dict)]
    valid = [conforms(columns, r) for r in records]
    template = case["t"]
    if kind == "StreamWriter" and ("{p}" in template or "{i}" in template):
        keep = [i for i, r in enumerate(records) if isinstance(r, dict)]
        records, valid = [records[i] for i in keep], [valid[i] for i in keep]
    kw = dict(dataset="bucket/data", format=fmt, schema=[dict(c) for c in columns], inner_writer=store.Writer, date="2020-02-03", partitions=[template])
    drift = case.get("drift")
    if drift:  # no date given: each record goes to the day it is appended on
        del kw["date"]
    env.clock_fixed(START)
    if kind == "BatchWriter":
        w = BatchWriter(**kw)
    else:
        w = (Writer if kind == "Writer" else StreamWriter)(**kw)
    stored_good, stored_bad = [], []
    days = {}
    for r, ok in zip(records, valid):
        if drift:
            env.clock_set(env.clock_get() + 86400 * env.NS)
            days.setdefault(id(r), []).append(datetime.datetime.fromtimestamp(env.clock_get() // env.NS, datetime.timezone.utc))
        try:
            given = dict(r) if isinstance(r, dict) else r
            w.append((NewModel if case["model"] == 2 else Model)(given) if case.get("model") and isinstance(given, dict) else given)
            took = True
        except Exception as e:
            took = False
            why = f"{type(e).__name__}: {e}"
        ctx.step()
        if kind == "StreamWriter":
            if not ctx.expect(took, lambda: f"append of {r!r} to a stream raised {why}"):
                return
            (stored_good if ok else stored_bad).append(r)
        else:
            if not ctx.expect(took == ok, lambda: f"record {r!r} conforms={ok}, append accepted={took}"):
                return
            if ok:
                stored_good.append(r)
    if kind != "StreamWriter":
        ctx.equal(w.records, len(stored_good), "records counted")
    w.finalize()
    if kind == "BatchWriter":
        marked = any(n.endswith("/frame.complete") for n, d in store.log)
        ctx.expect(marked == bool(stored_good), lambda: f"{len(stored_good)} records were accepted, the frame is marked complete: {marked}")
    good, bad = [], []
    for name, data in store.data_blobs():
        in_backout = "BACKOUT" in name.split("/")
        recs = decode(name, data)
        ctx.expect(recs, f"an empty blob {name} was stored")
        for r in recs:
            (bad if in_backout else good).append((folder(name), r))
    want_good, want_bad = arrange(kind, template, stored_good, False, days), arrange(kind, template, stored_bad, True, days)
    order = lambda xs: sorted(xs, key=lambda x: (x[0], repr(x[1]))) if "{" in template else xs
    strip = lambda xs: [((f if kind != "BatchWriter" else ""), norm_value(fmt, r)) for f, r in xs]
    g, wg = order(strip(good)), order(strip(want_good))
    b, wb = order(strip(bad)), order(strip(want_bad))
    ctx.expect(len(g) == len(wg) and all(x[0] == y[0] and like(x[1], y[1]) for x, y in zip(g, wg)), lambda: f"conforming records stored {g}, expected {wg}")
    ctx.expect(len(b) == len(wb) and all(x[0] == y[0] and like(x[1], y[1]) for x, y in zip(b, wb)), lambda: f"BACKOUT holds {b}, expected {wb}")
    ctx.state([kind, fmt, template, [x[0] for x in g], [x[0] for x in b], repr([x[1] for x in g + b])])
    # reading returns exactly the conforming ones
    if fmt != "text":
        try:
            ds = [r for r in Reader(dataset="bucket/data", inner_reader=store.Reader, partitions=None, start_date="2020-02-03", end_date="2020-02-03")]
        except Exception as e:
            if type(e).__name__ != "DataNotFoundError":
                raise
            ds = []
        if kind == "BatchWriter" and not stored_good:
            want_n = 0
        else:
            want_n = len(good)
        ctx.expect(len(ds) == want_n, lambda: f"the reader returns {len(ds)} records, {want_n} conforming ones are stored")
        ctx.expect(sorted(map(repr, ds)) == sorted(repr(r) for f, r in good), lambda: f"the reader returns {ds}, stored are {good}")


def arrange(kind, template, recs, backout, days):
    out = []
    days = {k: list(v) for k, v in days.items()}
    for r in recs:
        day = days[id(r)].pop(0) if days else DAY
        f = "bucket/data/" + template.replace("{yyyy}", f"{day.year}").replace("{mm}", f"{day.month:02d}").replace("{dd}", f"{day.day:02d}")
        if "{" in f:
            for k in ("p", "i"):
                f = f.replace("{" + k + "}", str(r.get(k)))
        out.append((f + ("/BACKOUT" if backout else ""), r))
    return out


def norm_value(fmt, r):
    return r


def like(got, want):
    """stored value against appended value: dates become ISO text in JSON, dates become datetimes or dates in parquet"""
    if isinstance(want, dict) and isinstance(got, dict):
        return set(got) == set(want) and all(like(got[k], want[k]) for k in want)
    if isinstance(want, datetime.datetime) and isinstance(got, str):
        return got == want.isoformat()
    if isinstance(want, datetime.datetime) and type(got) is datetime.date:
        return got == want.date()
    if isinstance(want, datetime.date) and not isinstance(want, datetime.datetime):
        if isinstance(got, str):
            return got == want.isoformat()
        if isinstance(got, datetime.datetime):
            return got.date() == want
        return got == want
    if isinstance(got, str) and not isinstance(want, str):
        return got == str(want)
    if isinstance(want, (int, float)) and not isinstance(want, bool) and isinstance(got, (int, float)):
        return got == want
    return same(got, want)


def conforms(columns, r):
    schema = RelationSchema.from_dict({"name": "m", "columns": [dict(c) for c in columns]})
    try:
        schema.validate(r)
        return True
    except Exception:
        return False


_ser = {}


def serializable(fmt, r, columns, kind):
    """can a writer without schema (or for parquet, pyarrow through orso) hold this record at all?"""
    key = (fmt, repr(r), repr(columns), kind)
    if key in _ser:
        return _ser[key]
    ok = True
    import orjson

    if fmt == "parquet":
        if conforms(columns, r):
            import io
            import orso
            import pyarrow.parquet

            try:
                df = orso.DataFrame(rows=[], schema=RelationSchema.from_dict({"name": "m", "columns": [dict(c) for c in columns]}))
                df.append(r)
                t = df.arrow()
                pyarrow.parquet.write_table(t, io.BytesIO())
            except Exception:
                ok = False
        elif kind == "StreamWriter":
            ok = all(jsonable(v) or isinstance(v, (datetime.date,)) for v in r.values())
    elif fmt != "text":
        try:
            orjson.dumps(r)
        except TypeError:
            ok = False
    _ser[key] = ok
    return ok
