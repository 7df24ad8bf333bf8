"""C01: every sequence of append/finalize on one or two interleaved writers, against a list of appended records."""
import orjson
import orso
from mabel.data import BatchWriter, Writer
from mabel.data.validator import schema_loader

from mcheck.store import Store, decode, folder, raw
from mcheck.util import seqs

PROPERTY, LEVEL = "C01", "model_checking"
TECHNIQUE = "exhaustive enumeration of append/finalize histories on the real writers against a list model"
RULE = (
    "every operation sequence over {small, half-limit, over-limit, empty, unserializable append, finalize} up to the depth, for each format, writer class, "
    "blob_size and way of giving records (own dictionary, one dictionary reused, pydantic-like models of both kinds, parsed objects that know their text); single writers given every number of records from a list up to 65537; for two writers every interleaving of such operations; a state is (pending, committed blob shapes)"
)
ASSUMPTIONS = [
    "the store is an in-memory inner writer that accepts every commit; blobs are decoded independently (json, zstandard, pyarrow)",
    "parquet blob content is measured with orso's own DataFrame.nbytes, which is trusted",
]
SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "p", "type": "VARCHAR"}]
TEXT = ("jsonl", "zstd", "flat", "text")
LIMIT = 60
FILL = {"s": 1, "m": 22, "l": 70}
COUNTS = [9, 10, 11, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 249, 250, 251, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025,
          2048, 2049, 4096, 4097, 5000, 5001, 8192, 8193, 9999, 10000, 10001, 16384, 16385, 32769, 50001, 65536, 65537]


class BaseModel:
    """what mabel asks of a pydantic model"""

    def __init__(self, values):
        self.values_ = values


    def export_(self, exclude_none=False, exclude=(), include=None, **_):
        return {k: v for k, v in self.values_.items() if not (exclude_none and v is None) and k not in (exclude or ()) and (include is None or k in include)}


class OldModel(BaseModel):
    def dict(self, **kw):
        return self.export_(**kw)


class NewModel(BaseModel):
    def model_dump(self, **kw):
        return self.export_(**kw)


class Parsed(dict):
    """what mabel asks of a record that was parsed and never changed"""

    def __init__(self, values):
        super().__init__(values)
        self.mini = orjson.dumps(values)


WRAP = {"dict": OldModel, "model_dump": NewModel, "mini": Parsed}


def units(tier):
    deep = tier == "thorough"
    out = []
    for cls in ("Writer", "BatchWriter"):
        for fmt in TEXT:
            for reuse in (0, 1):
                for limit in (LIMIT, 0, 10**9):
                    d = (7 if deep else 5) if limit == LIMIT and not reuse else (6 if deep else 4)
                    for first in "smlexF":
                        out.append(["one", cls, fmt, reuse, limit, first, d])
        for reuse in (0, 1):
            for limit in (LIMIT, 0, 10**9):
                d = (6 if deep else 4) if limit == LIMIT and not reuse else (4 if deep else 3)
                for first in "smlexF":
                    out.append(["one", cls, "parquet", reuse, limit, first, d])
        for reuse in ("dict", "model_dump"):
            for limit in (LIMIT, 10**9):
                for first in "smlexF":
                    out.append(["one", cls, "parquet", reuse, limit, first, 4 if deep else 3])
                    for fmt in ("jsonl", "zstd", "flat"):
                        out.append(["one", cls, fmt, reuse, limit, first, 5 if deep else 3])
        for fmt in ("jsonl", "zstd"):
            for limit in (LIMIT, 10**9):
                for first in "smlexF":
                    out.append(["one", cls, fmt, "mini", limit, first, 5 if deep else 3])
        for fmt in TEXT + ("parquet",):
            for limit in (10**9, 5000):
                for part in range(4):
                    out.append(["many", cls, fmt, 0, limit, part, 5 if deep else 3])
    for fmt in TEXT + ("parquet",):
        for pair in (("Writer", "Writer"), ("BatchWriter", "Writer"), ("BatchWriter", "BatchWriter")):
            for first in ("as", "al", "aF", "bs", "bl", "bF"):
                d = (3 if fmt == "parquet" else 4) + (1 if deep else 0)
                out.append(["two", list(pair), fmt, 0, LIMIT, first, d])
    # the deep ones first, so the pool stays busy
    out.sort(key=lambda u: -u[-1] - (u[2] == "parquet"))
    return out


def cases(unit):
    kind, cls, fmt, reuse, limit, first, depth = unit
    if kind == "many":
        for n in (COUNTS if fmt != "parquet" else [c for c in COUNTS if c < (2100 if depth < 5 else 6000)])[first::4]:
            yield {"k": "many", "cls": cls, "fmt": fmt, "limit": limit, "n": n}
        return
    alphabet = "smlexF" if kind == "one" else ("as", "al", "aF", "bs", "bl", "bF")
    if fmt == "text" and kind == "one":
        alphabet = "smleF"
        if first == "x":
            return
    for tail in seqs(alphabet, 0, depth - 1):
        yield {"k": kind, "cls": cls, "fmt": fmt, "reuse": reuse, "limit": limit, "ops": [first, *tail]}


class Model:
    def __init__(self):
        self.appended = []  # in append order
        self.blobs = []  # lists of records, in commit order, with how they were closed


def make(store, cls, fmt, limit, name):
    kw = dict(
        dataset=f"bucket/{name}", format=fmt, inner_writer=store.Writer, blob_size=limit, schema=SCHEMA if fmt == "parquet" else False,
        date="2020-02-03",
    )
    return (BatchWriter if cls == "BatchWriter" else Writer)(**kw)


def measure(fmt, schema, records, name=None):
    if fmt == "parquet":
        df = orso.DataFrame(rows=[], schema=schema)
        for r in records:
            df.append(r)
        return df.nbytes()
    from orjson import dumps

    return sum(len(dumps(r)) + 1 if fmt != "text" else len(r.encode()) + 1 for r in records)


def many(ctx, case):
    fmt, limit, n = case["fmt"], case["limit"], case["n"]
    store = Store()
    w = make(store, case["cls"], fmt, limit, "alpha")
    want = [f"{i}:s" if fmt == "text" else {"i": i, "p": "s"} for i in range(n)]
    for r in want:
        w.append(r)
    w.finalize()
    got = []
    for name, data in store.data_blobs():
        recs = decode(name, data)
        ctx.expect(recs, f"an empty blob {name}")
        got += recs
        ctx.expect(limit > 5000 or len(recs) == 1 or measure(fmt, schema_loader(SCHEMA), recs[:-1]) <= limit, lambda: f"a blob over the limit of {limit} took another record")
    ctx.step(n)
    ctx.expect(got == want, lambda: f"{n} records were appended, {len(got)} are stored; the first difference is at {next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), n))}")
    ctx.expect(limit == 5000 or len(store.data_blobs()) == 1, lambda: f"{n} records in {len(store.data_blobs())} blobs although blob_size is {limit}")
    ctx.state(["many", fmt, limit, n, len(store.data_blobs())])


def check(ctx, case):
    if case["k"] == "many":
        return many(ctx, case)
    fmt, limit = case["fmt"], case["limit"]
    store = Store()
    names = ["alpha"] if case["k"] == "one" else ["alpha", "beta"]
    classes = [case["cls"]] if case["k"] == "one" else case["cls"]
    writers = [make(store, c, fmt, limit, n) for c, n in zip(classes, names)]
    schema = schema_loader(SCHEMA) if fmt == "parquet" else None
    accepted = {n: [] for n in names}
    taken = {n: 0 for n in names}  # records seen in blobs
    reused = {n: {} for n in names}
    seen = 0
    for k, op in enumerate(case["ops"] + ["F"] if case["k"] == "one" else case["ops"] + ["aF", "bF"]):
        w = 0 if case["k"] == "one" else "ab".index(op[0])
        name, op = names[w], op[-1]
        if op == "F":
            writers[w].finalize()
        elif op == "x":
            try:
                writers[w].append({"i": object(), "p": "never"})
                ctx.fail("an unserializable record was accepted")
            except Exception:
                pass
        else:
            if op == "e":  # nothing in it
                rec = {"i": None, "p": None} if fmt == "parquet" else {}
            else:
                rec = {"i": 1000 + k, "p": op * FILL[op]}
            if fmt == "text" and op == "e":
                rec = ("", "  ")[k // 2 % 2]
                accepted[name].append(rec)
                writers[w].append(rec.encode() if k % 2 else rec)
            elif fmt == "text":
                rec = f"{1000+k}:{op * FILL[op]}"
                accepted[name].append(rec)
                writers[w].append(rec.encode() if k % 2 else rec)
            elif case["reuse"] in WRAP:
                accepted[name].append(dict(rec))
                writers[w].append(WRAP[case["reuse"]](rec))
            elif case["reuse"]:
                accepted[name].append(rec)
                reused[name].clear()
                reused[name].update(rec)
                writers[w].append(reused[name])
            else:
                accepted[name].append(dict(rec))
                writers[w].append(rec)
        ctx.step()
        new = [(n, d) for n, d in store.log[seen:] if not n.endswith(".complete")]
        for n, d in new:
            owner = [x for x in names if f"/{x}/" in n]
            if not ctx.expect(owner == [name], f"operation on {name} committed {n}"):
                return
            got = decode(n, d)
            want = accepted[name][taken[name] : taken[name] + len(got)]
            if not ctx.expect(got == want and len(got) > 0, lambda: f"blob {n} holds {got}, the next appended records are {want}"):
                return
            taken[name] += len(got)
            size = measure(fmt, schema, got) if fmt in ("parquet", "text") else len(raw(n, d))
            if op != "F":
                ctx.expect(size > limit, lambda: f"blob of {size} closed although blob_size is {limit}")
                pending = accepted[name][taken[name] :]
                ctx.expect(len(pending) == (0 if fmt == "parquet" else 1), lambda: f"closing a blob left {len(pending)} pending records")
            if len(got) > 1:
                before = measure(fmt, schema, got[:-1])
                ctx.expect(before <= limit, lambda: f"a blob that already held {before} took another record, blob_size is {limit}")
        seen = len(store.log)
        pending = accepted[name][taken[name] :]
        if op == "F":
            ctx.expect(not pending, lambda: f"finalize left {len(pending)} records uncommitted")
        elif pending:
            keep = pending if fmt == "parquet" else pending[:-1]
            ctx.expect(measure(fmt, schema, keep) <= limit, lambda: f"records {pending} are held although blob_size {limit} is exceeded")
        ctx.state([fmt, limit, [[len(accepted[n]) - taken[n]] for n in names], [len(d) if fmt != "parquet" else 1 for _, d in store.data_blobs()], op])
    for n in names:
        got = [r for b, d in store.data_blobs() if f"/{n}/" in b for r in decode(b, d)]
        ctx.equal(got, accepted[n], f"all records of {n}")
    ctx.count("blobs", len(store.data_blobs()))
