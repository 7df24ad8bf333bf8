"""C30: every split of record lists over blobs, formats and days under every combination of reader options, every interleaving of two readers, every change of the data between reads."""
import itertools
import lzma

from mabel.data import Reader
from mabel.errors import DataNotFoundError

from mcheck.core import same
from mcheck.store import Store, lines, zst

PROPERTY, LEVEL = "C30", "model_checking"
TECHNIQUE = "exhaustive enumeration of blob layouts, reader options, interleavings of readers' steps and changes between reads on the real Reader against a list model"
RULE = (
    "every list of up to 3 (thorough: 4) records of an alphabet with empty and ragged ones; every split into blobs with an empty blob anywhere, every assignment of formats, every boundary between two days, in frames or loose; "
    "every combination of select, filters, persistence and way of consuming; every interleaving of the steps of two readers (thorough: three) for every pair of option sets; every history of reads and changes of the stored "
    "blobs up to a depth; a state is the layout's shape and the records read"
)
ASSUMPTIONS = ["in-memory store", "every blob of a parquet data set holds the same columns"]
ALPHABET = [{"a": 1, "b": "x"}, {}, {"b": "y", "a": 2}, {"a": 2.5, "c": [1, None]}]
UNIFORM = [{"a": 1, "b": "x"}, {"a": 2, "b": "y"}, {"a": 3, "b": None}, {"a": 1, "b": "z"}]
DAYS = ["2020-02-29", "2020-03-01"]
FORMATS = ["jsonl", "zstd", "lzma"]


def parquet(recs):
    import io

    import pyarrow
    import pyarrow.parquet

    b = io.BytesIO()
    pyarrow.parquet.write_table(
        pyarrow.table({"a": pyarrow.array([r["a"] for r in recs], pyarrow.int64()), "b": pyarrow.array([r["b"] for r in recs], pyarrow.string())}), b
    )
    return b.getvalue()


ENCODE = {"jsonl": lines, "zstd": lambda r: zst(lines(r)), "lzma": lambda r: lzma.compress(lines(r)), "parquet": parquet}

# what a select and a filter mean, written down independently
SELECT = {
    None: lambda r: dict(r),
    "*": lambda r: dict(r),
    "a": lambda r: {"a": r.get("a")},
    "b, a": lambda r: {"b": r.get("b"), "a": r.get("a")},
    "a AS z, b": lambda r: {"z": r.get("a"), "b": r.get("b")},
    "c": lambda r: {"c": r.get("c")},
}


def number(v):
    return v is not None and not isinstance(v, (str, list))


FILTERS = [
    (None, lambda r: True),
    ("a = 1", lambda r: r.get("a") == 1),
    ("b = 'y'", lambda r: r.get("b") == "y"),
    ("a = 2 OR b = 'x'", lambda r: r.get("a") == 2 or r.get("b") == "x"),
    ("a = 1 AND b = 'x'", lambda r: r.get("a") == 1 and r.get("b") == "x"),
    (("a", "==", 1), lambda r: r.get("a") == 1),
    ([("a", "==", 2), ("b", "==", "y")], lambda r: r.get("a") == 2 and r.get("b") == "y"),
    ([[("a", "==", 1)], [("b", "==", "y")]], lambda r: r.get("a") == 1 or r.get("b") == "y"),
    ("z = 2", lambda r: r.get("z") == 2),
]
PERSISTENCE = [0, 1, 2, 3]
CONSUME = ["list", "next", "collect"]
OPTIONS = [(None, 0, 0), ("b, a", 0, 0), (None, 3, 0), ("a AS z, b", 8, 0), ("*", 7, 0), ("a", 1, 0), (None, 5, 2), ("b, a", 6, 0)]


def compositions(n):
    """every way to cut n records into consecutive, non-empty parts"""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def layouts(n, formats, empties=True):
    """every split of n records: part sizes (0: a blob without records), a format each, where the second day begins"""
    for parts in compositions(n):
        variants = [parts]
        if empties:
            variants += [parts[:i] + (0,) + parts[i:] for i in range(len(parts) + 1)]
        for v in variants:
            if not v:
                continue
            for fs in itertools.product(formats, repeat=len(v)):
                for day in range(len(v) + 1):
                    yield list(v), list(fs), day


def units(tier):
    deep = tier == "thorough"
    out = []
    n = 4 if deep else 3
    for k in range(1, n + 1):
        lists = list(itertools.product(range(len(ALPHABET)), repeat=k))
        if k == 4:
            lists = [l for l in lists if 1 in l and len(set(l)) > 1]
        for i in range(8):
            out.append(["layout", "ragged", lists[i::8], deep])
    uni = [[0], [0, 1], [0, 1, 2], [3, 0, 1, 2], [0, 0, 0]]
    for u in uni:
        out.append(["layout", "uniform", [u], deep])
    for s in SELECT:
        for f in range(len(FILTERS)):
            out.append(["options", s, f, deep])
    for i in range(len(OPTIONS)):
        for j in range(i, len(OPTIONS)):
            out.append(["weave", [i, j]])
    if deep:
        for trio in itertools.combinations_with_replacement(range(6), 3):
            out.append(["weave", list(trio)])
    for o in range(len(OPTIONS)):
        out.append(["again", o, 5 if deep else 4])
    return out


def cases(unit):
    if unit[0] == "layout":
        _, kind, lists, deep = unit
        for recs in lists:
            formats = FORMATS + ["parquet"] if kind == "uniform" else FORMATS
            for parts, fs, day in layouts(len(recs), formats):
                if not deep and 0 in parts and day not in (0, 1):
                    continue
                if len(parts) > 2 and len(set(fs)) > 1 and not deep:
                    # quick: three or more blobs are of one format or of two that alternate
                    if any(fs[i] != fs[i % 2] for i in range(len(fs))):
                        continue
                if len(recs) == 4 and len(parts) > 3 and any(fs[i] != fs[i % 2] for i in range(len(fs))):
                    continue
                yield {"k": "layout", "kind": kind, "recs": list(recs), "parts": parts, "fs": fs, "day": day}
    elif unit[0] == "options":
        _, s, f, deep = unit
        for p in PERSISTENCE:
            for c in CONSUME:
                for frame in (False, True):
                    for recs in ([0, 1, 2, 3], [1], [1, 1], [2, 0, 1], [3, 3, 0]) if deep else ([1, 0, 2, 3], [1]):
                        for parts, fs, day in ((_p, _f, _d) for _p, _f, _d in layouts(len(recs), ["jsonl", "zstd"], False) if len(set(_f)) == 1 or _f == ["jsonl", "zstd", "jsonl", "zstd"][: len(_f)]):
                            if not deep and (day != len(parts) // 2 or (frame and c != "list")):
                                continue
                            yield {"k": "options", "kind": "ragged", "recs": recs, "parts": parts, "fs": fs, "day": day, "s": s, "f": f, "p": p, "c": c, "frame": frame}
    elif unit[0] == "weave":
        _, who = unit
        n = 4 if len(who) == 2 else 3
        for recs, parts in (([0, 2, 1], [1, 2]), ([0, 1, 2], [3]), ([2, 2, 0], [1, 1, 1])):
            if len(who) == 3:
                recs, parts = recs[:2], [1, 1] if len(parts) > 1 else [2]
            for order in weaves([len(recs) + 1] * len(who)):
                yield {"k": "weave", "kind": "ragged", "recs": recs, "parts": parts, "fs": ["jsonl", "zstd", "jsonl"][: len(parts)], "day": 1, "who": who, "order": order}
    else:
        _, o, depth = unit
        for n in range(2, depth + 1):
            for ops in itertools.product("RACDX", repeat=n):
                if ops[-1] == "R":
                    yield {"k": "again", "o": o, "ops": "".join(ops)}


def weaves(counts):
    """every order in which these steps can happen"""
    if not any(counts):
        yield []
        return
    for i, c in enumerate(counts):
        if c:
            for rest in weaves(counts[:i] + [c - 1] + counts[i + 1 :]):
                yield [i] + rest


def base(day, frame):
    y, m, d = DAYS[day].split("-")
    return f"bucket/data/year_{y}/month_{m}/day_{d}/" + ("as_at_20200301-000000/" if frame else "")


def fill(case, frame=False):
    """a store with the records laid out as the case says, and the records in order"""
    source = UNIFORM if case["kind"] == "uniform" else ALPHABET
    recs = [source[i] for i in case["recs"]]
    # tell equal records apart, but not the empty one
    recs = [dict(r, n=i) if r and case["kind"] == "ragged" else dict(r) for i, r in enumerate(recs)]
    store = Store()
    at = 0
    for i, (n, f) in enumerate(zip(case["parts"], case["fs"])):
        store.put(f"{base(int(i >= case['day']), frame)}blob-{i}.{f}", ENCODE[f](recs[at : at + n]))
        at += n
    if frame:
        for d in (0, 1):
            store.put(f"{base(d, True)}frame.complete", b"")
    return store, recs


def options(s, f, p):
    kw = {"persistence": p}
    if s is not None:
        kw["select"] = s
    if FILTERS[f][0] is not None:
        kw["filters"] = FILTERS[f][0]
    return kw


def model(recs, s, f):
    return [p for p in (SELECT[s](r) for r in recs) if FILTERS[f][1](p)]


def opened(store, s, f, p):
    return Reader(dataset="bucket/data", inner_reader=store.Reader, start_date=DAYS[0], end_date=DAYS[1], **options(s, f, p))


def plain(r):
    return dict(r) if hasattr(r, "keys") else r


def consume(ds, how):
    if how == "list":
        return [plain(r) for r in ds]
    if how == "collect":
        return [plain(r) for r in ds.collect_list()]
    out = []
    it = iter(ds)
    while True:
        try:
            out.append(plain(next(it)))
        except StopIteration:
            break
    return out


def check(ctx, case):
    if case["k"] == "layout":
        store, recs = fill(case)
        for s, f, p in OPTIONS:
            want = model(recs, s, f)
            store.fetched.clear()
            got = consume(opened(store, s, f, p), "list")
            ctx.step()
            ctx.expect(same(got, want), lambda: f"{recs} as {list(zip(case['parts'], case['fs']))} (second day from blob {case['day']}), select {s!r}, filters {FILTERS[f][0]!r}, persistence {p}: read {got}, expected {want}")
            ctx.expect(len(store.fetched) == len(set(store.fetched)), lambda: f"a blob was read twice: {store.fetched}")
        ctx.state([case["parts"], case["fs"], recs])
    elif case["k"] == "options":
        store, recs = fill(case, case["frame"])
        want = model(recs, case["s"], case["f"])
        got = consume(opened(store, case["s"], case["f"], case["p"]), case["c"])
        ctx.step()
        ctx.expect(same(got, want), lambda: f"{recs} as {case['parts']}, select {case['s']!r}, filters {FILTERS[case['f']][0]!r}, persistence {case['p']}, {case['c']}: read {got}, expected {want}")
        ctx.state([case["s"], case["f"], case["p"], got])
    elif case["k"] == "weave":
        check_weave(ctx, case)
    else:
        check_again(ctx, case)


def check_weave(ctx, case):
    store, recs = fill(case)
    readers, got, ended = {}, {}, set()
    for w in case["order"]:
        o = OPTIONS[case["who"][w]]
        if w not in readers:
            readers[w] = iter(opened(store, *o))
            got[w] = []
        if w in ended:
            continue
        try:
            r = next(readers[w])
            got[w].append(plain(r))
            if isinstance(r, dict) and not o[2]:
                r["changed"] = True  # what a caller does to a record is the caller's business
        except StopIteration:
            ended.add(w)
        ctx.step()
    for w, i in enumerate(case["who"]):
        want = model(recs, *OPTIONS[i][:2])
        ctx.expect(same(got[w], want) and w in ended, lambda: f"readers {[OPTIONS[i] for i in case['who']]} stepped in the order {case['order']}: reader {w} returned {got[w]}, alone {want}")
    ctx.state([case["who"], case["order"]])


def check_again(ctx, case):
    """R read all, A add a blob, C change the content of a blob, D delete a blob, X open a reader, take one record and leave it"""
    s, f, p = OPTIONS[case["o"]]
    store = Store()
    contents = {}
    serial = 0
    left = []

    def put(name, recs):
        contents[name] = recs
        store.put(name, ENCODE[name.rsplit(".", 1)[1]](recs))

    put(base(0, False) + "b0.jsonl", [dict(ALPHABET[0], n=0), {}])
    for op in case["ops"]:
        serial += 1
        if op == "A":
            put(f"{base(serial % 2, False)}b{serial}.{FORMATS[serial % 3]}", [dict(ALPHABET[serial % 4], n=serial)])
        elif op == "C" and contents:
            put(sorted(contents)[0], [dict(ALPHABET[2], n=serial), dict(ALPHABET[0], n=serial)])
        elif op == "D" and contents:
            name = sorted(contents)[-1]
            del contents[name], store.blobs[name]
        else:
            want = model([r for n in sorted(contents) for r in contents[n]], s, f)
            try:
                ds = opened(store, s, f, p)
                if op == "X":
                    it = iter(ds)
                    left.append((ds, it))
                    r = next(it, None)
                    got = [] if r is None else [plain(r)]
                    if isinstance(r, dict) and not p:
                        r["changed"] = True
                    want = want[:1]
                else:
                    got = consume(ds, "list")
            except DataNotFoundError:
                got = []
                if contents:
                    got = None
            ctx.step()
            ctx.expect(same(got, want), lambda: f"history {case['ops']} (step {serial}), select {s!r}, filters {FILTERS[f][0]!r}: read {got}, stored {want}")
    ctx.state([case["o"], sorted(contents), serial])
