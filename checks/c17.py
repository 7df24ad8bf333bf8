"""C17: every sequence of operations on a DictSet of every storage class, at every size around the internal batch sizes, against the plain list."""
import gc
import glob
import itertools
import os
import tempfile

from mabel.data.internals.dictset import STORAGE_CLASS, DictSet

from mcheck import env
from mcheck.core import same

PROPERTY, LEVEL = "C17", "model_checking"
TECHNIQUE = "exhaustive enumeration of operation sequences on the real DictSet over every storage class, compared step by step with the plain list of records"
RULE = (
    "four storage classes plus a bare list, source given as list, generator or DictSet; every sequence of operations up to the depth (iterate fully or partly, count, collect, take, filter, select, get_items, keys, distinct, sort, "
    "hash, a second DictSet in between) at sizes 0..5 and around 250 and 500; every subset of positions for get_items at small sizes and pairs and triples of edge positions at large ones; values of every JSON kind; "
    "records that overrun the 16 MB disk buffer; a state is the result sequence of a history"
)
ASSUMPTIONS = ["records are JSON objects", "no two iterations of one DictSet are interleaved", "get_items positions ascending, distinct, in range"]
CASE_SECONDS = 120
CLASSES = ["LIST", "MEMORY", "DISK", "COMPRESSED_MEMORY"]
SMALL = [0, 1, 2, 3, 5]
EDGE = [249, 250, 251, 499, 500, 501]
VALUES = [
    None, True, False, 0, -1, 2**53 + 1, 2**63 - 1, -(2**63), 2**64 - 1, 0.0, -0.0, 1.5, 1e300, 5e-324, "", "x", "é", "\u2028", "\n", "\r\n", "\t\\\"'", "\x00", "\x1f", "😀", [], [1, "a", None], [[]], {}, {"a": {"b": [1, {"c": None}]}},
    {"": 1}, {"\n": "\n"}, "a" * 5000, list(range(300)), "null", "2020-01-01T00:00:00", "[1]", " padded ",
]
OPS = [
    ["iter"], ["part", 1], ["part", 2], ["count"], ["list"], ["col", "a"], ["col", "z"], ["first"], ["take", 0], ["take", 1], ["take", 2], ["take", 300], ["itake", 1], ["itake", 2], ["dnf", 1], ["expr", 1], ["call", 1], ["select", ["a"]],
    ["select", ["z", "b"]], ["getlast"], ["getends"], ["getall"], ["keys"], ["distinct"], ["distinct", "b"], ["sort", "b", 2], ["other"], ["hash"],
]
FEW = [["iter"], ["part", 1], ["part", 2], ["list"], ["first"], ["take", 2], ["dnf", 1], ["getends"], ["getlast"], ["other"]]


def units(tier):
    deep = tier == "thorough"
    out = []
    for cls in CLASSES:
        for src in ("list", "gen", "set"):
            if cls == "LIST" and src != "list":
                continue
            out.append(["seqs", cls, src, SMALL, 1])
            for n in SMALL if src == "list" or deep else (0, 2):
                for i in range(4):
                    out.append(["seqs", cls, src, [n], 2, i])
                if src == "list" and n in (0, 1, 3) or deep:
                    out.append(["few", cls, src, [n], 4 if deep else 3])
            for n in EDGE:
                out.append(["few", cls, src, [n], 2 if src == "list" or deep else 1])
            out.append(["seqs", cls, src, EDGE, 1])
        for n in (1, 2, 3, 4, 5, 6, 7):
            out.append(["get", cls, n])
        for n in EDGE + [750, 1001]:
            out.append(["getedge", cls, n])
        out.append(["values", cls])
        out.append(["chain", cls])
        out.append(["big", cls])
        out.append(["gone", cls])
    return out


def cases(unit):
    k, cls = unit[0], unit[1]
    if k in ("seqs", "few"):
        _, _, src, sizes, depth, *shard = unit
        ops = OPS if k == "seqs" else FEW
        for n in sizes:
            for i, seq in enumerate(itertools.product(ops, repeat=depth)):
                if shard and i % 4 != shard[0]:
                    continue
                yield {"k": "seq", "cls": cls, "src": src, "n": n, "ops": list(seq)}
    elif k == "get":
        n = unit[2]
        for r in range(1, n + 1):
            for pos in itertools.combinations(range(n), r):
                yield {"k": "seq", "cls": cls, "src": "list", "n": n, "ops": [["get", list(pos)], ["get", list(pos)]]}
    elif k == "getedge":
        n = unit[2]
        edges = sorted({p for p in (0, 1, 124, 248, 249, 250, 251, 498, 499, 500, 501, 749, 750, n - 2, n - 1) if 0 <= p < n})
        for r in (1, 2, 3):
            for pos in itertools.combinations(edges, r):
                yield {"k": "seq", "cls": cls, "src": "list", "n": n, "ops": [["get", list(pos)]]}
        yield {"k": "seq", "cls": cls, "src": "list", "n": n, "ops": [["get", list(range(n))], ["getlast"], ["iter"]]}
    elif k == "values":
        for i in range(len(VALUES)):
            for j in (None, *range(len(VALUES))):
                yield {"k": "values", "cls": cls, "values": [i] if j is None else [i, j]}
    elif k == "chain":
        for n in (0, 1, 3, 251):
            for chain in itertools.product([["take", 2], ["dnf", 1], ["expr", 1], ["select", ["b", "a"]], ["distinct"], ["call", 1]], repeat=3):
                if n == 251 and (chain[0] != chain[1]):
                    continue
                yield {"k": "chain", "cls": cls, "n": n, "chain": list(chain)}
    elif k == "big":
        for sizes in ([17], [1, 17, 1], [6, 6, 6], [16], [9, 9, 9, 9], [2] * 9, [0, 40, 0]):
            yield {"k": "big", "cls": cls, "sizes": sizes}
    elif k == "gone":
        for how in ("del", "part", "derived", "failed", "two", "empty"):
            yield {"k": "gone", "cls": cls, "how": how}


def records(n):
    out = []
    for i in range(n):
        r = {"a": i % 4, "b": None if i % 5 == 3 else f"t{(7 * i) % 10}", "i": i}
        if i % 3 == 1:
            del r["b"]
        if i % 4 == 2:
            r["z"] = [i, {"k": None}]
        out.append(r)
    if n > 4:
        out[4] = dict(out[0])
    return out


def make(cls, src, recs):
    if cls == "LIST":
        return DictSet([dict(r) for r in recs])
    source = [dict(r) for r in recs]
    if src == "gen":
        source = (r for r in source)
    elif src == "set":
        source = DictSet(source)
    return DictSet(source, storage_class=STORAGE_CLASS[cls])


def uniq(recs, key):
    seen, out = [], []
    for r in recs:
        k = key(r)
        if not any(same(k, s) for s in seen):
            seen.append(k)
            out.append(r)
    return out


def op_model(op, recs):
    k = op[0]
    if k in ("iter", "list"):
        return list(recs)
    if k == "part":
        return recs[: op[1]]
    if k == "count":
        return len(recs)
    if k == "col":
        return [r[op[1]] for r in recs if op[1] in r]
    if k == "first":
        return recs[0] if recs else None
    if k in ("take", "itake"):
        return recs[: op[1]]
    if k in ("dnf", "expr", "call"):
        return [r for r in recs if "a" in r and r["a"] is not None and r["a"] > op[1]]
    if k == "select":
        return [{c: r.get(c) for c in op[1]} for r in recs]
    if k == "get":
        return [recs[i] for i in op[1]]
    if k == "getlast":
        return recs[-1:]
    if k == "getends":
        return [recs[i] for i in sorted({0, len(recs) - 1})] if recs else []
    if k == "getall":
        return list(recs)
    if k == "keys":
        out = []
        for r in recs:
            out += [c for c in r if c not in out]
        return out
    if k == "distinct":
        return uniq(recs, lambda r: r.get(op[1], ...)) if len(op) > 1 else uniq(recs, lambda r: r)
    if k == "sort":
        return sorted(recs, key=lambda r: (r.get(op[1]) is not None, r.get(op[1]) if r.get(op[1]) is not None else ""))[: op[2]]
    raise AssertionError(k)


def op_real(op, ds, n):
    k = op[0]
    if k == "iter":
        return [r for r in ds]
    if k == "part":
        return list(itertools.islice(iter(ds), op[1]))
    if k == "count":
        return ds.count()
    if k == "list":
        return ds.collect_list()
    if k == "col":
        return ds.collect_list(op[1])
    if k == "first":
        return ds.first()
    if k == "take":
        return ds.take(op[1])
    if k == "itake":
        return list(ds.itake(op[1]))
    if k == "dnf":
        return ds.filter([("a", ">", op[1])])
    if k == "expr":
        return ds.filter(f"a > {op[1]}")
    if k == "call":
        return ds.filter(lambda r: "a" in r and r["a"] is not None and r["a"] > op[1])
    if k == "select":
        return ds.select(op[1])
    if k == "get":
        return list(ds.get_items(*op[1]))
    if k == "getlast":
        return list(ds.get_items(n - 1)) if n else []
    if k == "getends":
        return list(ds.get_items(*sorted({0, n - 1}))) if n else []
    if k == "getall":
        return list(ds.get_items(*range(n)))
    if k == "keys":
        return ds.keys()
    if k == "distinct":
        return ds.distinct(*op[1:])
    if k == "sort":
        return list(ds.sort_and_take(op[1], op[2]))
    raise AssertionError(k)


def evaluate(op, ds, recs, cls, ctx, what):
    got = op_real(op, ds, len(recs))
    want = op_model(op, recs)
    if isinstance(got, DictSet):
        derived, got = got, list(got)
        if cls != "LIST":
            n = derived.count()
            ctx.expect(n == len(want), lambda: f"{op}: count of the result is {n}, not {len(want)} ({what})")
            again = derived.collect_list()
            ctx.expect(same(again, want), lambda: f"{op}: reading the result again gives {again!r:.300}, not {want!r:.300} ({what})")
    ctx.expect(same(got, want), lambda: f"{op} gives {got!r:.300}, the list gives {want!r:.300} ({what})")
    return want


def check(ctx, case):
    cls = case["cls"]
    k = case["k"]
    if k == "gone":
        return gone(ctx, case)
    if k == "seq":
        recs = records(case["n"])
        ds = make(cls, case["src"], recs)
        other, hashed = None, hash(DictSet([dict(r) for r in recs])) if ["hash"] in case["ops"] else None
        what = f"{cls} from {case['src']} of {case['n']} records, operations {case['ops']}"
        for op in case["ops"]:
            if op[0] == "other":
                other = make(cls, case["src"], recs[::-1])
                got = other.collect_list()
                ctx.expect(same(got, recs[::-1]), lambda: f"another DictSet gives {got!r:.300} ({what})")
            elif op[0] == "hash":
                h = hash(ds)
                ctx.expect(h == hashed, lambda: f"hash {h} is not that of the list ({what})")
            else:
                evaluate(op, ds, recs, cls, ctx, what)
            ctx.step()
        got = [r for r in ds]
        ctx.expect(same(got, recs), lambda: f"reading after these operations gives {got!r:.300}, not {recs!r:.300} ({what})")
        ctx.state([cls, case["n"], [o[0] for o in case["ops"]]])
        return
    if k == "values":
        recs = [{"v": VALUES[i], f"k{i}": i, "w": {"x": [VALUES[i]]}} for i in case["values"]]
        if len(recs) > 1:
            recs.insert(1, {})
        if any(isinstance(VALUES[i], str) and len(VALUES[i]) < 100 for i in case["values"]):
            recs.append({str(VALUES[case["values"][-1]]): 1})
        ds = make(cls, "gen", recs)
        what = f"{cls}, values {[repr(VALUES[i])[:40] for i in case['values']]}"
        for _ in range(2):
            got = [r for r in ds]
            ctx.expect(same(got, recs), lambda: f"iteration gives {got!r:.300}, not {recs!r:.300} ({what})")
        got = ds.collect_list("v")
        ctx.expect(same(got, [r["v"] for r in recs if "v" in r]), lambda: f"collect_list gives {got!r:.300} ({what})")
        got = list(ds.get_items(len(recs) - 1))
        ctx.expect(same(got, recs[-1:]), lambda: f"get_items gives {got!r:.300} ({what})")
        ctx.expect(ds.count() == len(recs), lambda: f"count {ds.count()} ({what})")
        ctx.step(5)
        ctx.state([cls, case["values"]])
        return
    if k == "chain":
        recs = records(case["n"])
        ds = make(cls, "list", recs)
        for op in case["chain"]:
            ds = op_real(op, ds, len(recs))
            recs = op_model(op, recs)
        got = list(ds)
        ctx.expect(same(got, recs), lambda: f"{case['chain']} on {case['n']} records gives {got!r:.300}, the list {recs!r:.300} ({cls})")
        ctx.step(3)
        ctx.state([cls, case["n"], case["chain"]])
        return
    # records of several megabytes
    recs = [{"n": i, "t": chr(97 + i) * (s << 20)} for i, s in enumerate(case["sizes"])]
    ds = make(cls, "gen", recs)
    what = f"{cls}, records of {case['sizes']} MB"
    for _ in range(2):
        got = list(ds)
        ctx.expect(got == recs, lambda: f"iteration gives {[(r.get('n'), len(r.get('t', ''))) for r in got]} ({what})")
    ctx.expect(ds.count() == len(recs), lambda: f"count {ds.count()} ({what})")
    for i in range(len(recs)):
        ctx.expect(list(ds.get_items(i)) == [recs[i]], lambda: f"get_items({i}) is wrong ({what})")
    ctx.step(len(recs) + 3)
    ctx.state([cls, case["sizes"]])


def gone(ctx, case):
    cls, how = case["cls"], case["how"]
    folder = os.path.join(env.SCRATCH, f"c17-{os.getpid()}")
    os.makedirs(folder, exist_ok=True)
    was, tempfile.tempdir = tempfile.tempdir, folder
    try:
        recs = records(300)
        if how == "failed":

            def source():
                yield recs[0]
                raise KeyError("source")

            ds = None
            try:
                ds = make(cls, "list", recs) if cls == "LIST" else DictSet(source(), storage_class=STORAGE_CLASS[cls])
            except KeyError:
                pass
        else:
            ds = make(cls, "gen", recs if how != "empty" else [])
        keep = []
        if how == "part":
            it = iter(ds)
            next(it)
            del it
        if how == "derived":
            keep.append(ds.take(3))
            keep.append(ds.filter([("a", ">", 1)]))
        if how == "two":
            keep.append(make(cls, "gen", recs[:5]))
        ds = None
        gc.collect()
        if how == "two":
            got = list(keep[0])
            ctx.expect(same(got, recs[:5]), lambda: f"a second DictSet lost its records when the first went: {got!r:.200} ({cls})")
        if how == "derived":
            got = [list(k) for k in keep]
            want = [recs[:3], [r for r in recs if r["a"] > 1]]
            if cls != "LIST":
                ctx.expect(same(got, want), lambda: f"derived DictSets lost their records when the source went ({cls})")
        keep = None
        gc.collect()
        left = os.listdir(folder)
        ctx.expect(not left, lambda: f"files are left in the temporary folder: {left} ({cls}, {how})")
        ctx.step()
        ctx.state([cls, how])
    finally:
        tempfile.tempdir = was
        for f in glob.glob(folder + "/*"):
            os.remove(f)
        os.rmdir(folder)
