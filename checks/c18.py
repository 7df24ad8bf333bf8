"""C18: every DictSet operator on every small sequence of records over an alphabet, against brute-force definitions."""
import copy
import itertools
import json
import math
from fractions import Fraction

from mabel.data.internals.dictset import STORAGE_CLASS, DictSet

from mcheck.core import same
from mcheck.util import chunks

PROPERTY, LEVEL = "C18", "model_checking"
TECHNIQUE = "exhaustive enumeration of record sequences up to a length over a record alphabet, every operator and argument of the real DictSet compared with a brute-force definition"
RULE = (
    "every sequence of records up to the length over an alphabet (missing, null, equal and look-alike values, different key orders) x operator x argument (counts 0..n+1, column lists, both sort directions) x source (list, generator, "
    "storage classes); sort_and_take on every sequence of up to 8 (thorough 10) values with every take; records of up to 1025 columns and sets of 120000 (thorough 300000) records; permutations, key orders and storage classes for the hash; a state is an operator, its argument and its result"
)
ASSUMPTIONS = [
    "columns that are sorted or compared hold values of one comparable kind, or null", "statistics are taken over columns of numbers (min and max also of text) with at least one (two for variance) value and no null",
    "objects in a column told apart by distinct have their keys in one order; 1, 1.0 and True are not mixed in one column",
]
ALPHA = [{}, {"a": 1}, {"a": 2}, {"a": None}, {"a": 1, "b": "x"}, {"b": "x", "a": 1}, {"b": "y", "c": [1, {"d": None}]}, {"a": 1, "b": None}, {"c": {"d": 1}}, {"a": 2, "": 0}]
HASHED = ALPHA[:8] + [{"c": {"d": 1, "e": {"y": [{"n": 1, "m": {}}], "x": None}}}, {"é": 1, "z": 2, "Z": {"\uffff": 1, "\U0001f600": 2}}]
LOOKALIKE = [{"a": "1"}, {"a": 1.0}, {"a": True}, {"a": False}, {"a": 0}, {"b": 1}, {"a": ""}, {"a": []}, {"a": {}}, {"a": "null"}, {"A": 1}, {"a ": 1}, {"c": {"D": 1}}, {"c": {"d": "1"}}, {"c": [{"d": 1}]}]
# values that must be told apart (by type and content), or not
ALIKE = [None, "None", "", "null", 0, "0", "a,b", "a", [], {}, "[]", "{}", ["a", "b"], ["a, b"], "['a', 'b']", "x'", 'x"', "x\\", "\n", "\\n", [None], "é", "e\u0301", [["a"], "b"], [["a", "b"]], {"a": "b"}, {"a": ["b"]}, "1", 1, [1], ["1"], 12, [1, 2]]
NUMBERS = [0, 1, -2, 3, 0.5, 10**12, -0.25]
SORTV = [None, "missing", 1, 2, 3]
TEXTS = ["", "a", "B", "b", "é", "ab"]


def units(tier):
    deep = tier == "thorough"
    out = []
    for i in range(16 if deep else 10):
        out.append(["ops", 4 if deep else 3, i, 16 if deep else 10])
    for d in (False, True):
        for src in ("list", "gen", "MEMORY", "COMPRESSED_MEMORY"):
            for i in range(4 if deep else 1):
                out.append(["sort", 8 if deep and src != "COMPRESSED_MEMORY" else 6 if src in ("list", "gen") else 5, d, src, i, 4 if deep else 1])
    for src in ("list", "gen"):
        out.append(["sortlong", src])
    for i in range(len(ALIKE)):
        out.append(["distinct", i])
    for i in range(4):
        out.append(["stats", 5 if deep else 4, i, 4])
    out.append(["text"])
    for src in ("list", "gen", "MEMORY", "DISK", "COMPRESSED_MEMORY"):
        out.append(["wide", src])
        out.append(["large", src, 300_000 if deep else 120_000])
    for i in range(4):
        out.append(["hash", 4 if deep else 3, i, 4])
    out.append(["hashlong"])
    return out


def part(seq, i, n):
    return itertools.islice(seq, i, None, n)


def seqs(alphabet, n):
    return itertools.chain.from_iterable(itertools.product(range(len(alphabet)), repeat=k) for k in range(n + 1))


def cases(unit):
    k = unit[0]
    if k == "ops":
        for s in part(seqs(ALPHA, unit[1]), unit[2], unit[3]):
            yield {"k": "ops", "records": [ALPHA[i] for i in s]}
    elif k == "sort":
        _, depth, desc, src, i, n = unit
        for d in range(depth + 1):
            for s in part(itertools.product(SORTV if d < depth else SORTV[1:4], repeat=d), i, n):
                yield {"k": "sort", "values": list(s), "desc": desc, "src": src}
    elif k == "sortlong":
        # long enough for the bounded cache to be cut several times
        for n in (7, 10, 13, 21, 40):
            for take in (0, 1, 2, 3, 5):
                for step in (1, 2, 3, 5, 7):
                    for mod in (2, 3, n):
                        for desc in (False, True):
                            yield {"k": "sort", "values": [None if (i * step) % mod == 1 and mod > 2 else (i * step) % mod for i in range(n)], "desc": desc, "src": unit[1], "take": take}
    elif k == "distinct":
        a = ALIKE[unit[1]]
        for b in ALIKE:
            yield {"k": "distinct", "records": [{"v": a, "i": 0}, {"v": b, "i": 1}, {"v": a, "i": 2}, {"v": b, "i": 3}]}
            yield {"k": "distinct", "records": [{"v": a, "w": b, "i": 0}, {"v": b, "w": a, "i": 1}, {"i": 2, "w": b, "v": a}, {"v": a, "i": 3}, {"w": a, "i": 4}, {"i": 5}]}
            yield {"k": "distinct", "records": [{"v": a}, {"v": b}, {"w": a}, {"w": b}, {"v": a, "w": b}, {"w": b, "v": a}, {}]}
            if isinstance(a, str) and isinstance(b, str):
                yield {"k": "distinct", "records": [{a: 1}, {b: 1}, {a: b}, {b: a}, {a: b}, {b: a}, {a: a}]}
    elif k == "stats":
        for s in part(seqs(NUMBERS, unit[1]), unit[2], unit[3]):
            if s:
                for gaps in (0, 1):
                    yield {"k": "stats", "values": [NUMBERS[i] for i in s], "gaps": gaps}
    elif k == "text":
        for s in seqs(TEXTS, 3):
            if s:
                yield {"k": "text", "values": [TEXTS[i] for i in s]}
    elif k == "wide":
        for n in (10, 33, 41, 65, 101, 257, 1025):
            yield {"k": "wide", "n": n, "src": unit[1]}
    elif k == "hashlong":
        for n in (2, 16, 17, 33, 65, 100, 129, 257, 500, 513, 1000, 1025, 2049, 4097, 5001, 8193, 10001, 16385, 33000, 65537):
            yield {"k": "hashlong", "n": n}
    elif k == "large":
        yield {"k": "large", "n": unit[2], "src": unit[1]}
    else:
        for s in part(seqs(ALPHA, unit[1]), unit[2], unit[3]):
            yield {"k": "hash", "records": [HASHED[i] for i in s]}


def make(recs, src):
    if src == "list":
        return DictSet(recs)
    if src == "gen":
        return DictSet(r for r in recs)
    return DictSet(recs, storage_class=STORAGE_CLASS[src])


def uniq(recs, key):
    seen, out = [], []
    for r in recs:
        k = key(r)
        if not any(same(k, s) for s in seen):
            seen.append(k)
            out.append(r)
    return out


def check(ctx, case):
    globals()["do_" + case["k"]](ctx, case)


def compare(ctx, case, recs, name, run, want, srcs=("list", "gen"), arg=None):
    for src in srcs:
        mine = copy.deepcopy(recs)
        got = run(make(mine, src))
        if isinstance(got, DictSet) or hasattr(got, "__next__"):
            got = list(got)
        ctx.expect(same(got, want), lambda: f"{name} of {recs!r} ({src}) gives {got!r}, not {want!r}")
        ctx.expect(same(mine, recs) and [list(r) for r in mine] == [list(r) for r in recs], lambda: f"{name} changed the source records from {recs!r} to {mine!r}")
        ctx.step()
    ctx.state([name, want])


def do_ops(ctx, case):
    recs = case["records"]
    n = len(recs)
    for k in range(n + 2):
        compare(ctx, case, recs, f"take({k})", lambda d: d.take(k), recs[:k], ("list", "gen", "MEMORY"))
        compare(ctx, case, recs, f"itake({k})", lambda d: d.itake(k), recs[:k])
    compare(ctx, case, recs, "first", lambda d: d.first(), recs[0] if recs else None, ("list", "gen", "MEMORY"))
    for cols in (["a"], ["a", "b"], ["z"], ["c", "a", "z"], ["", "a"], "a", ("b", "z"), {"a", "c"}, []):
        names = [cols] if isinstance(cols, str) else cols
        compare(ctx, case, recs, f"select({cols})", lambda d: d.select(cols), [{c: r.get(c) for c in names} for r in recs])
        if isinstance(cols, (list, tuple)):
            got = [list(r) for r in make(copy.deepcopy(recs), "list").select(cols)]
            ctx.expect(all(g == list(cols) for g in got), lambda: f"select({cols}) gives the columns in the order {got[:1]}")
    compare(ctx, case, recs, "project", lambda d: d.project(["b", "a"]), [{c: r.get(c) for c in ("b", "a")} for r in recs], ("list",))
    compare(ctx, case, recs, "[]", lambda d: d["b"], [{"b": r.get("b")} for r in recs], ("list",))
    for every in ("*", ["*"]):
        compare(ctx, case, recs, f"select({every})", lambda d: d.select(every), recs)
    for k in range(n + 2):
        keys = []
        for r in recs[:k] if k else recs:
            keys += [c for c in r if c not in keys]
        compare(ctx, case, recs, f"keys({k})", lambda d: d.keys(k), keys)
    compare(ctx, case, recs, "collect_list()", lambda d: d.collect_list(), recs)
    for c in ("a", "b", "c", "z", ""):
        compare(ctx, case, recs, f"collect_list({c})", lambda d: d.collect_list(c), [r[c] for r in recs if c in r])
    compare(ctx, case, recs, "distinct", lambda d: d.distinct(), uniq(recs, lambda r: r))
    for cols in (["a"], ["b", "a"], ["c"], ["z"]):
        compare(ctx, case, recs, f"distinct({cols})", lambda d: d.distinct(*cols), uniq(recs, lambda r: [r.get(c, ...) for c in cols]))
    compare(ctx, case, recs, "count", lambda d: d.count(), n, ("list", "MEMORY"))
    for src in ("list", "MEMORY"):
        # the same from one DictSet, one after the other
        mine = copy.deepcopy(recs)
        d = make(mine, src)
        both = [list(d.take(2)), d.keys(), list(d.distinct()), d.collect_list("a"), list(d.select(["a"])), d.collect_list()]
        keys = []
        for r in recs:
            keys += [c for c in r if c not in keys]
        want = [recs[:2], keys, uniq(recs, lambda r: r), [r["a"] for r in recs if "a" in r], [{"a": r.get("a")} for r in recs], recs]
        ctx.expect(same(both, want), lambda: f"operators in sequence on {recs!r} give {both!r}, not {want!r}")


def do_wide(ctx, case):
    """records of many columns"""
    n, src = case["n"], case["src"]
    names = [f"c{(i * 7) % n}" for i in range(n)]
    recs = [{c: i for i, c in enumerate(names)}, {c: i for i, c in enumerate(reversed(names))}, {"z": 1}, {c: i for i, c in enumerate(names)}, {c: i + (c == names[-1]) for i, c in enumerate(names)}]
    for name, run, want in (
        ("keys()", lambda d: d.keys(), [*names, "z"]), ("keys(2)", lambda d: d.keys(2), names), ("distinct", lambda d: d.distinct(), recs[:3] + recs[4:]),
        ("select", lambda d: d.select(names), [{c: r.get(c) for c in names} for r in recs]), ("distinct on all columns", lambda d: d.distinct(*names), recs[:3] + recs[4:]), ("hash", lambda d: hash(d), hash(DictSet(recs[::-1]))),
        ("collect_list", lambda d: d.collect_list(names[-1]), [r[names[-1]] for r in recs if names[-1] in r]), ("types", lambda d: len(d.types()), n + 1),
    ):
        compare(ctx, case, recs, f"{name} of records with {n} columns", run, want, (src,))


def do_large(ctx, case):
    """enough records for caches, buffers and limits to show"""
    n, src = case["n"], case["src"]
    fresh = lambda: make([{"i": i, "k": f"k{i % (n - 5)}"} for i in range(n)], src)
    last = lambda it: [(r["i"], r["k"]) for r in it]
    all_ = [(i, f"k{i % (n - 5)}") for i in range(n)]
    for name, got, want in (
        ("take", lambda: last(fresh().take(n - 7)), all_[: n - 7]), ("itake(n+1)", lambda: last(fresh().itake(n + 1)), all_), ("distinct(k)", lambda: last(fresh().distinct("k")), all_[: n - 5]),
        ("distinct", lambda: last(fresh().distinct()), all_), ("collect_list", lambda: fresh().collect_list("i"), list(range(n))), ("select", lambda: [r["i"] for r in fresh()["i"]], list(range(n))),
        ("filter", lambda: last(fresh().filter(lambda r: r["i"] % 2)), all_[1::2]), ("filter", lambda: last(fresh().filter(("i", ">=", 1))), all_[1:]), ("filter", lambda: last(fresh().filter("i >= 1")), all_[1:]),
        ("sort_and_take", lambda: last(fresh().sort_and_take("i", n, True)), all_[::-1]), ("sort_and_take(6000)", lambda: last(fresh().sort_and_take("i", 6000, True)), all_[: -6001 : -1]),
        ("sum, min, max, mean", lambda: [fresh().sum("i"), fresh().min("i"), fresh().max("i"), float(fresh().mean("i"))], [n * (n - 1) // 2, 0, n - 1, (n - 1) / 2]), ("keys", lambda: fresh().keys(n), ["i", "k"]),
    ):
        value = got()
        ok = value == want
        bad = None if ok or not isinstance(value, list) else next((i for i, (a, b) in enumerate(zip(value, want)) if a != b), "the length")
        ctx.expect(ok, lambda: f"{name} of {n} records ({src}) gives {len(value) if isinstance(value, list) else value} instead of {len(want) if isinstance(want, list) else want}, first difference at {bad}")
        ctx.step(n)
        ctx.state([name, n])
    # columns that only come up late
    recs = [{"a": 1}] * (n // 10) + [{"b": 1}]
    for k, want in ((0, ["a", "b"]), (n // 10, ["a"]), (n // 10 + 1, ["a", "b"])):
        got = make(recs, src).keys(k)
        ctx.expect(got == want, lambda: f"keys({k}) of {len(recs)} records ({src}) gives {got}, not {want}")


def do_sort(ctx, case):
    recs = []
    for i, v in enumerate(case["values"]):
        r = {"i": i}
        if v != "missing":
            r["v"] = v
        recs.append(r)
    full = sorted(recs, key=lambda r: (r.get("v") is not None, r.get("v") if r.get("v") is not None else 0), reverse=case["desc"])
    for take in [case["take"]] if "take" in case else range(len(recs) + 2):
        compare(ctx, case, recs, f"sort_and_take(v, {take}, {case['desc']})", lambda d: d.sort_and_take("v", take, case["desc"]), full[:take], (case["src"],))


def do_distinct(ctx, case):
    recs = case["records"]
    compare(ctx, case, recs, "distinct", lambda d: d.distinct(), uniq(recs, lambda r: r))
    for cols in (["v"], ["w"], ["v", "w"], ["i", "v"]):
        compare(ctx, case, recs, f"distinct({cols})", lambda d: d.distinct(*cols), uniq(recs, lambda r: [r.get(c, ...) for c in cols]), ("list",))


def close(a, b):
    return a == b or (math.isfinite(a) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)))


def do_stats(ctx, case):
    vals = case["values"]
    recs = []
    for i, v in enumerate(vals):
        if case["gaps"] and i != 1:
            recs.append({"o": 5})
        recs.append({"v": v, "o": -i})
    if case["gaps"]:
        recs.append({})
    fr = [Fraction(v) for v in vals]
    mean = sum(fr) / len(fr)
    want = {"min": min(fr), "max": max(fr), "sum": sum(fr), "mean": mean}
    if len(fr) > 1:
        want["variance"] = sum((f - mean) ** 2 for f in fr) / (len(fr) - 1)
        want["standard_deviation"] = math.sqrt(want["variance"])
    keep = copy.deepcopy(recs)
    for src in ("list", "gen"):
        for name, w in want.items():
            got = getattr(make(recs, src), name)("v")
            ctx.expect(close(float(got), float(w)), lambda: f"{name} of {vals} is {got}, not {float(w)}")
        got = make(recs, src).min_max("v")
        ctx.expect(tuple(got) == (min(vals), max(vals)), lambda: f"min_max of {vals} is {got}")
        ctx.step(len(want))
    ctx.expect(same(recs, keep), lambda: "statistics changed the records")
    ctx.state([vals])


def do_text(ctx, case):
    vals = case["values"]
    recs = [{"v": v} for v in vals] + [{}]
    for src in ("list", "gen"):
        got = [make(recs, src).min("v"), make(recs, src).max("v"), tuple(make(recs, src).min_max("v"))]
        ctx.expect(got == [min(vals), max(vals), (min(vals), max(vals))], lambda: f"min, max, min_max of {vals} are {got}")
        ctx.step(3)
    ctx.state(vals)


def do_hash(ctx, case):
    recs = case["records"]
    want = hash(DictSet(copy.deepcopy(recs)))
    for perm in itertools.permutations(range(len(recs))):
        for flip in (False, True):
            mine = [flipped(recs[i]) if flip else dict(recs[i]) for i in perm]
            for src in ("list", "gen", "MEMORY", "COMPRESSED_MEMORY", "DISK") if perm == tuple(range(len(recs))) else ("list",):
                keep = copy.deepcopy(mine)
                got = hash(make(mine, src))
                ctx.expect(got == want, lambda: f"the hash of {mine} ({src}) is {got}, that of {recs} is {want}")
                ctx.expect(same(mine, keep), lambda: "the hash changed the records")
                ctx.step()
    ctx.state([recs, want])
    # other records, another hash (records that repeat cancel each other out)
    canon = lambda rs: sorted(json.dumps(r, sort_keys=True) for r in rs)
    mine = canon(recs)
    if len(set(mine)) < len(mine):
        return
    others = [recs[:i] + recs[i + 1 :] for i in range(len(recs))] + [recs[:i] + [x] + recs[i + 1 :] for i in range(len(recs)) for x in HASHED + LOOKALIKE] + [recs + [x] for x in HASHED]
    for o in others:
        theirs = canon(o)
        if len(set(theirs)) == len(theirs) and theirs != mine:
            ctx.expect(hash(DictSet(copy.deepcopy(o))) != want, lambda: f"{o} and {recs} have the same hash")
            ctx.step()


def do_hashlong(ctx, case):
    """a difference anywhere in a long record or among many records changes the hash, the order of them does not"""
    n = case["n"]
    base = "ab" * n
    long = [base, base[:-1] + "c", "c" + base[1:], base[:n] + "c" + base[n + 1 :], base[:-1], base + "b"]
    seen = {}
    for how in (lambda v: [{"v": v}], lambda v: [{"v": list(v)}], lambda v: [{"k": 1}, {"w": {v: 1}}]):
        for v in long:
            recs = how(v)
            h = hash(DictSet(recs))
            ctx.expect(seen.setdefault(h, recs) is recs, lambda: f"records with values of {len(v)} characters that differ have the same hash")
            ctx.expect(hash(DictSet(recs[::-1], storage_class=STORAGE_CLASS.MEMORY)) == h, "the hash of long records differs in memory")
            ctx.step(2)
    many = [{"i": i, "t": f"x{i}"} for i in range(n)]
    h = hash(DictSet(many))
    for i in {0, n // 3, n - 1}:
        ctx.expect(hash(DictSet(many[:i] + [{"i": -1}] + many[i + 1 :])) != h, lambda: f"replacing record {i} of {n} leaves the hash the same")
        ctx.expect(hash(DictSet(many[i:] + many[:i])) == h, lambda: f"the hash of {n} records depends on their order")
        ctx.step(2)
    ctx.state([n])


def flipped(v):
    """the same value with the keys of every object in the other order"""
    if isinstance(v, dict):
        return {k: flipped(x) for k, x in reversed(v.items())}
    return [flipped(x) for x in v] if isinstance(v, list) else v
