"""C22: every DNF predicate over a value alphabet and every formula shape up to a size, against direct evaluation."""
import copy
import itertools
import re

from mabel.data import Reader
from mabel.data.internals.dictset import STORAGE_CLASS, DictSet
from mabel.data.internals.dnf_filters import DnfFilters

from mcheck.core import same
from mcheck.store import Store, lines

PROPERTY, LEVEL = "C22", "model_checking"
TECHNIQUE = "exhaustive enumeration of DNF predicates over every operator and a value alphabet, and of formulas up to a size over every assignment, evaluated by the real DictSet.filter, DnfFilters and Reader and by direct evaluation"
RULE = (
    "every operator in every letter case x column values and literals of each comparable kind x present, null and missing columns; every formula of up to 3 conjuncts and up to 3 disjuncts of up to 2 (thorough 3) conjuncts over predicates "
    "on three columns and every assignment of true, false, null and missing; formulas with 4 to 40 conditions in one conjunction or as many disjuncts over every (or every almost uniform) assignment; groups of up to 1025 values and groups with None; up to 5001 (thorough 30011) records; filters given to DictSet, to persisted DictSets and to the Reader over one or several blobs; a state is a formula and the records it keeps"
)
ASSUMPTIONS = ["present values are comparable with the literals", "a formula is a tuple, a list of tuples or a list of lists of tuples"]

OPS = {
    "=": lambda a, b: a == b, "==": lambda a, b: a == b, "is": lambda a, b: a == b, "!=": lambda a, b: a != b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
    "in": lambda a, b: any(a == x for x in b), "!in": lambda a, b: not any(a == x for x in b), "not in": lambda a, b: not any(a == x for x in b),
}
NUMS = [0, 1, -1, 2.5, 10**12, -0.0]
TEXTS = ["", "a", "A", "ab", "b", "a%b", "a_b", "é", "a\nb", "10", "9"]
PATTERNS = ["", "a", "A%", "%b", "_", "a_b", "a%b", "%", "10", "é", "%\n%"]
REGEX = ["a", "^a", "b$", "[ab]{2}", ".", "a.b", "^$", "A", "1|9", "é"]
GROUPS = [[], [1], [0, 2.5], ["a"], ["ab", ""], ("a", "b"), {"a", "10"}, [1, "a"], [None], [None, 1], ("a", None), ["z"] * 3 + ["a", "z", "a"]]
LISTS = [[], ["a"], ["a", "b", 1], [1, 2.5], [None]]
CASES = {"plain": lambda s: s, "upper": str.upper, "title": str.title}


def units(tier):
    deep = tier == "thorough"
    out = [["single", c] for c in CASES]
    out += [["pair", i, 8] for i in range(8)]
    out += [["formula", 3 if deep else 2, i, 16] for i in range(16)]
    out += [["reader"], ["none"], ["group"]]
    out += [["long", n] for n in ((4, 5, 6, 7, 8, 9, 20, 40) if not deep else (4, 5, 6, 7, 8, 9, 10, 12, 20, 40, 200))]
    out += [["many", n] for n in ((1000, 5001) if not deep else (1000, 5001, 30011))]
    return out


def singles():
    """(values, operator, literal)"""
    for op in ("=", "==", "is", "!=", "<>", "<", ">", "<=", ">="):
        for l in NUMS:
            yield NUMS, op, l
        for l in TEXTS:
            yield TEXTS, op, l
    for op in ("=", "==", "is", "!=", "<>"):
        for l in (True, False):
            yield [True, False, "a"], op, l
        for l in LISTS:
            yield LISTS, op, l
        yield NUMS + TEXTS + LISTS, op, "a"
        yield NUMS + TEXTS + LISTS, op, 2.5
    for p in PATTERNS:
        yield TEXTS + [10, 9], "like", p
    for p in REGEX:
        for op in ("matches", "~"):
            yield TEXTS, op, p
    for g in GROUPS:
        for op in ("in", "!in", "not in"):
            yield NUMS + TEXTS, op, g
    for g in ([["a"], 1], [[], ["a", "b", 1], "x"], [], ["a", 1], (["a"],), [["b"]]):
        for op in ("in", "!in", "not in"):
            yield LISTS + ["a", 1], op, g
    for op in ("contains", "!contains"):
        for l in ("a", "", "b", "%"):
            yield TEXTS + LISTS, op, l
        for l in (1, 2.5, 7):
            yield LISTS, op, l


def like(text, pattern):
    text, pattern = str(text).lower(), pattern.lower()
    row = [True] + [False] * len(text)
    for p in pattern:
        if p == "%":
            for i in range(1, len(text) + 1):
                row[i] = row[i] or row[i - 1]
        else:
            row = [False] + [row[i] and (p == "_" or p == text[i]) for i in range(len(text))]
    return row[-1]


def one(pred, rec):
    k, op, lit = pred
    v = rec.get(k)
    if v is None:
        return False
    op = op.lower()
    if op in OPS:
        return bool(OPS[op](v, lit))
    if op == "like":
        return like(v, lit)
    if op in ("matches", "~"):
        return re.search(lit, v) is not None
    inside = lit in v if isinstance(v, str) else any(lit == x for x in v)
    return inside if op == "contains" else not inside


def truth(f, rec):
    if isinstance(f, tuple):
        return one(f, rec)
    if all(isinstance(p, tuple) for p in f):
        return all(one(p, rec) for p in f)
    return any(truth(p, rec) for p in f)


def freeze(f):
    """JSON turns tuples into lists: a predicate is written as a dictionary"""
    if isinstance(f, tuple):
        k, op, lit = f
        return {"p": [k, op, ["tuple" if isinstance(lit, tuple) else "set" if isinstance(lit, set) else "", sorted(lit) if isinstance(lit, set) else list(lit) if isinstance(lit, tuple) else lit]]}
    return [freeze(x) for x in f]


def thaw(f):
    if isinstance(f, dict):
        k, op, (kind, lit) = f["p"]
        return (k, op, tuple(lit) if kind == "tuple" else set(lit) if kind == "set" else lit)
    return [thaw(x) for x in f]


PREDS = {
    "a": [("a", "=", 1), ("a", ">", 1), ("a", "!=", 1), ("a", "in", [1, 5])],
    "b": [("b", "like", "x%"), ("b", "CONTAINS", "x"), ("b", "<>", "y")],
    "c": [("c", "contains", 1), ("c", "!Contains", 1)],
}
SAME = [("a", "=", 2), ("a", "!=", 2), ("a", ">", 0), ("a", "in", [2]), ("b", "like", "y%"), ("b", "CONTAINS", "y"), ("b", "<>", "x"), ("c", "contains", 2), ("c", "!Contains", 2)]
ASSIGN = {"a": ["missing", None, 1, 2], "b": ["missing", None, "x", "y"], "c": ["missing", None, [1], [2]]}


def cases(unit):
    k = unit[0]
    if k == "single":
        for values, op, lit in singles():
            pred = ("v", CASES[unit[1]](op), lit)
            for f in (pred, [pred], [[pred]], [[pred], [pred]]):
                yield {"k": "f", "f": freeze(f), "values": values, "full": f is pred}
    elif k == "pair":
        preds = [p for ps in PREDS.values() for p in ps]
        j = 0
        for a, b in itertools.product(preds + SAME, repeat=2):
            for f in ([a, b], [[a], [b]], [[a, b]], [[a, b], [b]], [[a, b], [a], [b, b]]):
                j += 1
                if j % unit[2] == unit[1]:
                    yield {"k": "g", "f": freeze(f)}
    elif k == "formula":
        _, width, i, n = unit
        preds = [ps[0] for ps in PREDS.values()] + [PREDS["a"][1], PREDS["c"][1]]
        conj = [list(c) for r in range(1, width + 1) for c in itertools.product(preds, repeat=r)]
        j = 0
        for r in (1, 2, 3):
            for f in itertools.product(conj if r < 3 or width < 3 else conj[::7], repeat=r):
                j += 1
                if j % n == i and (r < 3 or j % 3 == 0):
                    yield {"k": "g", "f": freeze(list(f))}
        more = preds + PREDS["a"][2:3] + [SAME[0], SAME[1], SAME[4], SAME[7]]
        for c in itertools.product(more, repeat=3):
            for f in (list(c), [[c[0]], [c[1]], [c[2]]], [[c[0], c[1]], [c[2]]]):
                j += 1
                if j % n == i:
                    yield {"k": "g", "f": freeze(f)}
    elif k == "long":
        n = unit[1]
        preds = [("abcd"[i % 4] + str(i), "=" if i % 3 else "!=", 1) for i in range(n)]
        for f in (preds, [preds], [[p] for p in preds], [preds[: n // 2], preds[n // 2 :]], [[preds[0]], *([p, q] for p, q in zip(preds[1:], preds[2:]))], [[preds[-1]], preds[:-1]]):
            yield {"k": "long", "f": freeze(f), "n": n}
    elif k == "many":
        for f in (("v", "=", 1), [("v", ">", 0), ("i", "<", unit[1] - 1)], [[("v", "=", 2)], [("i", ">=", unit[1] - 1)]], ("i", "in", list(range(0, unit[1], 3))), ("i", "not in", list(range(0, unit[1], 7)))):
            yield {"k": "many", "f": freeze(f), "n": unit[1]}
    elif k == "group":
        for n in (1, 2, 9, 10, 11, 16, 17, 32, 33, 64, 100, 101, 128, 256, 257, 1000, 1025):
            for kind in (list, tuple, set):
                for op in ("in", "!in", "not in"):
                    yield {"k": "f", "f": freeze(("v", op, kind(range(n)))), "values": [-1, 0, n // 2, n - 2, n - 1, n, 1.5], "full": False}
                    yield {"k": "f", "f": freeze(("v", op, kind(f"t{j}" for j in range(n)))), "values": ["", "t0", f"t{n-1}", f"t{n}", "T0"], "full": False}
            for op in ("contains", "!contains"):
                yield {"k": "f", "f": freeze(("v", op, n - 1)), "values": [list(range(n)), list(range(n - 1)), list(range(n, 0, -1)), [n]], "full": False}
                yield {"k": "f", "f": freeze(("v", op, "b")), "values": ["a" * n + "b", "a" * n, "b" + "a" * n], "full": False}
    elif k == "reader":
        for values, op, lit in singles():
            yield {"k": "reader", "f": freeze(("v", op, lit)), "values": values}
    else:
        for f in (None, []):
            yield {"k": "none", "f": f}


def records(values):
    recs = [{"i": i, "v": v} for i, v in enumerate(values)]
    return recs[:1] + [{"i": 98}, {"i": 99, "v": None}] + recs[1:] + [{"i": 97, "w": 1}]


_assignments = []


def assignments():
    if not _assignments:
        for i, vals in enumerate(itertools.product(*ASSIGN.values())):
            r = {"i": i}
            for n, v in zip(ASSIGN, vals):
                if not (isinstance(v, str) and v == "missing"):
                    r[n] = v
            _assignments.append(r)
    return copy.deepcopy(_assignments)


def flags(n):
    """records with every assignment (for many columns: none, one, all but one and all) of meeting the n conditions"""
    names = ["abcd"[i % 4] + str(i) for i in range(n)]
    if n <= 8:
        bits = itertools.product((0, 1), repeat=n)
    else:
        bits = [[b ^ (j == i) for j in range(n)] for b in (0, 1) for i in range(n + 1)]
    return [{"i": k, **{c: (v if i % 3 else 1 - v) for i, (c, v) in enumerate(zip(names, row))}} for k, row in enumerate(bits)]


def read(recs, f, blobs):
    store = Store()
    for b in range(blobs):
        store.put(f"bucket/data/year_2020/month_02/day_03/b{b}.jsonl", lines(recs[b::blobs]))
    return list(Reader(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03", filters=f))


def check(ctx, case):
    if case["k"] == "none":
        recs = records(NUMS + TEXTS) + [{}]
        f = case["f"]
        ctx.expect(same(read(recs, f, 1), recs), lambda: f"Reader(filters={f}) does not keep every record")
        got = list(DnfFilters(f).filter_dictset(iter(recs)))
        ctx.expect(same(got, recs), lambda: f"DnfFilters({f}) keeps {got}")
        ctx.expect(all(DnfFilters(f)(r) for r in recs), lambda: f"DnfFilters({f}) drops records")
        if f is not None:
            got = list(DictSet(recs).filter(f))
            ctx.expect(same(got, recs), lambda: f"filter({f}) keeps {got}")
        ctx.step(3)
        return
    f = thaw(case["f"])
    if case["k"] == "long":
        recs = flags(case["n"])
    elif case["k"] == "many":
        recs = [{"i": i, "v": i % 3} for i in range(case["n"])]
    else:
        recs = assignments() if case["k"] == "g" else records(case["values"])
    keep, fkeep = copy.deepcopy(recs), copy.deepcopy(f)
    want = [r for r in keep if truth(f, r)]

    def judge(got, what):
        ctx.expect(same(got, want), lambda: f"{what} {f!r} wrongly keeps {[r for r in got if r not in want][:4]} and drops {[r for r in want if r not in got][:4]}")
        ctx.expect(same(recs, keep) and f == fkeep, lambda: f"{what} {f!r} changed the records or the filter")
        ctx.step(len(recs))

    if case["k"] == "reader":
        judge(read(recs, f, 1), "Reader")
        blobs = 3
        want = [r for b in range(blobs) for r in keep[b::blobs] if truth(f, r)]
        judge(read(recs, f, blobs), "Reader over three blobs")
    else:
        judge(list(DictSet(recs).filter(f)), "filter")
        d = DnfFilters(f)
        for _ in range(2):
            judge([r for r in recs if d(r)], "DnfFilters")
        if case.get("full"):
            judge(list(DictSet((r for r in recs)).filter(f)), "filter of a generator")
            judge(list(DictSet(recs, storage_class=STORAGE_CLASS.MEMORY).filter(f)), "filter in memory")
        elif case["k"] in ("long", "many"):
            judge(read(recs, f, 1), "Reader")
            judge(list(DictSet(recs, storage_class=STORAGE_CLASS.MEMORY).filter(f)), "filter in memory")
        elif case["k"] == "g" and len(str(f)) % 7 == 0:
            judge(read(recs, f, 1), "Reader")
    ctx.state([case["f"], [r["i"] for r in want]])
