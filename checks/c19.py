"""C19: grouping, aggregation and collected sets over every small sequence of records, against brute force."""
import copy
import itertools
from fractions import Fraction

from mabel.data.internals.dictset import STORAGE_CLASS, DictSet

from mcheck.core import same

PROPERTY, LEVEL = "C19", "model_checking"
TECHNIQUE = "exhaustive enumeration of record sequences and of aggregation lists on the real GroupBy and CollectedSet, compared with a brute-force computation"
RULE = (
    "every sequence of up to 3 (4 with fewer lists, thorough 4 and 5) records over an alphabet of group values (missing, null, look-alikes) x aggregated values (missing, null, integer, fraction, text), every single aggregation, every "
    "ordered pair and several full lists, one and two grouping columns, given as text, list, tuple or set, over list, generator and persisted sources; every pair of look-alike group values of different type or content; collect_set "
    "with every selection; up to 150000 (thorough 1000000) groups; up to 1025 grouping columns and aggregated columns, groups of up to 10001 records and values of up to 100001 characters or items that differ in one place; a state is the set of result rows"
)
ASSUMPTIONS = ["SUM and AVG over numbers, MIN and MAX over values of one kind", "values of nested objects have their keys in one order", "collected columns hold hashable values that are not equal across types", "a GroupBy is used for one aggregation"]
MISSING = object()
GROUPS = ["missing", None, 1, "1"]
NUMS = ["missing", None, 0, 2, -0.5]
TEXT = ["missing", None, "", "b", "a"]
AGGS = [("COUNT", "*"), ("COUNT", "v"), ("SUM", "v"), ("MIN", "v"), ("MAX", "v"), ("AVG", "v")]
LISTS = [AGGS, AGGS[::-1], [("AVG", "v"), ("COUNT", "v"), ("AVG", "v")], [("SUM", "v"), ("AVG", "v"), ("SUM", "v"), ("COUNT", "*")], [("AVG", "v"), ("AVG", "w"), ("MAX", "w"), ("COUNT", "v")], [("COUNT", "w"), ("MIN", "g"), ("MAX", "v")]]
ALIKE = [
    None, "None", "", "null", 0, 0.0, False, "0", "False", 1, 1.0, True, "1", "1.0", "a", "a'", 'a"', "a, b", "a', 'b", ["a", "b"], ["a, b"], [], [None], {}, "[]", "{}", {"a": 1}, {"a": "1"}, {"a": None}, [[1], 2], [[1, 2]], "\n", "\\n", "é",
    "e\u0301", 10**18, 10**18 + 1, 1e18, 12, [1, 2], [2, 1], ["b", "a"], [1, 1, 2], {"a": 1, "b": 2}, {"a": 2, "b": 1}, "A", "a\\", " a", "a ",
]
SIZES = [*range(3, 18), 20, 21, 25, 26, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
LONG = [2047, 2048, 2049, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100001]


def units(tier):
    deep = tier == "thorough"
    out = []
    for i in range(8):
        out.append(["one", 3, "full", i, 8])
    for i in range(16 if deep else 8):
        out.append(["one", 4, "lists", i, 16 if deep else 8])
    for i in range(4):
        out.append(["textual", 3, i, 4])
    for i in range(8):
        out.append(["two", 4 if deep else 3, i, 8])
    for i in range(0, len(ALIKE), 4):
        out.append(["alike", i])
    for i in range(4):
        out.append(["collect", 4 if deep else 3, i, 4])
        out.append(["collect2", 4 if deep else 3, i, 4])
    for n in (300, 5000, 70000, 150000) + ((1_000_000,) if deep else ()):
        out += [["many", n, kind] for kind in ("int", "text", "pair")]
    for what in ("cols", "text", "list", "rows", "aggs"):
        out.append(["grown", what])
    if deep:
        for i in range(32):
            out.append(["one", 5, "some", i, 32])
    return out


def rec(**kw):
    return {k: v for k, v in kw.items() if not (isinstance(v, str) and v == "missing")}


def seqs(alphabet, lo, hi):
    return itertools.chain.from_iterable(itertools.product(alphabet, repeat=k) for k in range(lo, hi + 1))


def part(seq, i, n):
    return itertools.islice(seq, i, None, n)


def cases(unit):
    k = unit[0]
    if k == "one":
        _, depth, mode, i, n = unit
        nums = NUMS if mode != "some" else NUMS[1:4]
        alpha = [rec(g=g, v=v, w=None if v == 2 else 7) for g in (GROUPS if mode == "full" else GROUPS[1:] if mode == "lists" else GROUPS[2:]) for v in nums]
        for s in part(seqs(alpha, 0 if mode == "full" else depth, depth), i, n):
            yield {"k": "group", "records": list(s), "by": ["g"], "mode": mode}
    elif k == "textual":
        _, depth, i, n = unit
        alpha = [rec(g=g, v=v) for g in GROUPS for v in TEXT]
        for s in part(seqs(alpha, 0, depth), i, n):
            yield {"k": "group", "records": list(s), "by": ["g"], "mode": "text"}
    elif k == "two":
        _, depth, i, n = unit
        alpha = [rec(g=g, h=h, v=v) for g in ("missing", None, "x") for h in ("missing", None, "x", "y") for v in (3, None)]
        for s in part(seqs(alpha, 0, depth), i, n):
            yield {"k": "group", "records": list(s), "by": ["g", "h"], "mode": "lists" if depth < 4 else "last"}
    elif k == "alike":
        for a in ALIKE[unit[1] : unit[1] + 4]:
            for b in ALIKE:
                yield {"k": "group", "records": [{"g": a, "v": 1}, {"g": b, "v": 2}, {"v": 4, "g": a}, {"g": b, "v": 8}], "by": ["g"], "mode": "last"}
                yield {"k": "group", "records": [{"g": a, "h": b, "v": 1}, {"g": b, "h": a, "v": 2}, {"v": 4, "g": a}, {"h": a, "v": 8}, {"v": 16, "h": b, "g": a}], "by": ["g", "h"], "mode": "last"}
    elif k == "many":
        yield {"k": "many", "n": unit[1], "kind": unit[2]}
    elif k == "grown":
        for n in SIZES + (LONG if unit[1] in ("text", "list") else LONG[:14] if unit[1] == "rows" else []):
            yield {"k": "grown", "what": unit[1], "n": n}
    elif k == "collect2":
        _, depth, i, n = unit
        alpha = [rec(g=g, v=v) for g in (1, "1", "x", " x", "X") for v in (1, 2)] + [rec(g="x", v="missing", w=[1, {"a": 2}]), rec(g=None, w={"a": [1]})]
        for s in part(seqs(alpha, 0, depth), i, n):
            yield {"k": "collect", "records": list(s)}
    else:
        _, depth, i, n = unit
        alpha = [rec(g=g, v=v) for g in ("missing", None, 1, "x") for v in ("missing", None, 0, 2)]
        for s in part(seqs(alpha, 0, depth), i, n):
            yield {"k": "collect", "records": list(s)}


def brute(recs, by, aggs):
    groups = []
    for r in recs:
        key = [r.get(c) for c in by]
        for k, rows in groups:
            if same(k, key):
                rows.append(r)
                break
        else:
            groups.append((key, [r]))
    out = []
    for key, rows in groups:
        row = {}
        for f, c in aggs:
            vals = [r[c] for r in rows if r.get(c) is not None]
            if f == "COUNT":
                v = len(rows) if c == "*" else len(vals)
            elif not vals:
                v = None
            elif f == "SUM":
                v = sum(map(Fraction, vals))
            elif f == "AVG":
                v = sum(map(Fraction, vals)) / len(vals)
            else:
                v = min(vals) if f == "MIN" else max(vals)
            row[f"{f}({c})"] = v
        out.append((row, dict(zip(by, key))))
    return out


def row_is(got, want, keys):
    if set(got) != set(want) | set(keys):
        return False
    for k, v in keys.items():
        if not same(got[k], v):
            return False
    for k, w in want.items():
        if k in keys:
            continue
        g = got[k]
        if w is None or isinstance(w, str):
            if g != w:
                return False
        elif isinstance(g, (str, bytes)) or g is None or isinstance(g, bool):
            return False
        elif k.startswith("COUNT") and not (type(g) is int and g == w):
            return False
        elif abs(Fraction(g) - Fraction(w)) > abs(Fraction(w)) / 10**9:
            return False
    return True


def match(got, want):
    left = list(got)
    if len(left) != len(want):
        return False
    for row, keys in want:
        for i, g in enumerate(left):
            if row_is(g, row, keys):
                del left[i]
                break
        else:
            return False
    return True


def check(ctx, case):
    {"collect": collect, "many": many, "grown": grown}.get(case["k"], group)(ctx, case)


def many(ctx, case):
    """so many groups that shortened hashes, limits and thresholds show"""
    n, kind = case["n"], case["kind"]
    key = {"int": lambda i: {"g": i}, "text": lambda i: {"g": f"t{i}"}, "pair": lambda i: {"g": i % 997, "h": i // 997}}[kind]
    by = ["g", "h"] if kind == "pair" else "g"
    recs = lambda: ({**key(i % n), "v": i % 7} for i in range(n + n // 2))
    ds = DictSet(recs())
    rows = list(ds.group_by(by).aggregate([("COUNT", "*"), ("SUM", "v")]))
    want = {}
    for r in recs():
        c = want.setdefault((r["g"], r.get("h")), [0, 0])
        c[0] += 1
        c[1] += r["v"]
    ctx.step(len(want))
    got = {(r["g"], r.get("h")): [r["COUNT(*)"], int(r["SUM(v)"])] for r in rows}
    bad = next((k for k in want if got.get(k) != want[k]), None)
    ctx.expect(len(rows) == len(want) == len(got) and bad is None, lambda: f"{n} groups ({kind}): {len(rows)} rows, first wrong group {bad}: {got.get(bad)} should be {want.get(bad)}")
    if n <= 5000:
        groups = list(DictSet(recs()).group_by(by).groups())
        ctx.expect(len(groups) == len(want), lambda: f"groups() lists {len(groups)} of {len(want)} groups")
    if kind != "pair":
        c = DictSet(recs()).collect_set("g", dedupe=n == 5000)
        ctx.expect(len(c) == n and sum(c.count().values()) == n + n // 2, lambda: f"collect_set of {n} groups has {len(c)} groups of {sum(c.count().values())} records")
    ctx.state([n, kind, len(got)])


def grown(ctx, case):
    """one dimension at size n: grouping columns, text and lists that differ in one place, records of a group, aggregations"""
    what, n = case["what"], case["n"]
    if what == "cols":
        by = [f"c{i}" for i in range(n)]
        base = {c: 1 for c in by}
        recs = [{**base, "v": 1}, {**base, by[-1]: 2, "v": 2}, {**{c: 1 for c in by[1:]}, "v": 4}, {**base, "v": 8}, {**base, by[n // 2]: "1", "v": 16}, {**base, by[0]: None, "v": 32}]
        return group(ctx, {"records": recs, "by": by, "mode": "last"})
    if what in ("text", "list"):
        base = "ab" * n
        values = [base, base[:-1] + "c", "c" + base[1:], base[:n] + "c" + base[n + 1 :], base[:-1], base + "a", base]
        if what == "list":
            values = [list(v) if i % 2 else {"x": list(v)} for i in (0, 1) for v in values]
        return group(ctx, {"records": [{"g": v, "v": 2**i} for i, v in enumerate(values)], "by": ["g"], "mode": "last"})
    if what == "rows":
        recs = [{"g": i % 2, "v": None if i % 7 == 3 else i * (-1) ** (i // 2), "w": 7} for i in range(n)]
        return group(ctx, {"records": recs, "by": ["g"], "mode": "lists"})
    cols = [f"v{i}" for i in range(n)]
    recs = [{"g": g, **{c: (i + k) % 11 for i, c in enumerate(cols) if (i + k) % 5}} for k, g in enumerate("xyxx")]
    aggs = [(f, c) for c in cols for f in ("SUM", "COUNT", "MAX", "AVG", "MIN")[: 5 if n < 60 else 2]]
    got = list(DictSet(recs).group_by("g").aggregate(aggs))
    ctx.step(len(aggs))
    ctx.expect(match(got, brute(recs, ["g"], aggs)), lambda: f"{len(aggs)} aggregations give {repr(got)[:2000]}")
    ctx.state([what, n])


def group(ctx, case):
    recs, by, mode = case["records"], case["by"], case["mode"]
    if mode == "full":
        lists = [[a] for a in AGGS] + [list(p) for p in itertools.permutations(AGGS, 2)] + LISTS
    elif mode == "text":
        lists = [[("COUNT", "*")], [("MIN", "v")], [("MAX", "v")], [("MAX", "v"), ("MIN", "v"), ("COUNT", "v")]]
    elif mode == "lists":
        lists = LISTS
    else:
        lists = LISTS[:1]
    forms = [by, tuple(by)] + ([set(by)] if len(by) == 1 or mode != "some" else []) + ([by[0]] if len(by) == 1 else [])
    for n, aggs in enumerate(lists):
        form = forms[n % len(forms)]
        src = ("list", "gen", "MEMORY")[n % 3]
        mine, a, f = copy.deepcopy(recs), list(aggs), copy.copy(form)
        ds = DictSet(mine) if src == "list" else DictSet((r for r in mine)) if src == "gen" else DictSet(mine, storage_class=STORAGE_CLASS.MEMORY)
        got = list(ds.group_by(f).aggregate(a))
        want = brute(recs, by, aggs)
        ctx.expect(match(got, want), lambda: f"{aggs} by {form!r} of {recs!r} ({src}) gives {got!r}, not {[{**k, **r} for r, k in want]!r}")
        ctx.expect(same(mine, recs) and a == list(aggs) and f == form, lambda: f"{aggs} by {form!r} changed its arguments")
        ctx.step()
        ctx.state([aggs, by, sorted(map(repr, got))])
    groups = brute(recs, by, [])
    got = list(DictSet(copy.deepcopy(recs)).group_by(by).groups())
    ctx.expect(match(got, groups), lambda: f"groups() by {by} of {recs!r} gives {got!r}")
    short = {"max": "MAX", "min": "MIN", "sum": "SUM", "average": "AVG"}
    if mode in ("full", "text"):
        for name, func in short.items():
            if mode == "text" and func in ("SUM", "AVG"):
                continue
            for cols in ("v", ["v"], ("v",)):
                got = list(getattr(DictSet(copy.deepcopy(recs)).group_by("g"), name)(cols))
                ctx.expect(match(got, brute(recs, by, [(func, "v")])), lambda: f"{name}({cols}) of {recs!r} gives {got!r}")
        got = list(DictSet(copy.deepcopy(recs)).group_by("g").count())
        ctx.expect(match(got, brute(recs, by, [("COUNT", "*")])), lambda: f"count() of {recs!r} gives {got!r}")
        got = list(DictSet(copy.deepcopy(recs)).group_by("g").aggregate(("COUNT", "v")))
        ctx.expect(match(got, brute(recs, by, [("COUNT", "v")])), lambda: f"aggregate of one tuple of {recs!r} gives {got!r}")
        ctx.step(5)


def bag(items):
    return sorted(map(repr, ({k: r[k] for k in sorted(r)} for r in items)))


def collect(ctx, case):
    recs = case["records"]
    for dedupe in (False, True):
        for src in ("list", "gen", "MEMORY"):
            mine = copy.deepcopy(recs)
            ds = DictSet(mine) if src == "list" else DictSet((r for r in mine)) if src == "gen" else DictSet(mine, storage_class=STORAGE_CLASS.MEMORY)
            c = ds.collect_set("g", dedupe=dedupe)
            want = {}
            for r in recs:
                rest = {k: v for k, v in r.items() if k != "g"}
                rows = want.setdefault(r.get("g"), [])
                if not (dedupe and rest in rows):
                    rows.append(rest)
            what = f"collect_set of {recs!r}, dedupe={dedupe}, {src}"
            ctx.expect(same(mine, recs), lambda: f"{what} changed the records")
            ctx.expect(len(c) == len(want), lambda: f"{what} has {len(c)} groups, not {len(want)}")
            got = c.count()
            ctx.expect(same(got, {k: len(v) for k, v in want.items()}), lambda: f"{what} counts {got}")
            got = sorted(repr((k, sorted(v.items()))) for k, v in c.items())
            ctx.expect(got == sorted(repr((k, sorted(i.items()))) for k, v in want.items() for i in v), lambda: f"{what} has the items {got}")
            for name, fn in (("len", len), ("sum", sum), ("max", lambda v: max(v, default=None)), ("sorted", sorted)):  # v holds numbers
                got = c.aggregate("v", fn)
                w = {k: fn([i["v"] for i in v if i.get("v") is not None]) for k, v in want.items()}
                ctx.expect(same(got, w), lambda: f"{what}: aggregate {name} gives {got}, not {w}")
            got = c.apply(lambda items: bag(items))
            ctx.expect(got == {k: bag(v) for k, v in want.items()}, lambda: f"{what}: apply gives {got}")
            for key in (None, 1, "1", "x", " x", "other"):
                rows = want.get(key, [])
                ctx.expect((key in c) == (key in want), lambda: f"{what}: {key!r} in it is {key in c}")
                if key is not None:
                    ctx.expect(c.count(key) == len(rows), lambda: f"{what}: count({key!r}) is {c.count(key)}")
                sub = c[key]
                ctx.expect(len(sub) == len(rows), lambda: f"{what}: [{key!r}] has {len(sub)} items, not {len(rows)}")
                got = sub["v"]
                ctx.expect(sorted(map(repr, got)) == sorted(repr(i["v"]) for i in rows if "v" in i), lambda: f"{what}: [{key!r}]['v'] is {got}")
                got = sub["v", "z"]
                ctx.expect(bag(got) == bag([{"v": i.get("v"), "z": None} for i in rows]), lambda: f"{what}: [{key!r}]['v', 'z'] is {got}")
                got = sub.get("v")
                ctx.expect((got or []) == sub["v"] and (got is None) == (not sub["v"]), lambda: f"{what}: [{key!r}].get('v') is {got}")
            for keys in ((1, "x"), ["x", None, "other"], (None,), [], ("other",)):
                some = c[keys]
                w = {k: len(v) for k, v in want.items() if k in keys}
                ctx.expect(same(some.count(), w) and len(some) == len(w), lambda: f"{what}: [{keys}] counts {some.count()}, not {w}")
                got = sorted(repr((k, sorted(v.items()))) for k, v in some.items())
                ctx.expect(got == sorted(repr((k, sorted(i.items()))) for k, v in want.items() if k in keys for i in v), lambda: f"{what}: [{keys}] has the items {got}")
            got = c.count()
            ctx.expect(same(got, {k: len(v) for k, v in want.items()}), lambda: f"{what} counts {got} after selections")
            ctx.step(20)
            ctx.state([dedupe, sorted(map(repr, want.items()))])
