"""C35: the helper functions for every small input, and for sizes around the usual limits, against their definitions."""
import copy
import datetime
import functools
import importlib.util
import itertools
import os
import random
import re
import sys
import traceback

import orjson
import orso.logging  # noqa

from mabel.data.internals.histogram import BAR_CHARS, Histogram
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.records import flatten, order, select_record_fields, set_value
from mabel.errors import render_error_stack
from mabel.utils import common, entropy, paths, safe_field_name, text
from mabel.utils.parameter_validator import get_levenshtein_distance

from mcheck import env
from mcheck.core import same

PROPERTY, LEVEL = "C35", "model_checking"
TECHNIQUE = "exhaustive enumeration of inputs, of random words and of exception chains on the real helper functions against brute-force definitions"
RULE = (
    "every nested record up to a size and records of up to 5000 values and 200 levels; every pair of limits and every length with every boundary word of the random source; every configuration file and override; every path of up to four parts; "
    "every sequence of up to four values in histograms of 2 to 12 bins and longer ones; every chain of up to three exceptions at every place of a file; every text of up to four characters; every pair of words of up to four letters; a state is a result"
)
ASSUMPTIONS = ["flattened names contain no separator", "numbers in a histogram are finite", "random helpers draw on os.urandom (with another source their results are judged, not which are possible)", "values of local variables can be printed"]
CASE_SECONDS = 30
SEPARATORS = [".", "_", "->", ""]
LEAVES = [None, 0, "", "x", False, 1.5, (1, 2), b"x", datetime.date(2020, 1, 2)]
SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000]
WORDS = sorted({w for i in range(65) for w in (2**i - 1, 2**i, 2**i + 1, 2**64 - 2**i) if w < 2**64} | set(range(300)))
CHARS = ["a", "Z", "0", " ", "\n", "_", "-", ".", "é", "%", "'"]
LETTERS = ["", "a", "b", "A", "é"]
MOMENT = int(datetime.datetime(2024, 2, 29, 23, 58, 57, tzinfo=datetime.timezone.utc).timestamp()) * env.NS
NUMBERS = [0, 1, -1, 2, 10, 0.5, -2.5, 1000000]


def units(tier):
    deep = tier == "thorough"
    out = [["flatten", s, 4 if deep else 3] for s in range(len(SEPARATORS))] + [["flatbig"], ["fields"]]
    out += [["range", lo] for lo in range(-4, 5)] + [*[["wide", i] for i in range(5)], ["choice"], ["string"]]
    out += [["context"], ["paths"], ["dates"], ["files"]]
    out += [["hist", n, 5 if deep else 4] for n in range(2, 13)] + [["histbig"]]
    out += [["stack", before, 3] for before in range(0, 8)] + [["stackmore"]]
    out += [["text", i, 5 if deep else 4] for i in range(len(CHARS))]
    out += [["words", i, 5 if deep else 4] for i in range(len(LETTERS))] + [["wordslong"]]
    return out


@functools.lru_cache(None)
def trees(size):
    """every nested value of that many nodes (leaves are numbered afterwards)"""
    if size == 1:
        return ["leaf", ("d",), ("l",)]
    out = []
    for kids in range(1, size):
        for split in itertools.product(range(1, size), repeat=kids):
            if sum(split) == size - 1:
                for parts in itertools.product(*(trees(s) for s in split)):
                    out += [("d", *parts), ("l", *parts)]
    return out


def build(tree, counter):
    if tree == "leaf":
        return LEAVES[next(counter) % len(LEAVES)]
    if tree[0] == "l":
        return [build(t, counter) for t in tree[1:]]
    return {k: build(t, counter) for k, t in zip((("a", "b", "0", "é", ""), ("", "b", " ", "0", "a"))[tree[-1] == "leaf"], tree[1:])}


def leaves(value, path):
    if isinstance(value, dict):
        for k, v in value.items():
            yield from leaves(v, path + [k])
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from leaves(v, path + [str(i)])
    else:
        yield path, value


def cases(unit):
    k = unit[0]
    if k == "flatten":
        for size in range(1, unit[2] + 3):
            for i in range(len(trees(size))):
                if trees(size)[i][0] == "d":
                    yield {"k": "flatten", "sep": unit[1], "size": size, "i": i}
    elif k == "flatbig":
        for n in SIZES:
            for kind in ("list", "names", "lists", "records", "deep", "text"):
                if n <= 200 or kind != "deep":
                    yield {"k": "flatbig", "n": n, "kind": kind}
    elif k == "fields":
        names = ["a", "b", "", "A", "a b"]
        for r in itertools.product((0, 1), repeat=len(names)):
            for perm in itertools.islice(itertools.permutations(n for n, x in zip(names, r) if x), 0, 24):
                yield {"k": "fields", "names": list(perm)}
        for n in SIZES:
            yield {"k": "fields", "names": [f"c{(i * 7919) % 100003}" for i in range(n)]}
    elif k == "range":
        for hi in range(unit[1], unit[1] + 12):
            yield {"k": "range", "lo": unit[1], "hi": hi}
    elif k == "wide":
        for n in [*SIZES, 2**15, 2**16 - 1, 2**16, 2**16 + 1, 10**6, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 10**12, 2**53, 2**53 + 1, 2**63 - 1]:
            lo = (0, 1, -n, -n // 2, 10)[unit[1]]
            yield {"k": "range", "lo": lo, "hi": lo + n}
    elif k == "choice":
        for n in SIZES:
            for kind in ("list", "text", "tuple"):
                yield {"k": "choice", "n": n, "kind": kind}
    elif k == "string":
        for n in [*range(0, 301), *SIZES, 65536, 65537]:
            yield {"k": "string", "n": n}
    elif k == "context":
        values = ["absent", 1, None, "x", {"y": 1}, {}, []]
        for name in ("config.json", "other.json"):
            for where in ("", "a", "a/b"):
                for a, c in itertools.product(values, repeat=2):
                    for over in (None, "a", "config", "new"):
                        yield {"k": "context", "name": name, "where": where, "a": a, "c": c, "over": over}
        for body in ("", "{", "{'a': 1}", "nul", '{"a": }', '{"a": 1} x', "\x00"):
            yield {"k": "badcontext", "body": body}
    elif k == "paths":
        names = ["a", "b.c", "data", "x y", "é", "a.b.c", "{date}", ".x", "x."]
        for n in (2, 3, 4):
            for parts in itertools.product(names, repeat=n):
                for end in ("", "/"):
                    yield {"k": "path", "p": "/".join(parts) + end}
        for n in SIZES[:30]:
            for last in ("f.jsonl", "f", "f/", "x" * n + ".parquet"):
                yield {"k": "path", "p": "/".join([f"d{i}" for i in range(n)] + [last])}
    elif k == "dates":
        marks = ["{yyyy}", "{mm}", "{dd}", "{HH}", "{MM}", "{SS}", "x", "{", "/"]
        for n in range(1, 4):
            for parts in itertools.product(marks, repeat=n):
                yield {"k": "date", "p": "".join(parts)}
        yield {"k": "date", "p": "year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}/{yyyy}-{mm}-{dd}T{HH}:{MM}:{SS}/{SS}{MM}{HH}{dd}{mm}{yyyy}"}
    elif k == "files":
        for what in ("file", "missing", "folder", "other"):
            yield {"k": "remove", "what": what}
    elif k == "hist":
        for n in range(1, unit[2] + 1):
            for v in itertools.combinations_with_replacement(NUMBERS, n):
                yield {"k": "hist", "bins": unit[1], "v": list(v)}
    elif k == "histbig":
        for n in SIZES:
            for bins in (2, 3, 10, 50, 100, 1000):
                for kind in ("same", "rising", "falling", "skewed", "fractions"):
                    yield {"k": "histbig", "n": n, "bins": bins, "kind": kind}
    elif k == "stack":
        for after in range(0, 6):
            for depth in range(1, 4):
                for n in range(0, unit[2]):
                    for chain in itertools.product(("from", "context", "none", "unraised"), repeat=n):
                        yield {"k": "stack", "before": unit[1], "after": after, "depth": depth, "chain": list(chain)}
    elif k == "stackmore":
        yield {"k": "nothing"}
        for n in (4, 5, 9, 10, 11, 30, 100):
            yield {"k": "stack", "before": 2, "after": 1, "depth": n, "chain": []}
            yield {"k": "stack", "before": 2, "after": 1, "depth": 2, "chain": ["from", "context"] * (n // 2)}
        for n in SIZES:
            yield {"k": "stack", "before": n, "after": n, "depth": 2, "chain": ["context"]}
        for kind in ("itself", "many", "formfeed", "separator", "generated", "long", "latin"):
            yield {"k": "odd", "kind": kind}
    elif k == "text":
        for n in range(0, unit[2]):
            for rest in itertools.product(CHARS, repeat=n):
                yield {"k": "text", "t": CHARS[unit[1]] + "".join(rest)}
        if unit[1] == 0:
            for t in ["", *(c * n for c in ("a ", "A_b-", "é1") for n in SIZES)]:
                yield {"k": "text", "t": t}
    elif k == "words":
        words = sorted({"".join(w) for w in itertools.product(LETTERS, repeat=unit[2] - 1)})
        for i, w in enumerate(words):
            if i % len(LETTERS) == unit[1]:
                yield {"k": "words", "w": w, "n": unit[2] - 1}
    else:
        for n in SIZES[:30]:
            yield {"k": "long", "n": n}


def check(ctx, case):
    globals()["do_" + case["k"]](ctx, case)


# ---- records


def flat(ctx, record, sep, parent=False):
    mine = copy.deepcopy(record)
    got = flatten(mine, sep) if parent is False else flatten(mine, sep, parent)
    want = [(sep.join(p if parent is False else [parent, *p]), v) for p, v in leaves(record, [])]
    if len(dict(want)) < len(want):
        return  # two values of one name
    ctx.expect(isinstance(got, dict) and same(sorted(map(repr, got.items())), sorted(map(repr, want))), lambda: f"flatten({record!r}, {sep!r}) gives {got!r}, not {dict(want)!r}")
    ctx.expect(same(mine, record), lambda: f"flatten changed {record!r} to {mine!r}")
    ctx.step()
    ctx.state(repr(got))


def do_flatten(ctx, case):
    record = build(trees(case["size"])[case["i"]], itertools.count(case["i"]))
    flat(ctx, record, SEPARATORS[case["sep"]])
    flat(ctx, record, SEPARATORS[case["sep"]], "p")


def do_flatbig(ctx, case):
    n, kind = case["n"], case["kind"]
    if kind == "list":
        r = {"a": list(range(n)), "b": 1}
    elif kind == "names":
        r = {"a": {f"k{i}": i for i in range(n)}, **{f"k{i}": -i for i in range(n)}}
    elif kind == "lists":
        r = {f"k{i}": [i, [i]] for i in range(n)}
    elif kind == "records":
        r = {"a": [{"b": i, "c": {"d": [i]}} for i in range(n)]}
    elif kind == "text":
        r = {"a" * n: {"b" * n: "c" * n}}
    else:
        v = "end"
        for i in range(n):
            v = {"x": v, "y": i} if i % 2 else [v, i]
        r = {"a": v}
    flat(ctx, r, ".")
    flat(ctx, r, "_", "p")


def do_fields(ctx, case):
    names = case["names"]
    record = {n: [i] for i, n in enumerate(names)}
    mine = copy.deepcopy(record)
    got = order(mine)
    ctx.expect(list(got) == sorted(names) and got == record and list(mine) == names, lambda: f"order({record!r}) gives {got!r}")
    for fields in ([], names, names[::-1], names[:1] + ["other"], ["other", *names[1:2]]):
        got = select_record_fields(mine, fields)
        want = {f: record.get(f) for f in fields}
        ctx.expect(same(got, want) and list(got) == list(want), lambda: f"select_record_fields({record!r}, {fields!r}) gives {got!r}")
    for name in names[:3] + ["other"]:
        for setter, value in ((None, None), (0, 0), ("len", "len"), ([1], [1]), (lambda r: sorted(r), sorted(names)), (lambda r: r.get(name), record.get(name)), (len, len(names))):
            got = set_value(mine, name, setter)
            ctx.expect(got == {**record, name: value} and list(got) == list({**record, name: value}), lambda: f"set_value({record!r}, {name!r}, {setter!r}) gives {got!r}")
            ctx.step()
    ctx.expect(mine == record and list(mine) == names, lambda: f"the record {record!r} became {mine!r}")
    ctx.state(names)


# ---- random values


class Words:
    """os.urandom gives this word, and after a thousand uses a counter (a source that rejects words asks again)"""

    def __init__(self, word):
        self.word, self.used, self.bytes = word, 0, 0

    def __call__(self, n):
        self.used += 1
        self.bytes += n
        word = self.word if self.used <= 1000 else (self.word + self.used * 0x9E3779B97F4A7C15) % 2**64
        return (word.to_bytes(8, "big") * (n // 8 + 1))[-n:] if n else b""

    def __enter__(self):
        self.old = os.urandom, random._urandom
        os.urandom = random._urandom = self
        return self

    def __exit__(self, *_):
        os.urandom, random._urandom = self.old


def ways(t, n):
    """random words which give the t-th of n numbers: as remainder, as leading bits, or as share, of up to eight bytes"""
    yield t
    for shift in range(1, 64):
        if t << shift < 2**64:
            yield t << shift
    for bits in range(8, 65):
        w = -(-t * 2**bits // n)
        for shift in range((-bits) % 8 + 1):
            if w < 2**bits and w << shift < 2**64:
                yield w << shift


def reach(call, wanted, n):
    """the wanted results (each with its place among n) that no word gives"""
    wanted = dict(wanted)
    for v, t in list(wanted.items()):
        for w in ways(t, n):
            if v not in wanted:
                break
            with Words(w):
                wanted.pop(call(), None)
    return list(wanted)


def do_range(ctx, case):
    lo, hi = case["lo"], case["hi"]
    n = hi - lo + 1
    seen = set()
    for w in itertools.chain(WORDS, range(n) if n <= 5001 else ()):
        with Words(w) as source:
            v = entropy.random_range(lo, hi)
        ctx.expect(type(v) is int and lo <= v <= hi, lambda: f"random_range({lo}, {hi}) gives {v!r} for the random word {w}")
        seen.add(v)
        ctx.step()
    targets = range(n) if n <= 5001 else [t for t in (0, 1, 255, 256, 5000, 65535, 65536, n // 3, n // 2, n - 2, n - 1) if t < n]
    if source.used:
        missed = reach(lambda: entropy.random_range(lo, hi), {lo + t: t for t in targets if lo + t not in seen}, n)
        ctx.expect(not missed, lambda: f"random_range({lo}, {hi}) never gives {missed[:5]}")
    if n == 1:
        for w in WORDS:
            with Words(w) as source:
                v = entropy.random_int()
            ctx.expect(type(v) is int and 0 <= v < 2**64, lambda: f"random_int gives {v!r}")
            b = w.to_bytes(8, "big")
            for some in (b, list(b), b[4:], b[:0], b + b):
                ctx.expect(entropy.bytes_to_int(some) == sum(x << (8 * i) for i, x in enumerate(reversed(some))), lambda: f"bytes_to_int({some!r}) gives {entropy.bytes_to_int(some)}")
    ctx.state([lo, hi, len(seen)])


def do_choice(ctx, case):
    n = case["n"]
    options = [f"o{i}" for i in range(n)] if case["kind"] != "text" else "".join(chr(0x4E00 + i) for i in range(n))
    options = tuple(options) if case["kind"] == "tuple" else options
    seen = set()
    for w in itertools.chain(WORDS[-260:], range(n)):
        with Words(w) as source:
            v = entropy.random_choice(options)
        ctx.expect(v in options and len(v), lambda: f"random_choice of {n} options gives {v!r}")
        seen.add(v)
        ctx.step()
    if source.used:
        missed = reach(lambda: entropy.random_choice(options), {o: t for t, o in enumerate(options) if o not in seen}, n)
        ctx.expect(not missed, lambda: f"random_choice of {n} options never gives {missed[:5]}")
    ctx.state([n, len(seen)])


def do_string(ctx, case):
    n = case["n"]
    got = set()
    for w in WORDS[::3] if n <= 300 else WORDS[::60]:
        with Words(w):
            s = entropy.random_string(n) if n != 64 else entropy.random_string()
        ctx.expect(isinstance(s, str) and len(s) == n and re.fullmatch(r"[A-Za-z0-9+/=_-]*", s), lambda: f"random_string({n}) gives {s!r} of length {len(s)}")
        got.add(s)
        ctx.step()
    if n >= 12 and n % 4 == 0:
        ctx.expect(len(got) > len(WORDS[::3] if n <= 300 else WORDS[::60]) // 2, lambda: f"random_string({n}) gives {len(got)} different texts")
    ctx.state([n, len(got)])


# ---- configuration, paths and files


class Folder:
    def __enter__(self):
        self.path, self.old = os.path.join(env.SCRATCH, f"c35-{os.getpid()}"), os.getcwd()
        os.makedirs(self.path, exist_ok=True)
        os.chdir(self.path)
        return self.path

    def __exit__(self, *_):
        for root, dirs, files in os.walk(self.path, topdown=False):
            for f in files:
                os.remove(os.path.join(root, f))
            for d in dirs:
                os.rmdir(os.path.join(root, d))
        os.chdir(self.old)


def do_context(ctx, case):
    body = {k: v for k, v in (("a", case["a"]), ("config", case["c"]), ("z", [1])) if v != "absent"}
    over = {None: {}, "a": {"a": None}, "config": {"config": {"mine": 1}}, "new": {"new": 0, "a": "over"}}[case["over"]]
    with Folder():
        if case["where"]:
            os.makedirs(case["where"])
        with open(os.path.join(case["where"], case["name"]), "wb") as f:
            f.write(orjson.dumps(body))
        with open("config.json.old", "wb") as f:
            f.write(b"{}")
        args = dict(over) if case["name"] == "config.json" and case["over"] != "new" else {**over, "config_file": case["name"]}
        mine = copy.deepcopy(args)
        got = common.build_context(**args)
    want = {**body, **({} if body.get("config") else {"config": {}}), **args}
    ctx.expect(same(got, want), lambda: f"build_context({args!r}) with {body!r} gives {got!r}, not {want!r}")
    ctx.expect(same(mine, args), "the arguments changed")
    ctx.step()
    ctx.state(want)


def do_badcontext(ctx, case):
    with Folder():
        for name, body, error in (("bad.json", case["body"], ValueError), ("missing.json", None, IndexError)):
            if body is not None:
                with open(name, "w") as f:
                    f.write(body)
            try:
                got = common.build_context(config_file=name)
            except error as e:
                got = e
                ctx.expect(name in str(e), lambda: f"the error for {name} is {e}")
            ctx.expect(isinstance(got, error), lambda: f"build_context with {name} holding {body!r} gives {got!r}")
            ctx.step()
    ctx.state(case["body"])


def do_path(ctx, case):
    p = case["p"]
    bucket, folder, stem, suffix = paths.get_parts(p)
    pieces = p.rstrip("/").split("/")
    is_file = not p.endswith("/") and "." in pieces[-1][1:-1]
    want = "/".join(pieces[1 : -1 if is_file else None])
    ctx.expect(bucket == pieces[0] and folder.endswith("/") and folder.rstrip("/") in ((want,) if want else (".", "")), lambda: f"get_parts({p!r}) gives {(bucket, folder, stem, suffix)!r}")
    name = pieces[-1].rpartition(".")
    ctx.expect((stem, suffix) == ((name[0], "." + name[2]) if is_file else (None, None)), lambda: f"get_parts({p!r}) gives {(bucket, folder, stem, suffix)!r}")
    built = paths.build_path(p, datetime.date(2020, 1, 2))
    whole = "/".join(x for x in (bucket, want) if x) + "/"
    if p.endswith("/"):
        ctx.expect(built == p, lambda: f"build_path({p!r}) gives {built!r}")
    else:
        ctx.expect(os.path.normpath(built) + "/" == whole and built.endswith("/"), lambda: f"build_path({p!r}) gives {built!r}")
    ctx.step(2)
    ctx.state(p)


def do_date(ctx, case):
    p = case["p"]
    for d in (datetime.datetime(2020, 1, 2, 3, 4, 5, 6), datetime.datetime(1999, 12, 31, 23, 59, 59, 999999), datetime.date(2020, 2, 29), datetime.datetime(2021, 10, 11, 12, 13, 14, tzinfo=datetime.timezone(datetime.timedelta(hours=5)))):
        want = p
        for mark, fmt in (("{yyyy}", "%Y"), ("{mm}", "%m"), ("{dd}", "%d"), ("{HH}", "%H"), ("{MM}", "%M"), ("{SS}", "%S")):
            want = want.replace(mark, d.strftime(fmt))
        got = paths.date_format(p, d)
        ctx.expect(got == want, lambda: f"date_format({p!r}, {d}) gives {got!r}, not {want!r}")
        ctx.step()
    env.clock_fixed(MOMENT)
    try:
        got = paths.date_format(p)
    finally:
        env.clock_real()
    ctx.expect(got == paths.date_format(p, datetime.datetime(2024, 2, 29, 23, 58, 57)), lambda: f"date_format({p!r}) gives {got!r} at 2024-02-29 23:58:57")
    ctx.state(p)


def do_remove(ctx, case):
    with Folder() as folder:
        for name in ("keep", "x.y", "file"):
            if case["what"] != "missing" or name == "keep":
                open(name, "w").close()
        if case["what"] == "folder":
            os.remove("file")
            os.mkdir("file")
        name = "x.y" if case["what"] == "other" else "file"
        raised = None
        try:
            paths.silent_remove(os.path.join(folder, name))
        except OSError as e:
            raised = e
        left = sorted(os.listdir("."))
        want = {"file": ["keep", "x.y"], "missing": ["keep"], "folder": ["file", "keep", "x.y"], "other": ["file", "keep"]}[case["what"]]
        ctx.expect(left == want and (raised is not None) == (case["what"] == "folder"), lambda: f"silent_remove of a {case['what']} leaves {left} and raises {raised!r}")
    ctx.state(case["what"])


# ---- histograms


def histogram(ctx, values, bins, what):
    for source in (list(values), DictSet([{"k": v, "z": -v} for v in values])):
        h = Histogram(source, key="k", number_of_bins=bins) if bins != 10 else Histogram(source, key="k")
        got = list(h.bins)
        ctx.expect(len(got) == bins and sum(got) == len(values), lambda: f"the bins of {what} are {got}")
        ranked, firsts, lasts = sorted(values), [], []
        for i, n in enumerate(got):
            if n:
                firsts.append((i, ranked[0]))
                lasts.append((i, ranked[n - 1]))
                ranked = ranked[n:]
        low, high = 0.0, float("inf")  # limits of the width
        for (j, b), (_, b2) in zip(firsts, lasts):  # the first bin begins at the least value
            low = max(low, (b2 - min(values)) / (j + 1))
            high = min(high, (b - min(values)) / j) if j else high
        ctx.expect(low <= high * (1 + 1e-9) + 1e-9, lambda: f"the bins of {what} are {got}: not of one width from the least value")
        ctx.expect(all(a2 <= b for (_, a2), (_, b) in zip(lasts, firsts[1:])) and (len(set(values)) == 1) <= (len(firsts) == 1), lambda: f"the bins of {what} are {got}")
        ctx.expect(min(values) == max(values) or bins < 4 or max(values) - min(values) < 1.5 or len(firsts) > 1, lambda: f"the bins of {what} are {got}: all in one")
        bars = repr(h)
        ctx.expect(len(bars) == bins + 2 and bars[0] == ">" and bars[-1] == "<", lambda: f"{what} is shown as {bars!r}")
        heights = [BAR_CHARS.index(c) for c in bars[1:-1] if c in BAR_CHARS]
        ctx.expect(len(heights) == bins and max(heights) == 8 and all(abs(x - 8 * n / max(got)) < 1 for x, n in zip(heights, got)), lambda: f"{what} with bins {got} is shown as {bars!r}")
        ctx.step()
    ctx.state([bins, got])


def do_hist(ctx, case):
    for v in (case["v"], case["v"][::-1]):
        histogram(ctx, v, case["bins"], f"{v} in {case['bins']}")


def do_histbig(ctx, case):
    n, kind = case["n"], case["kind"]
    values = {"same": [7] * n, "rising": list(range(n)), "falling": [-3 * i for i in range(n)], "skewed": [i * i * i for i in range(n)], "fractions": [(i * 37 % 101) / 8 for i in range(n)]}[kind]
    histogram(ctx, values, case["bins"], f"{n} {kind} values in {case['bins']}")


# ---- error reports


def caught(call):
    try:
        call()
    except Exception as error:
        return render_error_stack(), error
    return None, None


def program(case):
    """a module whose function start() raises through that many frames and that chain of exceptions"""
    lines = [f"pad{i} = 'padding {i}'" for i in range(case["before"])]
    lines.append("def start(here=0): " + ("step1('v0')" if case["depth"] > 1 else "bottom('v0')"))
    for i in range(1, case["depth"]):
        lines.append(f"def step{i}(given{i}): " + (f"step{i + 1}" if i + 1 < case["depth"] else "bottom") + f"('v{i}')")
    lines.append("def bottom(last): " + (f"layer{len(case['chain'])}('w')" if case["chain"] else "return 1 // 0"))
    for i, kind in enumerate(case["chain"], 1):
        inner = f"layer{i - 1}('u{i}')" if i > 1 else "int('what')"
        lines += [f"def layer{i}(name{i}):", "    try:", f"        {inner}", "    except Exception as e:", f"        raise KeyError('failed {i}')" + {"from": " from e", "context": "", "none": " from None", "unraised": " from ValueError('new')"}[kind]]
    lines += [f"end{i} = 'the end {i}'" for i in range(case["after"])]
    return lines


def load(body, encoding="utf-8"):
    name = os.path.join(env.SCRATCH, f"m{os.getpid()}.py")
    with open(name, "w", encoding=encoding, newline="") as f:
        f.write(body)
    spec = importlib.util.spec_from_file_location("m35", name)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module, name


def expected(error):
    """the frames of the error and of what led to it, the latest error first"""
    out, seen = [], set()
    while error is not None and id(error) not in seen:
        seen.add(id(error))
        for frame, line in traceback.walk_tb(error.__traceback__):
            out.append((frame.f_code.co_filename, line, frame.f_code.co_name, dict(frame.f_locals)))
        cause, context = error.__cause__, error.__context__
        error = cause if cause is not None and cause.__traceback__ else context if context is not None and context.__traceback__ and not error.__suppress_context__ else None
    return out


def report(ctx, got, error, name, lines, what):
    want = expected(error)
    heads = [(m.start(), m.end(), m.group(1), int(m.group(2)), m.group(3)) for m in re.finditer(r"^(\S*):(\d+) in (\S+)\(\)$", got, re.M)]
    ok = [(os.path.basename(f), n, fn) for _, _, f, n, fn in heads] == [(os.path.basename(f), n, fn) for f, n, fn, _ in want]
    if not ctx.expect(ok, lambda: f"{what}: the report names {[(n, fn) for _, _, _, n, fn in heads]}, the error went through {[(n, fn) for _, n, fn, _ in want]}"):
        return
    for i, (_, start, file, line, fn) in enumerate(heads):
        if want[i][0] != name:
            continue
        block = got[start : heads[i + 1][0] if i + 1 < len(heads) else None]
        shown = [(m.group(1), int(m.group(2)), m.group(3)) for m in re.finditer(r"^([> ]) *(\d+) \|(.*)$", block, re.M)]
        marked = [n for mark, n, _ in shown if mark == ">"]
        numbers = [n for _, n, _ in shown]
        ctx.expect(marked == [line], lambda: f"{what}: for line {line} the lines {marked} are marked in {block!r}")
        ctx.expect(numbers == sorted(set(numbers)) and set(range(max(1, line - 1), min(len(lines), line + 1) + 1)) <= set(numbers), lambda: f"{what}: for line {line} of {len(lines)} the lines {numbers} are shown")
        for _, n, textual in shown:
            ctx.expect(1 <= n <= len(lines) + 1 and textual.strip() == re.split("[\x0b\x0c\x1c-\x1e\x85\u2028\u2029]", (lines + [""])[n - 1])[0].strip(), lambda: f"{what}: line {n} is shown as {textual!r}")
        for key, value in want[i][3].items():
            if isinstance(value, (str, int)):
                ctx.expect(re.search(rf"^ *{key} *: {re.escape(str(value))}$", block, re.M), lambda: f"{what}: the variable {key} = {value!r} of {fn} is missing in {block!r}")
        ctx.step()


def do_stack(ctx, case):
    lines = program(case)
    module, name = load("\n".join(lines) + "\n" * (case["before"] % 2))
    got, error = caught(module.start)
    report(ctx, got, error, name, lines, f"{case}")
    again = render_error_stack()
    ctx.expect(again == "", lambda: f"after the error the report is {again!r}")
    ctx.state([case["before"], case["after"], case["depth"], case["chain"]])


def do_nothing(ctx, case):
    ctx.expect(render_error_stack() == "", "a report without an error")
    ctx.state("nothing")


def do_odd(ctx, case):
    kind = case["kind"]
    if kind == "itself":
        lines = ["def start():", "    try:", "        int('x')", "    except ValueError as e:", "        raise e from e", ""]
    elif kind in ("formfeed", "separator"):
        lines = ["a = 1", "b = 'x" + {"formfeed": "\x0c", "separator": "\u2028"}[kind] + "y'", "c = 2", "def start():", "    return 1 // 0", "d = 3"]
    elif kind == "many":
        lines = ["def start():", *(f"    v{i} = {i}" for i in range(300)), "    return 1 // 0"]
    elif kind == "long":
        lines = ["def start():", "    wide = 'x'", "    return 1 // 0", "z = " + "+".join(["1"] * 200)]
    else:
        lines = ["# -*- coding: latin-1 -*-", "x = 'é'", "def start():", "    return 1 // 0"]
    if kind == "generated":
        space = {}
        exec(compile("def start():\n    return 1 // 0\n", "<text>", "exec"), space)
        got, error = caught(space["start"])
        ctx.expect("<text>:2 in start()" in got, lambda: f"the report of generated code is {got!r}")
    else:
        module, name = load("\n".join(lines), "latin-1" if kind == "latin" else "utf-8")
        got, error = caught(module.start)
        if kind in ("long", "latin"):  # long lines are broken; the file can't be read as UTF-8
            ctx.expect(re.search(r":(3|4) in start\(\)", got), lambda: f"the report is {got!r}")
        else:
            report(ctx, got, error, name, lines, kind)
    ctx.step()
    ctx.state(kind)


# ---- text


def do_text(ctx, case):
    t = case["t"]
    plain = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
    got = safe_field_name(t)
    ctx.expect(got == "".join(c for c in t if c in plain or c in "_-"), lambda: f"safe_field_name({t!r}) gives {got!r}")
    for safe in (None, "a", "", "é%"):
        got = text.sanitize(t) if safe is None else text.sanitize(t, safe)
        ctx.expect(got == "".join(c for c in t if (c in plain or c in " \n" if safe is None else c in safe)), lambda: f"sanitize({t!r}, {safe!r}) gives {got!r}")
    got = text.tokenize(t)
    ctx.expect(got == "".join(c for c in t.lower() if c in plain or c in " \n").split(), lambda: f"tokenize({t!r}) gives {got!r}")
    ctx.step(6)
    ctx.state(t)


def distance(a, b):
    a, b = a.lower(), b.lower()
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        new = [i + 1]
        for j, y in enumerate(b):
            new.append(min(row[j + 1] + 1, new[j] + 1, row[j] + (x != y)))
        row = new
    return row[-1]


def do_words(ctx, case):
    a = case["w"]
    for w in itertools.product(LETTERS, repeat=case["n"]):
        b = "".join(w)
        got = get_levenshtein_distance(a, b)
        ctx.expect(got == distance(a, b), lambda: f"the distance of {a!r} and {b!r} is given as {got}")
        ctx.step()
    ctx.state(a)


def do_long(ctx, case):
    n = case["n"]
    base = "ab" * (n // 2 + 1)
    for other in (base[::-1], base[1:], base + "c", "c" + base[:-1], base.upper(), base[: n // 2], "", "c" * n):
        got = get_levenshtein_distance(base, other)
        ctx.expect(got == distance(base, other), lambda: f"the distance of {base!r} and {other!r} is given as {got}")
        ctx.step()
    ctx.state(n)
