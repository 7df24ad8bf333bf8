"""C27: every set of Reader parameters (absent, set, unset) for inner readers with and without rules of their own, against a recording store; stores without readable data."""
import datetime
import itertools

from mabel.adapters.null import NullReader
from mabel.data import Reader
from mabel.data.internals.dictset import STORAGE_CLASS
from mabel.data.readers.internals.sql_reader import SqlReader
from mabel.errors import DataNotFoundError, InvalidReaderConfigError

from mcheck.store import Store, lines, zst

PROPERTY, LEVEL = "C27", "model_checking"
TECHNIQUE = "exhaustive enumeration of parameter sets and of stores without readable data, the real Reader compared with an independent statement of the rules"
RULE = (
    "every combination of absent/set/unset for the parameters with rules (cursor, freshness_limit, raw_path, multiprocess, partitions, partition_filter, dataset, prefixes) with none or all of the others, for three kinds of inner reader; every "
    "subset of the remaining parameters; every unknown name of a list (misspellings by every single edit of every known name, in each kind of call); every subset of two inner-reader parameters; every store of up to 3 blobs from a set of "
    "kinds without readable data, by every persistence; a state is a parameter set with its outcome"
)
ASSUMPTIONS = ["combinations where one parameter of an incompatible pair is given but unset are not specified", "with persistence the error may come when the Reader is made, which is when it reads"]
DAY = datetime.date(2020, 1, 1)
# name -> (set value, unset value)
RULED = {
    "cursor": ({"partition": 0, "location": 1, "map": "00"}, None),
    "freshness_limit": ("5d", ""),
    "raw_path": (True, False),
    "multiprocess": (True, False),
    "partitions": (["year_{yyyy}"], None),
    "partition_filter": (("x", "=", 1), None),
    "dataset": ("ds", "ds"),
    "valid_dataset_prefixes": (["d"], None),
}
FREE = {
    "select": "a",
    "filters": "a = 1",
    "persistence": STORAGE_CLASS.NO_PERSISTANCE,
    "override_format": "jsonl",
    "start_date": DAY,
    "end_date": DAY,
    "project": "p",
}
TOXIC = [("multiprocess", "cursor"), ("raw_path", "freshness_limit"), ("partition_filter", "freshness_limit"), ("partitions", "raw_path")]
KNOWN = list(RULED) + list(FREE) + ["inner_reader"]


def factory(made, rules):
    """inner readers which record that they were made"""
    s = Store()
    s.put("ds/year_2020/month_01/day_01/a.jsonl", lines([{"a": 1}]))

    class Inner(s.Reader):
        def __init__(self, **kw):
            made.append(kw)
            super().__init__(**kw)

    if rules is not None:
        Inner.RULES = rules
    return Inner


INNER = {
    "plain": None,
    "rules": [{"name": "account", "required": True}, {"name": "region", "required": False}],
    "toxic": [{"name": "account", "required": True, "warning": "careful", "incompatible_with": []}, {"name": "token", "required": True, "warning": None}],
}


def expected(params, rules):
    """'refused', 'fine' or 'unspecified'"""
    names = set(KNOWN) | {r["name"] for r in rules or []}
    if any(p not in names for p in params):
        return "refused"
    if "dataset" not in params or any(r["required"] and r["name"] not in params for r in rules or []):
        return "refused"
    vague = False
    for a, b in TOXIC:
        if a in params and b in params:
            if params[a] and params[b]:
                return "refused"
            if params[a] or params[b]:
                vague = True
    return "unspecified" if vague else "fine"


def edits(word):
    out = set()
    for i in range(len(word) + 1):
        out.add(word[:i] + "x" + word[i:])
        if i < len(word):
            out.add(word[:i] + word[i + 1 :])
            out.add(word[:i] + "z" + word[i + 1 :])
            out.add(word[:i] + word[i].upper() + word[i + 1 :])
    out |= {word + "s", word.replace("_", ""), "_" + word, word + "_", word.upper(), word[::-1]}
    return sorted(w for w in out if w.isidentifier() and w not in KNOWN)


KINDS = {
    "text": ("notes.md", b"hello"),
    "ignored": (".ignore", b""),
    "complete": (".complete", b""),
    "index": ("part.jsonl.idx", b"x"),
    "noext": ("part", b'{"a":1}\n'),
    "orphan": ("as_at_20200101-000000/part.jsonl", b'{"a":1}\n'),
    "dropped": ("as_at_20200101-010000/part.jsonl", b'{"a":1}\n', "as_at_20200101-010000/frame.ignore", b""),
    "sidecar": ("part.bloom", b"x"),
}


def units(tier):
    out = [["ruled", i, 16] for i in range(16)]
    out += [["free", i, 4] for i in range(4)] + [["names", i, 8] for i in range(8)] + [["empty", i, 8, 4 if tier == "thorough" else 3] for i in range(8)]
    return out


def cases(unit):
    k = unit[0]
    if k == "ruled":
        for j, c in enumerate(itertools.product("-su", repeat=len(RULED))):
            if c[6] != "u" and j % unit[2] == unit[1]:
                yield {"k": "ruled", "c": "".join(c)}
    elif k == "free":
        for j, c in enumerate(itertools.product("-s", repeat=len(FREE))):
            if j % unit[2] == unit[1]:
                yield {"k": "free", "c": "".join(c)}
    elif k == "names":
        words = [w for n in KNOWN + ["account", "token", "region"] for w in edits(n)] + ["foo", "limit", "columns", "kwargs", "self", "args", "path", "from_date", "to", "step", "inner", "reader", "reader_class"]
        for j, w in enumerate(words):
            if j % unit[2] == unit[1]:
                yield {"k": "names", "w": w}
    else:
        for j, c in enumerate(itertools.chain(*[itertools.combinations(KINDS, n) for n in range(unit[3] + 1)])):
            if j % unit[2] == unit[1]:
                yield {"k": "empty", "c": list(c)}


def attempt(params, inner, made):
    try:
        Reader(inner_reader=inner, **params)
        return "fine"
    except InvalidReaderConfigError:
        return "refused"
    except Exception as e:
        return f"{type(e).__name__}: {e}"


def judge(ctx, params, kind, extra=()):
    made = []
    rules = INNER[kind]
    params = dict(params)
    for r in rules or []:
        if r["name"] in extra:
            params[r["name"]] = "v"
    inner = factory(made, rules)
    got = attempt(params, inner, made)
    want = expected(params, rules)
    ctx.step()
    show = {k: v for k, v in params.items()}
    if want == "refused":
        ctx.expect(got == "refused", f"Reader({show}) with the {kind} inner reader: {got}")
        ctx.expect(not made, f"Reader({show}): the inner reader was made before the parameters were refused")
    elif want == "fine":
        ctx.expect(got != "refused", f"Reader({show}) with the {kind} inner reader was refused")
        ctx.expect(len(made) == 1, f"Reader({show}) with the {kind} inner reader: {got}")
    ctx.state((kind, repr(sorted(show.items(), key=str)), got))


def check(ctx, case):
    k = case["k"]
    if k == "ruled":
        params = {n: RULED[n][v == "u"] for n, v in zip(RULED, case["c"]) if v != "-"}
        for free in ({}, FREE):
            judge(ctx, dict(params, **free), "plain")
        for extra in ((), ("account",), ("account", "token", "region")):
            judge(ctx, params, "rules", extra)
        judge(ctx, params, "toxic", ("account", "token"))
        judge(ctx, params, "toxic", ("token",))
    elif k == "free":
        params = {n: FREE[n] for n, v in zip(FREE, case["c"]) if v == "s"}
        none = {n: None for n in params if n not in ("select", "persistence")}
        for base in ({}, {"dataset": "ds"}, {"dataset": "ds", "raw_path": True}, {"dataset": "ds", "freshness_limit": "5d"}, {"dataset": "ds", "multiprocess": True, "partition_filter": ("x", "=", 1)}):
            for kind in INNER:
                for extra in ((), ("account",), ("account", "token")):
                    judge(ctx, dict(base, **params), kind, extra)
            judge(ctx, dict(base, **none), "plain")
    elif k == "names":
        for value in ("v", None, False):
            for base in ({"dataset": "ds"}, {"dataset": "ds", "select": "a", "start_date": DAY, "end_date": DAY}, {"dataset": "ds", "multiprocess": True}):
                for kind in INNER:
                    if any(r["name"] == case["w"] for r in INNER[kind] or []):
                        continue
                    judge(ctx, dict(base, **{case["w"]: value}), kind, ("account", "token"))
        for inner in (NullReader,):
            try:
                Reader(dataset="ds", inner_reader=inner, data=[{"a": 1}], **{case["w"]: 1})
                ctx.expect(case["w"] == "data", f"{case['w']} was accepted")
            except InvalidReaderConfigError:
                pass
        ctx.expect(list(Reader(dataset="ds", inner_reader=NullReader, data=[{"a": 1}])) == [{"a": 1}], "the null reader does not read its data")
        try:
            Reader(dataset="ds", inner_reader=NullReader)
            ctx.fail("the null reader was made without its data")
        except InvalidReaderConfigError:
            pass
        try:
            SqlReader("SELECT * FROM ds", inner_reader=factory([], None), **{case["w"]: 1})
            ctx.fail(f"SqlReader accepted {case['w']}")
        except InvalidReaderConfigError:
            pass
    else:
        s = Store()
        for n, kd in enumerate(case["c"]):
            parts = KINDS[kd]
            for name, body in zip(parts[::2], parts[1::2]):
                s.put(f"ds/year_2020/month_01/day_01/{name}", body)
        # data of other days and datasets
        s.put("ds/year_2020/month_01/day_02/a.jsonl", lines([{"a": 1}]))
        s.put("ds2/year_2020/month_01/day_01/a.jsonl", lines([{"a": 1}]))
        for p in STORAGE_CLASS:
            for extra in ({}, {"select": "a"}, {"filters": "a = 1"}, {"multiprocess": True}, {"freshness_limit": "1d"}):
                ctx.step()
                try:
                    got = list(Reader(dataset="ds", inner_reader=s.Reader, start_date=DAY, end_date=DAY, persistence=p, **extra))
                    ctx.fail(f"a dataset with {case['c']} read with {p} {extra} gave {got}")
                except DataNotFoundError:
                    pass
                except Exception as e:
                    ctx.fail(f"a dataset with {case['c']} read with {p} {extra}: {type(e).__name__}: {e}")
        for q in ("SELECT * FROM ds", "SELECT COUNT(*) FROM ds", "SELECT a FROM (SELECT * FROM ds) ORDER BY a"):
            try:
                got = list(SqlReader(q, inner_reader=s.Reader, start_date=DAY, end_date=DAY))
                ctx.fail(f"{q} of a dataset with {case['c']} gave {got}")
            except DataNotFoundError:
                pass
        ctx.state(repr(case["c"]))
