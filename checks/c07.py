"""C07: every record over a hostile value alphabet for every template, and append times around date boundaries."""
import datetime
import itertools

from mcheck import env, streams  # noqa: installs the scheduler first (threads stay inert)
from mabel.data import StreamWriter

from mcheck.store import Store, decode, folder

PROPERTY, LEVEL = "C07", "model_checking"
TECHNIQUE = "exhaustive enumeration of placeholder values, templates, dates and append histories on the real StreamWriter against a path model"
RULE = (
    "every pair of values from the alphabet for the two placeholder fields under every template; every sequence of up to 3 records over a small alphabet, and of look-alike values of different types, in one writer; "
    "one dimension (list length, value length, number of fields, repeats, values, levels) up to 257, confusable field names; every append time around hour, day, month, leap-day and year ends, with and without a configured date; a state is the set of folders written"
)
ASSUMPTIONS = ["in-memory store; housekeeping inert", "values are JSON scalars or lists of them (a value that cannot be hashed is refused with TypeError and not covered)"]
MISSING = "<missing>"
VALUES = [
    "a", "b", "", " ", "a b", "..", "../x", "a/b", "/", "//", ".", "a.b", "{k}", "{j}", "{yyyy}", "{", "}", "as_at_1", "by_x", "\\", "%", "*", "é", "a\u0301", "\x00",
    "k=v", "A", "ab", "a" * 300, "٣", "²", "_", "-", "a\u3000b", "\u200b", "ß", "a\nb", 2**70, 1e300, [], None, MISSING, 0, 1, -1, 1.5, True, False, "None", "1",
    ["a"], ["a", "b"], ["a", "a"], ["a", None], [1, "1"], ["a/", "a"], ["../b", "b"], [True, False], ["", "x"],
]
SMALL = ["a", "b", "A", "ab", None, MISSING, "", "{j}", ["a", "b"], 1]
ALIKE = [0, False, 0.0, -0.0, "0", 1, True, 1.0, "1", "True", None, "None", "", [], [1], [True], [1.0], ["1"], [0, 1], [False, True], "a", "A", "a ", "a/", "aa", 10**16, 1e16, 2**53, 2.0**53, "é", "e"]
TEMPLATES = ["{k}", "k_{k}", "{k}/{j}", "k={k}/j={j}", "{k}-{j}", "{k}{k}", "x/{k}/y", "year_{yyyy}/k_{k}", "{j}/{yyyy}/{mm}/{dd}/{k}", "by_k/k={k}", "{other}", "plain"]
DATES = ["2020-02-29", "2019-12-31T23:59:59", datetime.datetime(2021, 1, 1, 5, 6, 7), datetime.date(2020, 12, 31), None]
EDGES = [1_582_934_399, 1_582_934_400, 1_583_020_799, 1_583_020_800, 1_609_459_199, 1_609_459_200, 1_614_556_799, 1_614_556_800, 1_600_000_000, 1_600_003_599, 1_600_003_600]
TDATE = ["{yyyy}/{mm}/{dd}", "year_{yyyy}/month_{mm}/day_{dd}", "{yyyy}-{mm}-{dd}/by_hour/hour={HH}", "{yyyy}/{mm}/{dd}/{HH}/{MM}/{SS}", "{dd}/{dd}/k_{k}"]
OK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 \t\n\r\x0b\x0c"


def units(tier):
    deep = tier == "thorough"
    out = []
    for t in TEMPLATES:
        for fmt in ("jsonl", "zstd", "text") if deep else ("jsonl",):
            out.append(["values", t, fmt])
    for t in TEMPLATES:
        out.append(["history", t, 4 if deep else 3])
    for t in ("k_{k}", "{k}", "{k}/{j}", "year_{yyyy}/k_{k}"):
        out.append(["alike", t])
    for t in TDATE:
        out.append(["dates", t])
    for what in ("list", "lists", "text", "fields", "repeats", "values", "levels"):
        out.append(["grow", what])
    return out


SIZES = [*range(2, 34), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1001]


def grown(what, n):
    """(template, records) with one dimension at size n"""
    if what == "list":
        v = [f"v{i}" for i in range(n)]
        return "k_{k}", [{"id": 0, "k": v}, {"id": 1, "k": v[-1]}, {"id": 2, "k": v + v[:1]}, {"id": 3, "k": [1] * n}]
    if what == "lists":
        return "{k}/{j}/{l}", [{"id": 0, "k": [f"a{i}" for i in range(n // 2)], "j": [f"b{i}" for i in range(3)], "l": "x"}, {"id": 1, "k": "a0", "j": None, "l": [f"c{i}" for i in range(n)]}]
    if what == "text":
        a = "ab" * n
        return "k_{k}/x", [{"id": i, "k": v} for i, v in enumerate([a, a + "c", a[:-1], a[:-1] + "c", a[:n] + "/" + a[n:], "c" + a[1:], a])]
    if what == "fields":
        names = [f"f{i}" for i in range(n)]
        return "/".join("x{%s}" % f for f in names), [{"id": 0, **{f: i for i, f in enumerate(names)}}, {"id": 1, **{f: i for i, f in enumerate(names[:-1])}}, {"id": 2, **{f: "a" for f in names}, names[n // 2]: ["b", "c"], names[-1]: ["d", "e"]}]
    if what == "repeats":
        return "/".join(["y{k}"] * n), [{"id": 0, "k": "a"}, {"id": 1, "k": ["a", "b"]}, {"id": 2}]
    if what == "levels":
        return "/".join(f"l{i}" for i in range(n)) + "/{k}", [{"id": 0, "k": "a"}, {"id": 1, "k": ["b", None]}]
    return "k_{k}", [{"id": i, "k": v} for i, v in enumerate([*range(n), 0, n - 1, *range(n)])]


def cases(unit):
    if unit[0] == "values":
        _, t, fmt = unit
        second = VALUES if "{j}" in t else ["z"]
        for a, b in itertools.product(VALUES, second):
            yield {"t": t, "fmt": fmt, "recs": [[a, b]]}
    elif unit[0] == "grow":
        for n in SIZES:
            if n <= {"list": 257, "lists": 65, "text": 1001, "fields": 33, "repeats": 65, "values": 257, "levels": 65}[unit[1]]:
                yield {"k": "grow", "what": unit[1], "n": n}
        if unit[1] == "fields":
            for i in range(len(FIELDS)):
                yield {"k": "grow", "what": "named", "n": i}
    elif unit[0] == "alike":
        for a, b in itertools.product(ALIKE, repeat=2):
            yield {"t": unit[1], "fmt": "jsonl", "recs": [[a, b], [b, a], [a, b]]}
    elif unit[0] == "history":
        _, t, n = unit
        small = [[a, "z"] for a in SMALL] if "{j}" not in t else [[a, b] for a in ("a", None, ["a", "b"], "{j}") for b in ("a", "b", ["b", "a"])]
        for k in range(2, n + 1):
            if len(small) ** k > 12000:
                break
            for recs in itertools.product(small, repeat=k):
                yield {"t": t, "fmt": "jsonl", "recs": [list(r) for r in recs]}
    else:
        _, t = unit
        for d in range(len(DATES)):
            for e1 in range(len(EDGES)):
                for e2 in range(len(EDGES)) if DATES[d] is None else [e1]:
                    yield {"t": t, "fmt": "jsonl", "recs": [["a", "z"], ["a", "z"]], "date": d, "edges": [e1, e2]}


# placeholder fields that are easily confused
FIELDS = [("k", "K"), ("k", "kk"), ("kk", "k"), ("a", "a_b"), ("a", "a.b"), ("a b", "a"), ("é", "e"), ("0", "1"), ("id2", "id"), ("dataset", "format"), ("YYYY", "DD"), ("date", "day"), ("by", "as_at"), ("self", "record"), ("items", "dict_"), ("k1", "k10"), ("", "k")]


def clean(v):
    return "".join(c for c in str(v) if c in OK)


def expected(template, rec, date, fields=("k", "j", "other")):
    """folders the record belongs to"""
    t = template
    for ph, v in (("yyyy", f"{date.year}"), ("mm", f"{date.month:02d}"), ("dd", f"{date.day:02d}"), ("HH", f"{date.hour:02d}"), ("MM", f"{date.minute:02d}"), ("SS", f"{date.second:02d}")):
        t = t.replace("{" + ph + "}", v)
    fields = [f for f in fields if "{" + f + "}" in t]
    lists = []
    for f in fields:
        v = rec.get(f)
        lists.append(v if isinstance(v, list) else [v])
    seen, out = [], []
    for combo in itertools.product(*lists):
        if combo in seen:
            continue
        seen.append(combo)
        parts = []
        i = 0
        while i < len(t):  # one pass, so that nothing substituted is looked at again
            for f, v in zip(fields, combo):
                if t.startswith("{" + f + "}", i):
                    parts.append(clean(v))
                    i += len(f) + 2
                    break
            else:
                parts.append(t[i])
                i += 1
        out.append(norm("bucket/data/" + "".join(parts)))
    return out


def norm(p):
    return "/".join(x for x in p.split("/") if x)


def many(ctx, case):
    store = Store()
    if case["what"] == "named":
        a, b = FIELDS[case["n"]]
        t, recs = f"x/{{{a}}}/{{{b}}}", [{"id": 0, a: "v", b: "w"}, {"id": 0, a: ["v", "w"]}, {"id": 0, b: "v"}, {"id": 0, a: "w", b: ["v", "x"]}]
        recs = [{**r, "n": i} for i, r in enumerate(recs)]
    else:
        t, recs = grown(case["what"], case["n"])
        recs = [{**r, "n": i} for i, r in enumerate(recs)]
    w = StreamWriter(dataset="bucket/data", format="jsonl", schema=False, partitions=[t], inner_writer=store.Writer, date="2020-02-03")
    want = {}
    fields = sorted({f for r in recs for f in r})
    for r in recs:
        w.append(dict(r))
        for f in expected(t, r, datetime.datetime(2020, 2, 3), fields):
            want.setdefault(f, []).append(r)
    w.finalize()
    got = {}
    for name, data in store.data_blobs():
        got.setdefault(norm(folder(name)), []).extend(decode(name, data))
    ctx.step(len(recs))
    for f in sorted(set(want) | set(got)):
        ctx.expect(sorted(map(repr, got.get(f, []))) == sorted(map(repr, want.get(f, []))), lambda: f"template {t[:200]} with {case['what']} of {case['n']}: folder {f[:200]} holds {repr(got.get(f))[:500]}, should hold {repr(want.get(f))[:500]}")
    ctx.state([case["what"], case["n"], len(want)])


def check(ctx, case):
    if case.get("k") == "grow":
        return many(ctx, case)
    store = Store()
    date = DATES[case["date"]] if case.get("date") is not None else "2020-02-03"
    kw = {} if date is None else {"date": date}
    env.clock_fixed(1_600_000_000 * env.NS)
    w = StreamWriter(dataset="bucket/data", format=case["fmt"], schema=False, partitions=[case["t"]], inner_writer=store.Writer, **kw)
    want = []
    for n, (a, b) in enumerate(case["recs"]):
        rec = {"id": n, "other": ["q", "r"]}
        if a != MISSING:
            rec["k"] = a
        if b != MISSING:
            rec["j"] = b
        if "edges" in case:
            env.clock_set(EDGES[case["edges"][n]] * env.NS)
        when = datetime.datetime.fromtimestamp(env.clock_get() // env.NS, datetime.timezone.utc)
        if date is not None:
            when = date if isinstance(date, datetime.datetime) else datetime.datetime.fromisoformat(str(date))
        orig = repr(rec)
        w.append(rec)
        ctx.expect(repr(rec) == orig, lambda: f"append changed the record {orig} to {rec}")
        want += [(f, n, repr(rec) if case["fmt"] == "text" else rec) for f in expected(case["t"], rec, when)]
        ctx.step()
    w.finalize()
    got = []
    for name, data in store.data_blobs():
        ctx.expect(name.startswith("bucket/data/") and ".." not in name.split("/"), lambda: f"stored outside the dataset: {name}")
        # the blob must belong to exactly one folder: nothing in it may look like a deeper file name
        for r in decode(name, data):
            n = r["id"] if isinstance(r, dict) else int(r.split("'id': ")[1].split(",")[0])
            got.append((norm(folder(name)), n, r))
    key = lambda x: (x[0], x[1])
    got.sort(key=key)
    want.sort(key=key)
    ctx.equal([g[:2] for g in got], [g[:2] for g in want], "folders and records")
    ctx.equal([g[2] for g in got], [g[2] for g in want], "records stored")
    ctx.state(sorted({g[0] for g in got}))
    ctx.count("copies", len(got))
