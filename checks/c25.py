"""C25: every select list up to a length and every nesting of functions up to a depth, on every record of a value domain, compared with an independent evaluator."""
import copy
import datetime
import hashlib
import itertools

from mabel.data import Reader
from mabel.data.readers.internals.inline_evaluator import Evaluator

from mcheck.core import same
from mcheck.store import Store, lines

PROPERTY, LEVEL = "C25", "model_checking"
TECHNIQUE = "exhaustive enumeration of select expressions (functions, nestings, columns, literals, aliases, spellings) and records, evaluated by the real Evaluator and Reader and by independent definitions of the functions"
RULE = (
    "every function on every value of an alphabet (text with and without dates, dates with and without time, numbers, booleans, null, lists) with every argument; every nesting of up to 3 (quick) or 4 unary functions whose types fit; every "
    "select list of up to 2 (quick) or 3 items with and without aliases, in every spelling; evaluation of records in every order and by several evaluators in turn; Reader with filters on the selected names; lists which differ in one literal, name, alias or bracket one after the other; lists of up to 300 items, nestings of up to 20 functions and thousands of records; every day of seven years and "
    "every time of day to the second for the date parts; a state is an expression and the values it gives"
)
ASSUMPTIONS = [
    "text functions are given text or numbers, number functions numbers or text of numbers; LEFT, RIGHT and MID are given lengths and positions of at least 0; quoted text which is a date is a date",
    "back-quoted columns are labelled as they are written",
    "NOW and RANDOM are only checked for range",
]
D, DT = datetime.date, datetime.datetime
TEXTS = ["", "a", "Ab", " pad ", "it, (is) AS x", "ünï", "12", "-7", "3.75", "abcdefgh", "\ttab\n", "SELECT", "ß", "x" * 40]
DATES = ["2020-02-29", "1999-12-31T23:59:59", "2021-01-03 04:05", "2000-01-01T00:00:00Z", "2020-06-15 12:30:45.678", "2016-01-03"]
DATEVALUES = [DT(2020, 2, 29, 1, 2, 3), DT(1970, 1, 1), D(2021, 3, 31), D(2019, 12, 30), DT(2024, 12, 31, 23, 59, 59, 999999)]
NOTDATES = ["nope", "2020-13-01", "2020-02-30", "", None, 5, 2.5, True, [1]]
NUMBERS = [0, 1, -1, 7, 2.5, -2.5, 0.1, 1e10, 2**53 + 1, 1346604539923853313, -3.999]


# ---- independent definitions: name -> (parameter kinds, result kind, function)
def moment(v):
    """independent parse of the forms in the alphabet"""
    if isinstance(v, DT):
        return v
    if isinstance(v, D):
        return DT(v.year, v.month, v.day)
    if not isinstance(v, str):
        return None
    t = v[:-1] if v.endswith("Z") else v
    t = t.replace("T", " ").split(".")[0]
    for f in ("%Y-%m-%d", "%Y-%m-%d %H:%M", "%Y-%m-%d %H:%M:%S"):
        try:
            return DT.strptime(t, f)
        except ValueError:
            pass
    return None


def part(fn):
    return lambda v: None if moment(v) is None else fn(moment(v))


def cut(t, a, b):
    out = ""
    for i, c in enumerate(str(t)):
        if a <= i < b:
            out += c
    return out


def whole(v):
    if v is None:
        return None
    if isinstance(v, str):
        v = float(v) if "." in v or "e" in v else int(v)
    return int(v) if isinstance(v, int) else int(str(f"{v:.30f}").split(".")[0])


def joined(*v):
    if len(v) == 1 and isinstance(v[0], (list, tuple)):
        return ", ".join(str(i) for i in v[0])
    return "".join(str(i) for i in v)


DEFS = {
    "YEAR": (["date"], "num", part(lambda m: m.year)),
    "MONTH": (["date"], "num", part(lambda m: m.month)),
    "DAY": (["date"], "num", part(lambda m: m.day)),
    "DATE": (["date"], "dateval", part(lambda m: D(m.year, m.month, m.day))),
    "QUARTER": (["date"], "num", part(lambda m: {1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 2, 7: 3, 8: 3, 9: 3}.get(m.month, 4))),
    "WEEK": (["date"], "num", part(lambda m: m.isocalendar()[1])),
    "HOUR": (["date"], "num", part(lambda m: m.hour)),
    "MINUTE": (["date"], "num", part(lambda m: m.minute)),
    "SECOND": (["date"], "num", part(lambda m: m.second)),
    "TIME": (["date"], "time", part(lambda m: datetime.time(m.hour, m.minute, m.second, m.microsecond))),
    "UCASE": (["text"], "text", lambda v: str(v).upper()),
    "UPPER": (["text"], "text", lambda v: str(v).upper()),
    "LCASE": (["text"], "text", lambda v: str(v).lower()),
    "LOWER": (["text"], "text", lambda v: str(v).lower()),
    "TRIM": (["text"], "text", lambda v: str(v).strip()),
    "LEN": (["textonly"], "num", lambda v: sum(1 for _ in v)),
    "STRING": (["text"], "text", lambda v: joined(v) if isinstance(v, list) else str(v)),
    "LEFT": (["text", "len"], "text", lambda v, n: cut(v, 0, n)),
    "RIGHT": (["text", "len"], "text", lambda v, n: cut(v, len(str(v)) - n, len(str(v)))),
    "MID": (["text", "len", "len"], "text", lambda v, n, m: cut(v, n, n + m)),
    "ROUND": (["num"], "num", round),
    "TRUNC": (["numtext"], "num", whole),
    "INTEGER": (["numtext"], "num", whole),
    "DOUBLE": (["numtext"], "num", lambda v: None if v is None else float(v)),
    "BOOLEAN": (["boolish"], "bool", lambda v: str(v) not in ("False", "false", "FALSE")),
    "ISNONE": (["any"], "bool", lambda v: v is None),
    "MD5": (["text"], "text", lambda v: hashlib.md5(str(v).encode("utf8")).hexdigest()),
}
LENGTHS = [0, 1, 2, 3, 8, 39, 100]
DOMAIN = {
    "date": DATES + DATEVALUES + NOTDATES,
    "text": TEXTS + NUMBERS + [["a", 1], ["x"]],
    "textonly": TEXTS + [["a", 1], []],
    "len": LENGTHS,
    "num": NUMBERS,
    "numtext": NUMBERS + ["12", "-7", "3.75", "1346604539923853313", "-0.5", "0", None],
    "boolish": [True, False, "true", "false", "False", "FALSE", "yes", "TRUE"],
    "any": TEXTS[:4] + NUMBERS + [None, True, False, [], [None]],
}


def jsonable(v):
    return not isinstance(v, (D, datetime.time)) and not (isinstance(v, list) and any(not jsonable(i) for i in v))


def evaluate(node, rec):
    """node: ["col", n] | ["lit", text] | ["fn", NAME, [nodes]]"""
    if node[0] == "col":
        return rec.get(node[1])
    if node[0] == "lit":
        return literal(node[1])
    args = [evaluate(a, rec) for a in node[2]]
    return SPECIAL.get(node[1], DEFS.get(node[1], (0, 0, None))[2])(*args)


def literal(t):
    if t[0] in "'\"":
        m = moment(t[1:-1])
        return t[1:-1] if m is None else m
    if t.upper() in ("TRUE", "FALSE"):
        return t.upper() == "TRUE"
    if t.upper() == "NULL":
        return None
    return float(t) if "." in t else int(t)


SPECIAL = {
    "CONCAT": joined,
    "BETWEEN": lambda v, lo, hi: lo < v and v < hi,
    "SORT": sorted,
    "ADDDAYS": lambda v, n: None if moment(v) is None else DT(1, 1, 1) + (moment(v) - DT(1, 1, 1)) + n // 1 * (DT(1, 1, 2) - DT(1, 1, 1)) + (DT(1, 1, 2) - DT(1, 1, 1)) * (n % 1),
    "DAYSDIFF": lambda a, b: None if moment(a) is None or moment(b) is None else int((moment(b) - moment(a)).total_seconds() // 86400),
    "ROUND": lambda v, *n: round(v, *n),
}
SPELL = {
    "plain": (str, ", ", ", ", "", " AS "),
    "tight": (str, ",", ",", "", " AS "),
    "lower": (str.lower, ", ", ",", "", " as "),
    "wide": (str.title, "  ,   ", " , ", " ", "   As  "),
}


def show(node, sp):
    fn, _, comma, pad, _ = SPELL[sp]
    if node[0] == "fn":
        return f"{fn(node[1])}({pad}{comma.join(show(a, sp) for a in node[2])}{pad})"
    return node[1]


def label(node):
    if node[0] == "fn":
        return f"{node[1]}({','.join(label(a) for a in node[2])})"
    return node[1]


def show_list(items, sp):
    return SPELL[sp][1].join("*" if n == "*" else show(n, sp) + (SPELL[sp][4] + a if a else "") for n, a in items)


def project(items, rec):
    out = {}
    if any(n == "*" for n, _ in items):
        out.update(rec)
    for n, a in items:
        if n != "*":
            out[a or label(n)] = evaluate(n, rec)
    return out


def fn(name, *args):
    return ["fn", name, list(args)]


V, W, X = ["col", "v"], ["col", "w"], ["col", "x"]
ITEMS = [
    "*", V, W, ["col", "missing"], ["col", "as_at"], ["lit", "1"], ["lit", "'a, (b) AS c'"], ["lit", "TRUE"], ["lit", "NULL"], ["lit", "2.5"], ["lit", "'2020-02-29'"], fn("UCASE", V), fn("LEFT", W, ["lit", "2"]),
    fn("CONCAT", V, ["lit", "', '"], W), fn("LEFT", fn("UCASE", fn("TRIM", W)), ["lit", "3"]), fn("CONCAT", fn("LEFT", V, ["lit", "1"]), fn("RIGHT", W, ["lit", "1"])), fn("ISNONE", X), fn("MD5", ["lit", "')'"]), fn("MID", V, ["lit", "1"], fn("LEN", W)),
]


def units(tier):
    deep = tier == "thorough"
    out = [["fns", n] for n in DEFS] + [["special", n] for n in ("CONCAT", "BETWEEN", "SORT", "ADDDAYS", "DAYSDIFF", "ROUND", "HASH", "NOW")]
    out += [["nest", 4 if deep else 3, i, 16] for i in range(16)]
    out += [["lists", 3 if deep else 2, i, 24] for i in range(24)]
    out += [["reader", i, 8] for i in range(8)]
    out += [["wide", i, 4] for i in range(4)] + [["deep"], ["alike"], ["many", 5003 if not deep else 50021]]
    out += [["days", y] for y in (1900, 1999, 2000, 2019, 2020, 2021, 2100)] + [["times", i, 4] for i in range(4)]
    return out


def cases(unit):
    k = unit[0]
    if k == "fns":
        name = unit[1]
        kinds = DEFS[name][0]
        for args in itertools.product(*[[["lit", str(n)] for n in LENGTHS] for _ in kinds[1:]]):
            for sp in SPELL:
                yield {"k": "fns", "t": fn(name, V, *args), "sp": sp, "dom": kinds[0]}
        if len(kinds) > 1:
            for a in LENGTHS:
                yield {"k": "cols", "t": fn(name, V, *[["col", c] for c in "wx"[: len(kinds) - 1]]), "sp": "plain", "dom": kinds[0], "w": a}
    elif k == "special":
        yield {"k": "special", "n": unit[1]}
    elif k == "nest":
        unary = [n for n in DEFS if len(DEFS[n][0]) == 1]
        fits = {"num": ("num", "numtext", "text", "any"), "text": ("text", "textonly", "any"), "bool": ("text", "boolish", "any"), "dateval": ("date", "any", "text"), "time": ("text", "any")}
        j = 0
        for depth in range(2, unit[1] + 1):
            for names in itertools.product(unary, repeat=depth):
                if all(DEFS[o][0][0] in fits[DEFS[i][1]] for i, o in zip(names, names[1:])):
                    # null results do not fit everywhere
                    j += 1
                    if j % unit[3] == unit[2]:
                        yield {"k": "nest", "names": list(names)}
    elif k == "lists":
        _, n, i, m = unit
        j = 0
        for size in range(1, n + 1):
            for its in itertools.product(ITEMS, repeat=size):
                for names in itertools.product((None, "n1", "v"), repeat=size):
                    if any(it == "*" and a for it, a in zip(its, names)) or len(set(a for a in names if a)) < sum(1 for a in names if a):
                        continue
                    if size == 3 and names.count(None) < 2:
                        continue
                    j += 1
                    if j % m == i:
                        yield {"k": "list", "items": [[it, a] for it, a in zip(its, names)]}
    elif k == "reader":
        j = 0
        for its in itertools.product(ITEMS, repeat=2):
            for a in (None, "n1", "v"):
                j += 1
                if j % unit[2] == unit[1]:
                    yield {"k": "reader", "items": [[its[0], None], [its[1], a if its[1] != "*" else None]]}
    elif k == "wide":
        for j, n in enumerate((3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 25, 26, 32, 33, 50, 64, 65, 100, 101, 128, 129, 256, 300)):
            if j % unit[2] == unit[1]:
                yield {"k": "wide", "n": n}
    elif k == "deep":
        for n in (4, 5, 6, 8, 9, 10, 12, 16, 17, 20):
            yield {"k": "deep", "n": n}
    elif k == "alike":
        for g in range(len(alike())):
            for sp in SPELL:
                yield {"k": "alike", "group": g, "sp": sp}
    elif k == "many":
        yield {"k": "many", "n": unit[1]}
    elif k == "days":
        first = D(unit[1], 1, 1)
        for i in range(0, 366, 8):
            yield {"k": "days", "d": [(first + datetime.timedelta(days=n)).isoformat() for n in range(i, i + 8)]}
    else:
        for s in range(unit[1] * 21600, (unit[1] + 1) * 21600, 450):
            yield {"k": "times", "s": s}


def alike():
    """groups of select lists which differ in little"""
    lits = ["'a'", "'A'", "' a'", "'a '", "'a  b'", "'a b'", "'ab'", "'a,b'", "'a, b'", "'v'", "'(v)'", "'1'", "1", "'TRUE'", "'True'", "TRUE", "FALSE", "10", "1.5", "NULL", "'NULL'", "'AS'", "'as'", "'" + "x" * 64 + "1y'", "'" + "x" * 64 + "2y'", "'é'", "'É'"]
    names = ["v", "V", "w", "vv", "v_", "v1", "uppers", "lefty", "asv", "V1"]
    out = [[[[["lit", l], a]] for l in lits] for a in (None, "n")] + [[[[fn("CONCAT", V, ["lit", l]), None]] for l in lits], [[[fn("CONCAT", ["lit", l], V), "n"]] for l in lits], [[[fn("MD5", ["lit", l]), None]] for l in lits if l[0] == "'"]]
    out += [[[[["col", c], a]] for c in names for a in (None, "n", "N", "v", "V")], [[[fn(f, ["col", c]), None]] for c in names for f in ("UCASE", "LCASE", "TRIM", "ISNONE", "STRING")]]
    out += [[[[fn("LEFT", fn("CONCAT", V, W), ["lit", n]), None]] for n in ("1", "2", "3", "12")] + [[[fn("CONCAT", fn("LEFT", V, ["lit", n]), W), None]] for n in ("1", "2", "3", "12")] + [[[fn("LEFT", V, ["lit", n]), None]] for n in ("1", "2", "3", "12")]]
    out += [[[[["col", "v"], None], [["col", "w"], None]], [[["col", "w"], None], [["col", "v"], None]], [[["col", "v"], "w"], [["col", "w"], "v"]], [[["col", "v"], "w"]], [[["col", "w"], "v"]], [["*", None], [["col", "v"], "w"]], [["*", None]], [[["col", "v"], None], [["col", "w"], "x"]]]]
    return out


RECORDS = [
    {"v": "abc", "w": " pad ", "x": None},
    {"v": "", "w": "it, (is) AS x", "as_at": "now"},
    {"v": "ünï", "w": "12", "x": 0, "extra": [1, {"v": 2}]},
    {"w": "last", "v": "first", "x": "*"},
]


def close(ctx, got, want, what):
    ctx.expect(same(got, want), f"{what}: {got!r}, expected {want!r}")


def compute(ctx, t, sp, recs):
    text = show(t, sp)
    ev = Evaluator(text)
    for r in recs:
        ctx.step()
        keep = copy.deepcopy(r)
        got = ev(r)
        close(ctx, got, {label(t): evaluate(t, keep)}, f"{text!r} of {keep}")
        close(ctx, r, keep, f"{text!r} changed the record")
    for r in reversed(recs):
        close(ctx, ev(r), {label(t): evaluate(t, r)}, f"{text!r} of {r}, again")
    ctx.state(text)


def check(ctx, case):
    k = case["k"]
    if k == "fns":
        recs = [{"v": v, "i": i} for i, v in enumerate(DOMAIN[case["dom"]])]
        compute(ctx, case["t"], case["sp"], recs)
        if case["sp"] == "plain":
            through_reader(ctx, [[case["t"], "r"], [["col", "i"], None]], [r for r in recs if jsonable(r["v"])], "plain")
            for r in recs:  # each by an evaluator of its own
                close(ctx, Evaluator(show(case["t"], "plain"))(r), {label(case["t"]): evaluate(case["t"], r)}, f"{show(case['t'], 'plain')} of {r}")
    elif k == "cols":
        recs = [{"v": v, "w": case["w"], "x": x} for v in DOMAIN[case["dom"]] for x in LENGTHS]
        compute(ctx, case["t"], "plain", recs)
    elif k == "special":
        special(ctx, case["n"])
    elif k == "nest":
        t = V
        for n in case["names"]:
            t = fn(n, t)
        kind = DEFS[case["names"][0]][0][0]
        recs = []
        for v in DOMAIN[kind]:
            try:
                w = evaluate(t, {"v": v})
            except (TypeError, ValueError, AttributeError):
                continue  # the types do not fit for this value
            recs.append({"v": v})
        if recs:
            compute(ctx, t, "plain" if len(case["names"]) % 2 else "wide", recs)
    elif k == "list":
        items = case["items"]
        for sp in SPELL if len(items) < 3 else ("plain", "wide"):
            text = show_list(items, sp)
            ev, other = Evaluator(text), Evaluator("v AS z, LEFT(w, 1)")
            for order in (RECORDS, RECORDS[::-1]):
                for r in order:
                    ctx.step()
                    keep = copy.deepcopy(r)
                    want = project(items, r)
                    got = ev(r)
                    close(ctx, got, want, f"{text!r} of {keep}")
                    if not any(n == "*" for n, _ in items):
                        close(ctx, list(got), list(want), f"{text!r} of {keep}: the order of the columns")
                    close(ctx, r, keep, f"{text!r} changed the record")
                    close(ctx, other(r), {"z": r.get("v"), "LEFT(w,1)": str(r.get("w"))[:1]}, "another evaluator")
            ctx.state(text)
    elif k == "reader":
        for sp in ("plain", "lower"):
            through_reader(ctx, case["items"], RECORDS, sp, True)
    elif k == "wide":
        n = case["n"]
        names = [f"c{i}" for i in range(n)]
        recs = [{c: f"{j}-{i}" for i, c in enumerate(names) if (i + j) % 4} for j in range(7)]
        lists = {
            "columns": [[["col", c], None] for c in names],
            "reversed": [[["col", c], None] for c in names[::-1]],
            "renamed": [[["col", c], f"n{i}"] for i, c in enumerate(names)],
            "functions": [[fn("UCASE", ["col", c]) if i % 2 else fn("ISNONE", ["col", c]), None if i % 3 else f"f{i}"] for i, c in enumerate(names)],
            "one column": [[["col", "c1"], f"n{i}"] for i in range(n)],
            "literals": [[["lit", str(i)] if i % 2 else ["lit", f"'t, {i}'"], None] for i in range(n)],
            "all and more": ["*", *[[fn("LEFT", ["col", c], ["lit", str(i)]), None] for i, c in enumerate(names)]],
            "concat": [[fn("CONCAT", *[["col", c] for c in names]), "x"], [["col", "c0"], None]],
        }
        for what, items in lists.items():
            items = [["*", None] if i == "*" else i for i in items]
            for sp in SPELL:
                text = show_list(items, sp)
                ev = Evaluator(text)
                keep = copy.deepcopy(recs)
                got = [ev(r) for r in recs]  # all kept until the last has been made
                want = [project(items, r) for r in keep]
                for g, w in zip(got, want):
                    close(ctx, g, w, f"{n} items, {what}")
                    if what != "all and more":
                        close(ctx, list(g), list(w), f"{n} items, {what}: the order of the columns")
                close(ctx, recs, keep, f"{n} items, {what}: the records changed")
                ctx.step(len(recs))
            ctx.state(("wide", n, what))
        through_reader(ctx, lists["functions"], recs, "plain")
    elif k == "deep":
        t = fn("LEFT", V, ["lit", "2"])
        for i in range(case["n"]):
            t = fn("CONCAT", t, ["lit", f"'({i}, '"], W) if i % 3 == 0 else fn("UCASE", t) if i % 3 == 1 else fn("RIGHT", t, ["lit", str(3 + i)])
        for sp in SPELL:
            compute(ctx, t, sp, [{"v": v, "w": w} for v in ("abc", "", "x") for w in ("wW", "")])
    elif k == "alike":
        recs = [{"v": "aB", "V": "v2", "w": "W w", "vv": 1, "v_": 2, "v1": "3", "V1": "four", "uppers": "u", "lefty": "l", "asv": None}, {"v": "x", "w": "y"}]
        group = [(items, show_list(items, case["sp"])) for items in alike()[case["group"]]]
        for turn in (group, group[::-1]):
            made = [(items, text, Evaluator(text)) for items, text in turn]
            for r in recs:
                for items, text, ev in made:
                    close(ctx, ev(r), project(items, r), f"{text!r}, made along with lists much like it, of {r}")
                    close(ctx, Evaluator(text)(r), project(items, r), f"{text!r}, made after lists much like it, of {r}")
                    ctx.step()
        for items, text in group:
            through_reader(ctx, items, recs, case["sp"])
        ctx.state(("alike", case["group"], case["sp"]))
    elif k == "many":
        n = case["n"]
        recs = [{"v": f"text {i}", "w": i % 7, "i": i} for i in range(n)]
        items = [[fn("RIGHT", V, ["lit", "3"]), "r"], [["col", "i"], None], [fn("MD5", W), None]]
        ev = Evaluator(show_list(items, "plain"))
        got, want = [ev(r) for r in recs], [project(items, r) for r in recs]
        bad = [(g, w) for g, w in zip(got, want) if g != w]
        ctx.expect(not bad, lambda: f"of {n} records one gave {bad[0][0]} and not {bad[0][1]}")
        ctx.step(n)
        through_reader(ctx, items, recs, "plain")
    elif k == "days":
        recs = [{"v": d} for d in case["d"]] + [{"v": d + "T23:59:59"} for d in case["d"]] + [{"v": D.fromisoformat(d)} for d in case["d"]] + [{"v": DT.fromisoformat(d)} for d in case["d"]]
        for n in DEFS:
            if DEFS[n][0] == ["date"]:
                compute(ctx, fn(n, V), "plain", recs)
        for days in (0, 1, -1, 31, 366, -800):
            compute(ctx, fn("ADDDAYS", V, ["lit", str(days)]), "plain", recs[:16] + recs[24:])
        compute(ctx, fn("DAYSDIFF", V, ["lit", "'2000-02-28 12:00'"]), "plain", recs)
    else:
        base = DT(2021, 3, 4)
        at = [base + datetime.timedelta(seconds=case["s"] + i) for i in range(450)]
        recs = [{"v": t} for t in at[::9]] + [{"v": t.isoformat()} for t in at[::5]] + [{"v": t.isoformat(" ")} for t in at[::7]] + [{"v": t.isoformat() + "Z"} for t in at[::11]]
        for n in ("HOUR", "MINUTE", "SECOND", "TIME", "DATE"):
            compute(ctx, fn(n, V), "plain", recs)


def special(ctx, name):
    if name == "CONCAT":
        for args in itertools.chain(*[itertools.product([V, W, ["lit", "'-'"], ["lit", "7"], ["col", "n"]], repeat=r) for r in (1, 2, 3)]):
            compute(ctx, fn("CONCAT", *args), "plain", [{"v": v, "w": w, "n": 2.5} for v in ("", "a", ["x", 1], 5) for w in ("b", " ", -1)])
    elif name == "BETWEEN":
        for lo, hi in itertools.product([-2, -1, 0, 1, 2, 2.5], repeat=2):
            compute(ctx, fn("BETWEEN", V, ["lit", str(lo)], ["lit", str(hi)]), "plain", [{"v": v} for v in (-2, -1.5, -1, 0, 0.5, 1, 2, 2.5, 3)])
        compute(ctx, fn("BETWEEN", V, ["lit", "'b'"], ["lit", "'d'"]), "plain", [{"v": v} for v in ("a", "b", "ba", "c", "d", "e")])
        compute(ctx, fn("BETWEEN", V, W, X), "plain", [{"v": v, "w": w, "x": x} for v in (1, 2, 3) for w in (1, 2, 3) for x in (1, 2, 3)])
    elif name == "SORT":
        compute(ctx, fn("SORT", V), "plain", [{"v": list(p)} for n in range(4) for p in itertools.product([3, 1, 2.5], repeat=n)] + [{"v": ["b", "a", "C"]}])
    elif name == "ADDDAYS":
        for n in (0, 1, -1, 28, 366, -10000, 0.5, 1.25, -0.25, -366.5):
            compute(ctx, fn("ADDDAYS", V, ["lit", str(n)]), "plain", [{"v": v} for v in DATES + [d for d in DATEVALUES if isinstance(d, DT)] + ["nope", None, "2020-13-01", 5]])
            compute(ctx, fn("ADDDAYS", V, W), "wide", [{"v": v, "w": n} for v in DATES])
    elif name == "DAYSDIFF":
        for a, b in itertools.product(DATES + DATEVALUES + ["nope", None], repeat=2):
            compute(ctx, fn("DAYSDIFF", V, W), "plain", [{"v": a, "w": b}])
    elif name == "ROUND":
        for n in (0, 1, 2):
            compute(ctx, fn("ROUND", V, ["lit", str(n)]), "plain", [{"v": v} for v in (0.125, 2.5, -2.675, 10.04, 7.0)])
    elif name == "HASH":
        seen = {}
        for v in TEXTS + NUMBERS:
            a, b = Evaluator("HASH(v)")({"v": v}), Evaluator("hash( v )")({"v": str(v)})
            close(ctx, a, b, f"HASH of {v!r} and of its text")
            ctx.expect(list(a) == ["HASH(v)"] and set(a["HASH(v)"]) <= set("0123456789ABCDEF"), f"HASH of {v!r}: {a}")
            seen.setdefault(a["HASH(v)"], set()).add(str(v))
            ctx.expect(len(seen[a["HASH(v)"]]) == 1, f"{seen[a['HASH(v)']]} have the same hash")
            ctx.state(("HASH", str(v)))
    else:
        for i in range(200):
            r = Evaluator("RANDOM() AS r")({})["r"]
            ctx.expect(0 <= r < 1, f"RANDOM() gave {r}")
        lo = DT.now()
        ctx.expect(lo <= Evaluator("NOW()")({})["NOW()"] <= DT.now() + datetime.timedelta(seconds=1), "NOW() is not the time")
        ctx.state(("NOW",))


def through_reader(ctx, items, recs, sp, filters=False):
    """Reader selects and then filters"""
    if not recs:
        return
    s = Store()
    half = max(1, len(recs) // 2)
    for i, part_ in enumerate((recs[:half], recs[half:])):
        if part_:
            s.put(f"ds/year_2020/month_01/day_01/p{i}.jsonl", lines(part_))
    day = D(2020, 1, 1)
    text = show_list(items, sp)
    want = [project(items, r) for r in recs]

    def read(**k):
        return list(Reader(dataset="ds", inner_reader=s.Reader, start_date=day, end_date=day, select=text, **k))

    ctx.step()
    close(ctx, read(), want, f"Reader select={text!r}")
    if filters:
        for name in ("v", "n1", "w"):
            for val in ("abc", " pad ", "ABC", "1", "first"):
                close(ctx, read(filters=[(name, "==", val)]), [r for r in want if r.get(name) == val], f"Reader select={text!r} filters {name} == {val!r}")
            close(ctx, read(filters=f"{name} IS NULL"), [r for r in want if r.get(name) is None], f"Reader select={text!r} filters {name} IS NULL")
            close(ctx, read(filters=f"{name} = 'first' OR {name} = 'ABC'"), [r for r in want if r.get(name) in ("first", "ABC")], f"Reader select={text!r} filters {name} = 'first' OR {name} = 'ABC'")
    ctx.state(("reader", text))
