"""C23: SQL statements generated from an independent representation of their clauses, compared with a reference pipeline over small datasets."""
import datetime
import itertools
import re

from mabel.data.readers.internals.sql_reader import InvalidSqlError, SqlReader

from mcheck.store import Store, lines, zst
from mcheck.util import seqs

PROPERTY, LEVEL = "C23", "model_checking"
TECHNIQUE = "exhaustive enumeration of clause combinations and small datasets, the real SqlReader compared with an independent evaluation of the clauses in their order"
RULE = (
    "every combination of select lists (columns, functions, literals, aliases, swapped names, aggregates), DISTINCT, WHERE, GROUP BY, HAVING, ORDER BY (each output column, both ways) and LIMIT (none, 0, 1, 2, 100) over fixed datasets with "
    "nulls, missing columns, ties and text that looks like SQL; core queries over every dataset of up to 3 (quick) or 4 records of an alphabet; every inner query below every outer query, to depth 3; grouped, distinct, limited and nested queries over 10250 (thorough 60007) records; every spelling (keyword case, "
    "whitespace, comments, quotes); every split over blobs, days and formats; malformed statements; statements over columns with names in any case, like each other and like keywords; a state is a statement with its dataset"
)
ASSUMPTIONS = [
    "columns hold values of one type or null (mixed types cannot be ordered)",
    "an alias is visible to WHERE, GROUP BY and HAVING where it names a function (the module documents that functions are part of FROM) and, where it is also the name of a column, is not used by those clauses",
    "an aggregate without GROUP BY over no records may give no row or the row with count 0",
    "the order of groups without ORDER BY is not specified",
]
DAY = datetime.date(2020, 1, 1)
LIMITS = [None, 0, 1, 2, 100]
R = [
    {"a": 1, "b": "xy"},
    {"a": 2, "b": "xz"},
    {"a": None, "b": "yy"},
    {"b": "xy"},
    {"a": 1},
    {"a": 3, "b": "a LIMIT 1 -- FROM (x) GROUP BY b"},
    {"a": -1, "b": "", "c": 2.5},
]
DATASETS = [
    R,
    [R[0], R[0], R[1], R[3], R[3], R[0], R[2]],
    [R[4], R[1], R[6], R[5], R[1], R[4], R[2], R[6], R[0], R[0], R[5]],
    [R[2], R[3]],
    [],
]


def text(r, k):
    return str(r.get(k))


FUNCS = {  # text -> (label, value)
    "LEFT(b, 1)": ("LEFT(b,1)", lambda r: text(r, "b")[:1]),
    "UCASE(b)": ("UCASE(b)", lambda r: text(r, "b").upper()),
    "ISNONE(a)": ("ISNONE(a)", lambda r: r.get("a") is None),
    "CONCAT(b, ' (, AS FROM')": ("CONCAT(b,' (, AS FROM')", lambda r: text(r, "b") + " (, AS FROM"),
    "LEFT(UCASE(b), 2)": ("LEFT(UCASE(b),2)", lambda r: text(r, "b").upper()[:2]),
}
WHERES = {
    None: lambda r: True,
    "a = 1": lambda r: r.get("a") == 1,
    "a > 1": lambda r: r.get("a") is not None and r["a"] > 1,
    "NOT a = 1": lambda r: r.get("a") != 1,
    "b = 'xy' AND a IS NOT NULL": lambda r: r.get("b") == "xy" and r.get("a") is not None,
    "b LIKE 'x%' OR a < 0": lambda r: (r.get("b") or "").lower().startswith("x") or (r.get("a") is not None and r["a"] < 0),
    "b = 'a LIMIT 1 -- FROM (x) GROUP BY b'": lambda r: r.get("b") == R[5]["b"],
    "(a IN (1, 3) OR a IS NULL) AND NOT (b = 'yy')": lambda r: (r.get("a") in (1, 3, None)) and r.get("b") != "yy",
    "a = 99": lambda r: False,
}
ALIASED = {"f = 'x'": lambda r: r["f"] == "x", "f = 'x' AND a = 2": lambda r: r["f"] == "x" and r.get("a") == 2}
SELECTS = [
    [["*"]],
    [["col", "a", None]],
    [["col", "b", None], ["col", "a", None]],
    [["col", "b", "x"]],
    [["col", "a", None], ["col", "a", "x"]],
    [["col", "a", "x"], ["col", "a", "y"], ["col", "b", None]],
    [["col", "a", "b"], ["col", "b", "a"]],
    [["col", "nope", None], ["col", "a", None]],
    [["fn", "LEFT(b, 1)", None], ["col", "a", None]],
    [["fn", "LEFT(b, 1)", "f"], ["fn", "UCASE(b)", None]],
    [["fn", "CONCAT(b, ' (, AS FROM')", "f"], ["col", "b", None]],
    [["fn", "LEFT(UCASE(b), 2)", None], ["fn", "ISNONE(a)", "n"]],
    [["lit", "1", "one"], ["col", "a", None]],
    [["lit", "'t x'", "tx"], ["lit", "2.5", "h"], ["col", "b", "c"]],
    [["*"], ["fn", "LEFT(b, 1)", "f"]],
]
AGGS = [["agg", f, c, n] for f, c, n in (("COUNT", "*", None), ("COUNT", "a", "n"), ("SUM", "a", None), ("MIN", "b", "lo"), ("MAX", "a", None), ("AVG", "a", "mean"))]
GROUPS = [["a"], ["b"], ["b", "a"], ["LEFT(b, 1)"], ["nope", "a"], ["UCASE(b)", "a"]]
HAVINGS = {None: lambda g: True, "a > 1": lambda g: g.get("a") is not None and g["a"] > 1, "COUNT(*) > 1": lambda g: g["COUNT(*)"] > 1, "SUM(a) = 2": lambda g: g["SUM(a)"] == 2, "a IS NULL": lambda g: g.get("a") is None, "MAX(a) < 2 OR COUNT(*) = 1": lambda g: (g["MAX(a)"] is not None and g["MAX(a)"] < 2) or g["COUNT(*)"] == 1}


# ---- reference evaluation
def label(item):
    if item[0] == "col":
        return item[2] or item[1]
    if item[0] == "fn":
        return item[2] or FUNCS[item[1]][0]
    if item[0] == "lit":
        return item[2] or item[1]
    if item[0] == "agg":
        return item[3] or f"{item[1]}({item[2]})"
    return "*"


def litval(t):
    if t[0] == "'":
        return t[1:-1]
    return float(t) if "." in t else int(t)


def project(sel, r):
    out = {}
    for it in sel:
        if it[0] == "*":
            out.update(r)
        elif it[0] == "col":
            out[label(it)] = r.get(it[1])
        elif it[0] == "fn":
            out[label(it)] = FUNCS[it[1]][1](r)
        elif it[0] == "lit":
            out[label(it)] = litval(it[1])
    return out


def aggregate(f, c, rows):
    vals = [1 for _ in rows] if c == "*" else [r[c] for r in rows if r.get(c) is not None]
    if f == "COUNT":
        return len(vals)
    if not vals:
        return None
    return {"SUM": sum, "MIN": min, "MAX": max, "AVG": lambda v: sum(v) / len(v)}[f](vals)


def evaluate(q, data):
    """(rows, ordered): rows before ORDER BY and LIMIT; ordered when their order is defined"""
    ordered = True
    if isinstance(q["src"], dict):
        rows, ordered = evaluate(q["src"], data)
        assert q["src"]["order"] is None and q["src"]["limit"] is None
    else:
        rows = list(data)
    w = q["where"]
    if w in ALIASED:
        rows = [r for r in rows if ALIASED[w](dict(r, f=project([i for i in q["sel"] if label(i) == "f"], r)["f"]))]
    else:
        rows = [r for r in rows if WHERES[w](r)]
    grouped = q["group"] or any(i[0] == "agg" for i in q["sel"])
    if grouped:
        ordered = False
        if q["group"]:
            parts = {}
            for r in rows:
                key = tuple(FUNCS[g][1](r) if g in FUNCS else r.get(g) for g in q["group"])
                parts.setdefault(repr(key), (key, []))[1].append(r)
            parts = list(parts.values())
        else:
            parts = [((), rows)] if rows else []
        out = []
        for key, rs in parts:
            g = {(FUNCS[n][0] if n in FUNCS else n): v for n, v in zip(q["group"] or [], key)}
            every = {f"{f}({c})": aggregate(f, c, rs) for _, f, c, _ in AGGS} if q["having"] else {}
            if not HAVINGS[q["having"]](dict(g, **every)):
                continue
            row = {}
            for it in q["sel"]:
                if it[0] == "agg":
                    row[label(it)] = aggregate(it[1], it[2], rs)
                else:
                    row[label(it)] = g[FUNCS[it[1]][0] if it[0] == "fn" else it[1]]
            out.append(row)
        rows = out
    else:
        rows = [project(q["sel"], r) for r in rows if HAVINGS[q["having"]](r)]
    if q["distinct"]:
        keep, seen = [], set()
        for r in rows:
            key = frozenset(r.items())  # only text, numbers and nulls, and numbers of one type
            if key not in seen:
                seen.add(key)
                keep.append(r)
        rows = keep
    return rows, ordered


def sortkey(v):
    return (v is not None, v)


# ---- printing
STYLES = {
    "plain": (str.upper, " ", "", ""),
    "lower": (str.lower, " ", "", ""),
    "mixed": (lambda k: "".join(c.upper() if i % 2 else c.lower() for i, c in enumerate(k)), "  ", "", ""),
    "lines": (str.title, "\n\t", "", "\n"),
    "comment": (str.upper, " /* a FROM b; it''s \n LIMIT 1 */ ", "/* SELECT x */", "-- LIMIT 1"),
    "dashes": (str.lower, " -- ' comment LIMIT 1\n", "\n", "\n-- WHERE a = 1\n"),
    "tight": (str.upper, "/**/", "/* */", "/*;*/"),
    "tightline": (str.lower, "--\n", "--\n", "--"),
    "crlf": (str.upper, " \r\n ", "\r\n", "\r\n"),
}


def show(q, style="plain", deep=0):
    kw, sp, pre, post = STYLES[style]

    def item(it):
        if it[0] == "*":
            return "*"
        if it[0] == "agg":
            body = f"{kw(it[1])}({it[2]})" if style != "lines" else f"{kw(it[1])} ( {it[2]} )"
        else:
            body = it[1]
            if it[0] == "fn" and style == "lower":
                body = it[1].replace("LEFT", "left").replace("UCASE", "ucase").replace("CONCAT", "concat").replace("ISNONE", "isnone")
            if it[0] == "fn" and style == "lines":
                body = it[1].replace("(b", "( b") if "'" not in it[1] else it[1]
        return f"{body} {kw('AS')} {it[-1]}" if it[-1] else body

    def by(word):
        return f"{kw(word)} {kw('BY')}"

    out = [kw("SELECT")]
    if q["distinct"]:
        out.append(kw("DISTINCT"))
    out.append(("," + (" " if style != "mixed" else "")).join(item(i) for i in q["sel"]))
    out.append(kw("FROM"))
    out.append(f"({show(q['src'], style, deep + 1)})" if isinstance(q["src"], dict) else q["src"])
    if q["where"]:
        out += [kw("WHERE"), q["where"]]
    if q["group"]:
        out += [by("GROUP"), (", " if style != "mixed" else ",").join(q["group"])]
    if q["having"]:
        out += [kw("HAVING"), q["having"]]
    if q["order"]:
        out += [by("ORDER"), q["order"][0]] + ([kw(q["order"][1])] if q["order"][1] else [])
    if q["limit"] is not None:
        out += [kw("LIMIT"), str(q["limit"])]
    return pre + sp.join(out) + (post if not deep or not post.startswith("--") else "")


def query(sel, **k):
    q = {"sel": sel, "distinct": False, "src": "data.set_1", "where": None, "group": None, "having": None, "order": None, "limit": None}
    q.update(k)
    return q


def orders(sel, dirs=(None, "DESC")):
    yield None
    if any(i[0] == "*" for i in sel):
        names = ["a", "b"]
    else:
        names = list(dict.fromkeys(label(i) for i in sel if i[0] != "lit"))
    for n in names:
        if "'" in n or (n[0] != "C" and "(" in n):
            continue
        for d in dirs:
            yield [n, d]


def plain_queries(small=False):
    for sel in SELECTS:
        for d in (False, True):
            ws = list(WHERES) if not small else [None, "NOT a = 1"]
            if any(label(i) == "f" and i[1] == "LEFT(b, 1)" for i in sel if i[0] != "*"):
                ws += list(ALIASED)
            if [label(i) for i in sel] == ["b", "a"] and sel[0][1] == "a":
                ws = [None]  # the aliases hide the columns
            for w in ws:
                if sel[-1][-1] == "c" and w and "b" in w and small:
                    continue
                for o in orders(sel, (None, "ASC", "DESC") if not small else ("DESC",)):
                    for n in LIMITS if not small else (None, 1):
                        yield query(sel, distinct=d, where=w, order=o, limit=n)


def grouped_queries(small=False):
    sets = []
    for group in GROUPS:
        for m in (1, 2, 3):
            for aggs in itertools.combinations(AGGS, m):
                if m == 3 and aggs[0] != AGGS[0]:
                    continue
                sets.append((group, list(aggs)))
        sets.append((group, []))
    sets += [(None, [a]) for a in AGGS] + [(None, list(p)) for p in itertools.permutations(AGGS, 2)]
    for j, (group, aggs) in enumerate(sets):
        if small and len(aggs) > 1 and j % 5:
            continue
        selected = [[]]
        if group:
            keys = [["fn", g, None] if g in FUNCS else ["col", g, None] for g in group]
            named = [[k[0], k[1], "k%d" % i] for i, k in enumerate(keys)]
            selected = [keys, keys[:1], named]
            if group == ["b", "a"]:
                selected.append([["col", "a", "b"], ["col", "b", "a"]])
            if aggs:
                selected.append([])
        for keys in selected if not small else selected[::2]:
            for sel in [keys + aggs] + ([aggs + keys] if aggs and keys and not small and j % 3 == 0 else []):
                if not sel:
                    continue
                havings = [h for h in HAVINGS if h is None or all(f"{f}({c})" not in h or ["agg", f, c] in [a[:3] for a in aggs] for f, c in (("COUNT", "*"), ("SUM", "a"), ("MAX", "a")))]
                havings = [h for h in havings if h not in ("a IS NULL", "a > 1") or (group and "a" in group)]
                for h in havings:
                    for w in (None, "NOT a = 1", "b LIKE 'x%' OR a < 0", "a = 99") if not small else (None, "NOT a = 1"):
                        for o in orders(sel, ("DESC",) if small or j % 4 else (None, "DESC")):
                            for d in (False, True) if j % 5 == 0 else (False,):
                                for n in (None, 1) if small else (LIMITS if j % 7 == 0 else (None, 2)):
                                    if swapped(sel) and w:
                                        continue
                                    yield query(sel, distinct=d, where=w, group=group, having=h, order=o, limit=n)


def swapped(sel):
    return [i[:3] for i in sel if i[0] == "col" and i[2] in ("a", "b")] != []


def core_queries():
    """one of each kind, for the dataset sweep"""
    for sel in SELECTS:
        yield query(sel)
    yield query([["*"]], where="NOT a = 1", order=["b", "DESC"], limit=2)
    yield query([["*"]], order=["a", None], limit=1)
    yield query([["*"]], order=["a", "ASC"])
    yield query([["col", "b", None]], distinct=True)
    yield query([["col", "b", "x"]], distinct=True, order=["x", "DESC"], limit=2)
    yield query([["*"]], limit=2)
    yield query([["*"]], distinct=True, where="a = 1")
    yield query([AGGS[0]])
    yield query([AGGS[0]], where="b LIKE 'x%' OR a < 0")
    yield query([AGGS[0], AGGS[2], AGGS[5]])
    for g in GROUPS:
        keys = [["fn", k, None] if k in FUNCS else ["col", k, None] for k in g]
        yield query(keys, group=g)
        yield query(keys + [AGGS[0], AGGS[2]], group=g)
        yield query(keys + AGGS, group=g, order=["COUNT(*)", "DESC"], limit=2)
        yield query(keys + [AGGS[0]], group=g, having="COUNT(*) > 1", where="NOT a = 1")


def inner_queries():
    yield query([["*"]])
    yield query([["*"]], where="a = 1")
    yield query([["col", "a", None], ["col", "b", None]], where="NOT a = 1")
    yield query([["col", "a", None], ["col", "b", None]], distinct=True)
    yield query([["col", "a", "b"], ["col", "b", "a"]])
    yield query([["fn", "UCASE(b)", "b"], ["col", "a", None]])
    yield query([["col", "b", None], ["agg", "COUNT", "*", "a"]], group=["b"])
    yield query([["col", "b", None], ["agg", "SUM", "a", "a"]], group=["b"])
    yield query([["col", "a", None], ["col", "b", None]], group=["b", "a"])
    yield query([["agg", "MAX", "a", "a"], ["agg", "MIN", "b", "b"]])
    yield query([["lit", "1", "a"], ["col", "b", None]])


def outer_queries():
    for sel in SELECTS[:6] + [SELECTS[8], SELECTS[9], SELECTS[13], SELECTS[14]]:
        yield query(sel)
    yield query([["*"]], where="a = 1")
    yield query([["col", "b", None]], where="NOT a = 1", distinct=True)
    yield query([["*"]], order=["a", "DESC"], limit=2)
    yield query([["fn", "LEFT(b, 1)", "f"], ["col", "a", None]], where="f = 'x' AND a = 2")
    yield query([AGGS[0]])
    yield query([AGGS[0]], where="a > 1")
    yield query([["col", "a", None], AGGS[0]], group=["a"], order=["COUNT(*)", "DESC"])
    yield query([["fn", "LEFT(b, 1)", None], AGGS[0], AGGS[2]], group=["LEFT(b, 1)"], having="COUNT(*) > 1")
    yield query([["col", "b", None]], limit=1)
    yield query([["col", "b", None], AGGS[0]], group=["b"], where="a = 1")
    yield query([["col", "b", None], ["col", "a", None], AGGS[0]], group=["b", "a"], where="NOT a = 1", having="COUNT(*) > 1", order=["COUNT(*)", "DESC"])
    yield query([["fn", "LEFT(b, 1)", None], AGGS[0]], group=["LEFT(b, 1)"], where="b LIKE 'x%' OR a < 0", limit=1)
    yield query([AGGS[0], AGGS[4]], where="NOT a = 1")
    yield query([["col", "a", None]], group=["a"], where="a > 1")
    yield query([["*"]], having="a IS NULL")
    yield query([["col", "b", "x"]], having="a IS NULL", where="NOT a = 1", distinct=True)


def ungrouped_having():
    for h in ("a IS NULL", "a > 1"):
        for sel in ([["*"]], [["col", "a", None], ["col", "b", None]], [["col", "b", "x"], ["col", "a", None]]):
            for w in (None, "NOT a = 1", "b LIKE 'x%' OR a < 0"):
                for d in (False, True):
                    for o in (None, ["a", "DESC"]):
                        for n in (None, 1):
                            yield query(sel, having=h, where=w, distinct=d, order=o, limit=n)


def big_queries(n):
    star = query([["*"]])
    yield query([["*"]])
    yield query([AGGS[0]])
    yield query([["*"]], limit=n - 3)
    yield query([["col", "a", None]], distinct=True)
    yield query([["*"]], where="NOT a = 1")
    yield query([["col", "a", None], AGGS[0], AGGS[2]], group=["a"])
    yield query([["fn", "LEFT(b, 1)", None], AGGS[0], AGGS[2]], group=["LEFT(b, 1)"])
    yield query([["col", "b", "x"], ["fn", "UCASE(b)", None]])
    for src in (star, query([["col", "a", "a"], ["col", "b", None]], where="NOT a = 1")):
        yield query([["*"]], src=src)
        yield query([AGGS[0]], src=src)
        yield query([["col", "a", None], AGGS[0]], group=["a"], src=src, where="a > 1")
        yield query([["*"]], src=src, distinct=True)
        yield query([["*"]], src=src, limit=n - 100)
    yield query([AGGS[0]], src=query([["col", "a", None], ["agg", "COUNT", "*", "b"]], group=["a"]))
    yield query([AGGS[0]], src=query([["*"]], distinct=True, src=star))


BAD = [
    "", " ", "SELECT *", "SELECT a WHERE a = 1", "FROM data", "WHERE a = 1", "a", "UPDATE data SET a = 1", "DELETE FROM data", "SELECT * FROM", "SELECT * FROM WHERE a = 1", "LIMIT 3", "EXPLAIN SELECT * FROM data", "* FROM data",
    "/* SELECT * FROM data */", "-- SELECT * FROM data", "SELECT * -- FROM data", "'SELECT * FROM data'", "SELECT 'a FROM data'", "SELECT * FROM (SELECT * FROM data", "SELECT * FROM ((SELECT * FROM data)", "SELECT * FROM (data",
    "SELECT * FROM data) WHERE a = 1", "SELECT * FROM (SELECT *)", "SELECT * FROM ()", "SELECT * FROM (FROM data)", "SELECT * FROM (SELECT * FROM (SELECT a))", "(SELECT * FROM data)", "SELECT * FROM data UNION SELECT * FROM data2; x",
    "SELECT a, COUNT(*) FROM data.set_1", "SELECT b, COUNT(*) FROM data.set_1 GROUP BY a", "SELECT b FROM data.set_1 GROUP BY a",
]
BADLIMIT = ["", "-1", "+1", "1.5", "a", "'1'", "1e3", "1 2", "1,2", "ALL", "0x1", "NULL", "1;", "--1", "(1)", "1 OFFSET 2", "²", "1_0", "TRUE"]


NAMES = [
    {"a": "Aa", "b": "bB"}, {"a": "A", "b": "B"}, {"a": "b_1", "b": "a_1"}, {"a": "ordering", "b": "fromage"}, {"a": "limits", "b": "Grouped"}, {"a": "counter", "b": "selected"}, {"a": "asc_", "b": "whereVer"}, {"a": "distinctive", "b": "havings"},
    {"a": "android", "b": "nota"}, {"a": "by_a", "b": "as_b"}, {"a": "minimum", "b": "sum_b"}, {"a": "descr", "b": "inner"}, {"a": "aB", "b": "ab"}, {"a": "b", "b": "B"}, {"a": "A", "b": "a"},
]


def rename(t, names):
    """column names outside quoted text"""
    parts = re.split("('[^']*')", t)
    return "".join(x if i % 2 else re.sub(r"\b[ab]\b", lambda m: names[m.group()], x) for i, x in enumerate(parts))


# ---- units
def units(tier):
    deep = tier == "thorough"
    out = [["plain", i, 24] for i in range(24)]
    out += [["grouped", i, 24] for i in range(24)]
    n = 4 if deep else 3
    out += [["sets", n, i, 16] for i in range(16)]
    out += [["sub", i, 4] for i in range(4)]
    out += [["style", i, 4] for i in range(4)]
    out += [["layout", i, 4] for i in range(4)]
    out += [["names", i] for i in range(len(NAMES))]
    out += [["bad"], ["cap"], ["having"]]
    size = 10250 if not deep else 60007
    out += [["big", size, i] for i in range(len(list(big_queries(size))))]
    if deep:
        out += [["small", i, 64] for i in range(64)]
    return out


def cases(unit):
    k = unit[0]
    if k in ("plain", "grouped"):
        for j, q in enumerate(plain_queries() if k == "plain" else grouped_queries()):
            if j % unit[2] == unit[1]:
                yield {"k": "run", "q": q, "d": [1 + j % 2]}
    elif k == "small":
        for j, q in enumerate(itertools.chain(plain_queries(), grouped_queries())):
            if j % unit[2] == unit[1]:
                yield {"k": "run", "q": q, "d": [0, 1, 2, 3, 4]}
    elif k == "sets":
        _, n, i, m = unit
        for j, d in enumerate(seqs(R[:5], 0, n)):
            if j % m == i:
                yield {"k": "set", "data": list(d)}
    elif k == "sub":
        j = 0
        for inner in inner_queries():
            for outer in outer_queries():
                j += 1
                if swapped(inner["sel"]) and inner["group"] is None and (outer["where"] or outer["having"] or any(i[:2] == ["agg", "SUM"] for i in outer["sel"])):
                    continue  # the columns have other types
                if j % unit[2] == unit[1]:
                    yield {"k": "run", "q": dict(outer, src=inner), "d": [0, 1, 3]}
        for a in list(inner_queries())[1:]:
            if [label(i) for i in a["sel"]] == ["b", "a"] and not a["group"] and a["sel"][0][0] == "col":
                continue
            for b in (query([["*"]]), query([["*"]], where="NOT a = 1"), query([["col", "b", None], ["agg", "COUNT", "*", "a"]], group=["b"])):
                for c in (query([["*"]]), query([AGGS[0]]), query([["col", "b", "x"]], where="a = 1", limit=1), query([["col", "a", None], AGGS[0]], group=["a"])):
                    j += 1
                    if j % unit[2] == unit[1]:
                        yield {"k": "run", "q": dict(c, src=dict(b, src=a)), "d": [1]}
    elif k == "style":
        qs = list(core_queries()) + [dict(o, src=i) for i in list(inner_queries())[1:7:2] for o in list(outer_queries())[10:]]
        qs += [query([["*"]], where=w, limit=n) for w in WHERES for n in (None, 2)]
        for j, q in enumerate(qs):
            if j % unit[2] == unit[1]:
                for st in STYLES:
                    yield {"k": "run", "q": q, "d": [1], "style": st}
    elif k == "layout":
        for j, cut in enumerate(itertools.product(range(4), repeat=2)):
            if j % unit[2] == unit[1]:
                for fmt in ("jsonl", "jsonl.zstd", "mixed"):
                    for days in (1, 2):
                        yield {"k": "layout", "cut": sorted(cut), "fmt": fmt, "days": days}
    elif k == "names":
        qs = list(core_queries()) + [dict(o, src=i) for i in list(inner_queries())[1:7:2] for o in list(outer_queries())]
        qs += [query([["*"]], where=w, limit=n) for w in WHERES for n in (None, 2)] + list(ungrouped_having())[::5]
        for j, q in enumerate(qs):
            for st in ("plain", "lower") if j % 2 else ("mixed",):
                yield {"k": "names", "q": q, "d": 1 + j % 2, "style": st, "names": unit[1]}
    elif k == "having":
        for q in ungrouped_having():
            yield {"k": "run", "q": q, "d": [0, 1, 3, 4]}
    elif k == "big":
        yield {"k": "big", "n": unit[1], "i": unit[2]}
    elif k == "bad":
        for t in BAD:
            yield {"k": "bad", "t": t}
        for l in BADLIMIT:
            for head in ("SELECT * FROM data.set_1 ", "SELECT COUNT(*) FROM data.set_1 WHERE a = 1 ORDER BY a DESC\n", "select a from (SELECT * FROM data.set_1) "):
                yield {"k": "bad", "t": f"{head}LIMIT {l}"}
    else:
        for n in (9999, 10000, 10001, 10250):
            yield {"k": "cap", "n": n}


def store(data, cuts=(), fmt="jsonl", days=1):
    s = Store()
    edges = [0, *cuts, len(data)]
    for i, (lo, hi) in enumerate(zip(edges, edges[1:])):
        day = 1 + (i * days) // (len(edges) - 1)
        ext = fmt if fmt != "mixed" else ("jsonl", "jsonl.zstd")[i % 2]
        body = lines(data[lo:hi])
        s.put(f"data/set_1/year_2020/month_01/day_{day:02}/part{i}.{ext}".replace("jsonl.zstd", "zstd"), zst(body) if "zstd" in ext else body)
    return s


def run(text, s, days=1):
    return list(SqlReader(text, inner_reader=s.Reader, start_date=DAY, end_date=DAY + datetime.timedelta(days=days - 1)))


def same_value(x, y):
    if isinstance(x, bool) or isinstance(y, bool) or x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return type(x) is type(y) and x == y
    return abs(float(x) - float(y)) < 1e-9


def same_row(x, y):
    return x.keys() == y.keys() and all(same_value(x[k], y[k]) for k in x)


def judge(ctx, q, text, got, data):
    rows, ordered = evaluate(q, data)
    n = len(rows) if q["limit"] is None else min(q["limit"], len(rows))
    if not rows and not q["group"] and any(i[0] == "agg" for i in q["sel"]):
        ctx.expect(len(got) <= 1, f"{text!r}: {got} for no records")
        return
    if isinstance(q["src"], dict) and not q["src"]["group"] and any(i[0] == "agg" for i in q["src"]["sel"]) and not evaluate(q["src"], data)[0]:
        return
    what = f"{text!r} over {data}"
    ctx.expect(len(got) == n, f"{what}: {len(got)} records, {n} expected: {got[:4]}")
    if len(got) != n:
        return
    left = list(rows)
    for g in got:
        g = dict(g)
        hit = next((i for i, r in enumerate(left) if same_row(g, r)), None)
        if hit is None:
            ctx.fail(f"{what}: gave {g}, the records are {rows[:6]}")
            return
        left.pop(hit)
        if "*" not in [i[0] for i in q["sel"]]:
            ctx.expect(list(g) == list(dict.fromkeys(label(i) for i in q["sel"])), f"{what}: columns {list(g)}")
    if q["order"]:
        c, d = q["order"]
        want = sorted((sortkey(r.get(c)) for r in rows), reverse=d == "DESC")[:n]
        ctx.expect(all(same_value(w[1], g.get(c)) for w, g in zip(want, got)), f"{what}: order {[g.get(c) for g in got]}, expected {[w[1] for w in want]}")
    elif ordered:
        ctx.expect(all(same_row(dict(g), r) for g, r in zip(got, rows)), f"{what}: not in the order of the records: {got}")


def check(ctx, case):
    k = case["k"]
    if k == "run":
        text = show(case["q"], case.get("style", "plain"))
        for d in case["d"]:
            data = DATASETS[d]
            ctx.step()
            judge(ctx, case["q"], text, run(text, store(data)), data)
            ctx.state((text, d))
    elif k == "names":
        # the columns have other names: the result has to be the same under those names
        names, data, q = NAMES[case["names"]], DATASETS[case["d"]], case["q"]
        if isinstance(q["src"], dict) and swapped(q["src"]["sel"]) and (q["where"] or q["having"]):
            return
        text = rename(show(q, case["style"]), names)
        s = store([{names.get(c, c): v for c, v in r.items()} for r in data])
        got = []
        known = {rename(c, names): c for c in [label(i) for i in [*q["sel"], *(q["src"]["sel"] if isinstance(q["src"], dict) else [])] if i[0] != "*"]}
        known.update({names[c]: c for c in "ab"})
        for r in run(text, s):
            got.append({known.get(c, c): v for c, v in dict(r).items()})
        ctx.step()
        judge(ctx, q, text, got, data)
        ctx.state((text, case["d"]))
    elif k == "set":
        s = store(case["data"])
        for q in core_queries():
            text = show(q)
            ctx.step()
            judge(ctx, q, text, run(text, s), case["data"])
            ctx.state((text, repr(case["data"])))
    elif k == "layout":
        data = DATASETS[1]
        s = store(data, case["cut"], case["fmt"], case["days"])
        for q in core_queries():
            text = show(q)
            ctx.step()
            judge(ctx, q, text, run(text, s, case["days"]), data)
            ctx.state((text, repr(case)))
    elif k == "big":
        n = case["n"]
        q = list(big_queries(n))[case["i"]]
        data = [{"a": None if i % 11 == 3 else i if i % 2 else i % 5, "b": "xyz"[i % 3] + str(i % 700)} for i in range(n)]
        s = store(data, (n // 3, n // 3 + 5))
        text = show(q)
        got = run(text, s)
        rows, ordered = evaluate(q, data)
        if q["limit"] is not None:
            rows = rows[: q["limit"]]
        ctx.step(n)
        got = [dict(g) for g in got]
        if not ordered:
            got, rows = sorted(got, key=repr), sorted(rows, key=repr)
        if len(got) != len(rows):
            ctx.fail(f"{text!r} over {n} records: {len(got)} records, {len(rows)} expected")
        else:
            bad = [(g, r) for g, r in zip(got, rows) if not same_row(g, r)]
            ctx.expect(not bad, lambda: f"{text!r} over {n} records gave {bad[0][0]} and not {bad[0][1]}")
        ctx.state((text, n))
    elif k == "bad":
        s = store(R)
        s.put("data/year_2020/month_01/day_01/x.jsonl", lines(R))
        try:
            got = run(case["t"], s)
        except InvalidSqlError:
            got = None
        except Exception as e:
            ctx.fail(f"{case['t']!r} gave {type(e).__name__}: {e}"[:300])
            return
        ctx.expect(got is None, f"{case['t']!r} was accepted and gave {got}"[:300])
        ctx.expect(not s.fetched, f"{case['t']!r}: read {s.fetched} before it was refused")
        ctx.state(case["t"])
    else:
        n = case["n"]
        s = store([{"a": (i * 7919) % n} for i in range(n)])
        for limit in (None, 10000, 10100):
            for d in ("ASC", "DESC"):
                got = [r["a"] for r in run(f"SELECT a FROM data.set_1 ORDER BY a {d}" + (f" LIMIT {limit}" if limit else ""), s)]
                want = sorted(range(n), reverse=d == "DESC")[: limit or 10000]
                ctx.expect(got == want, f"{n} records ordered {d} with limit {limit}: {len(got)} records, expected {len(want)}")
                ctx.state((n, limit, d))
