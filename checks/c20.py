"""C20: filter expressions generated from an independent syntax tree, every tree up to a size, evaluated on every record of an alphabet."""
import copy
import datetime
import itertools
import re

from mabel.data import Reader
from mabel.data.internals.dictset import STORAGE_CLASS, DictSet
from mabel.data.internals.expression import Expression

from mcheck.core import same
from mcheck.store import Store, lines

PROPERTY, LEVEL = "C20", "model_checking"
TECHNIQUE = "exhaustive enumeration of filter expressions from an independent grammar up to a size and of records over an alphabet, evaluated by the real Expression, DictSet.filter and Reader and by an independent evaluator"
RULE = (
    "every comparison of a column with every literal by every operator (and of literal with column, column with column), IN lists, CONTAINS, LIKE, MATCHES, IS NULL over every value of an alphabet; every boolean tree of up to 3 (quick) "
    "or 4 leaves with NOT at any node, printed with minimal and with all parentheses, over every assignment of true/false/null leaves; IN lists of up to 1000 literals; chains of up to 60 conditions over every (or every almost uniform) assignment; thousands of records; expressions which differ in one literal, name, operator or bracket one after the other; spellings (keyword case, spacing, line breaks, quotes, operator aliases); interleaved evaluation of "
    "several expressions; a state is an expression and the set of records it keeps"
)
ASSUMPTIONS = [
    "text in records does not look like a number, boolean or date (except where the literal is a date and the values are dates)", "booleans are compared with booleans only", "the right-hand side of IN is a list of literals",
    "comparisons have no third truth value: a comparison that is not true is false, so that its NOT is true, and != with a null is true",
]
VALUES = ["missing", None, 0, 1, -1, 2.5, 10, 2**60, 2**53 + 1, 2**53, "", "a", "A", "abc", "b c", "zz", "é", "a\nb", "x%y", [1, "a"], ["abc", None], [], True, False]
NUMERIC = ["0", "1", "-1", "2.5", "10", "-2.5", "0.5", "1e3", "1152921504606846976", "9007199254740993", "1152921504606846977"]
TEXTUAL = ["", "a", "A", "abc", "b c", "b", "zz", "TRUE", "null", "5", "x%y", "a\nb", "and", "é"]
CMP = {"=": lambda a, b: a == b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<>": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
NAMES = ["v", "android", "notes", "island", "inside", "likely", "orders", "_x", "x1", "mixedCase", "nullable", "asc_", "t.v", "contain", "true_v", "minimum"]


# ---- syntax trees: ("cmp", op, operand, operand), ("in", operand, [literals]), ("contains"|"like"|"notlike"|"matches", operand, literal), ("isnull"|"notnull", operand), ("not", t), ("and"|"or", t, t)
# operands: ("col", name), ("num", text), ("txt", text), ("bool", b)
def col(n="v"):
    return ["col", n]


def leaves():
    lits = [["num", n] for n in NUMERIC] + [["txt", t] for t in TEXTUAL] + [["bool", True], ["bool", False]]
    for op in CMP:
        for l in lits:
            yield ["cmp", op, col(), l]
            yield ["cmp", op, l, col()]
    for op in CMP:
        yield ["cmp", op, col(), col("w")]
    small = [["num", "1"], ["num", "2.5"], ["txt", "a"], ["txt", ""], ["txt", "b c"], ["txt", "TRUE"], ["txt", "1"], ["num", "-1"], ["bool", True], ["txt", ","], ["txt", ")"]]
    for n in (1, 2, 3):
        for items in itertools.permutations(small, n) if n < 3 else itertools.combinations(small, n):
            yield ["in", col(), [list(i) for i in items]]
    for t in TEXTUAL + ["1"]:
        yield ["contains", col(), ["txt", t]]
        for k in ("like", "notlike"):
            yield [k, col(), ["txt", t]]
            yield [k, col(), ["txt", t + "%"]]
            yield [k, col(), ["txt", "_" + t]]
    yield ["contains", col(), ["num", "1"]]
    for rx in ("a", "^a", "b$", "[a-c]+", "a.b", "(a|z)", "^$", "x%y", "\\s", "^A$", "é", ".{3}", "b c|zz"):
        yield ["matches", col(), ["txt", rx]]
    yield ["isnull", col()]
    yield ["notnull", col()]


def operand(o, rec):
    k, x = o
    if k == "col":
        return rec.get(x)
    if k == "num":
        return float(x) if re.search("[.e]", x) else int(x)
    return x


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def undefined(t, rec):
    """comparisons the property says nothing about (booleans with numbers, null with null)"""
    if t[0] == "cmp":
        a, b = operand(t[2], rec), operand(t[3], rec)
        if a is None and b is None:
            return True
        if isinstance(a, bool) != isinstance(b, bool) and (is_num(a) or is_num(b)):
            return True
        if t[1] not in ("=", "==", "!=", "<>") and (isinstance(a, (bool, list)) or isinstance(b, (bool, list))):
            return True
        return False
    if t[0] == "in":
        a = operand(t[1], rec)
        vals = [operand(i, rec) for i in t[2]]
        return (isinstance(a, bool) and any(is_num(v) for v in vals)) or (is_num(a) and any(isinstance(v, bool) for v in vals))
    if t[0] in ("like", "notlike"):
        return isinstance(operand(t[1], rec), (bool, list, float))
    if t[0] == "contains":
        a = operand(t[1], rec)
        return isinstance(a, list) and any(isinstance(i, bool) for i in a)
    if t[0] == "not":
        return undefined(t[1], rec)
    if t[0] in ("and", "or"):
        return undefined(t[1], rec) or undefined(t[2], rec)
    return False


def like(text, pattern):
    """independent matcher, no regular expressions"""
    text, pattern = text.lower(), pattern.lower()
    row = [True] + [False] * len(text)
    for p in pattern:
        if p == "%":
            for i in range(1, len(text) + 1):
                row[i] = row[i] or row[i - 1]
        else:
            row = [False] + [row[i] and (p == "_" or p == text[i]) for i in range(len(text))]
    return row[-1]


def truth(t, rec):
    k = t[0]
    if k == "not":
        return not truth(t[1], rec)
    if k == "and":
        return truth(t[1], rec) and truth(t[2], rec)
    if k == "or":
        return truth(t[1], rec) or truth(t[2], rec)
    a = operand(t[2] if k == "cmp" else t[1], rec)
    if k == "isnull":
        return a is None
    if k == "notnull":
        return a is not None
    if k == "cmp":
        b = operand(t[3], rec)
        if t[1] in ("!=", "<>"):
            return a != b
        if a is None or b is None:
            return False
        if t[1] not in ("=", "==") and isinstance(a, str) != isinstance(b, str):
            return False
        return CMP[t[1]](a, b)
    if k == "in":
        return a is not None and any(a == operand(i, rec) and isinstance(a, bool) == isinstance(operand(i, rec), bool) for i in t[2])
    b = operand(t[2], rec)
    if k == "contains":
        if isinstance(a, str):
            return isinstance(b, str) and b in a
        return isinstance(a, list) and b in a
    if k == "like":
        return a is not None and like(str(a), b)
    if k == "notlike":
        return not (a is not None and like(str(a), b))
    if k == "matches":
        return isinstance(a, str) and re.search(b, a) is not None
    raise AssertionError(k)


# ---- printing
STYLES = {
    "plain": {"kw": str.upper, "sp": " ", "tight": False, "q": "'"},
    "lower": {"kw": str.lower, "sp": " ", "tight": False, "q": '"'},
    "title": {"kw": str.title, "sp": "  ", "tight": False, "q": "'"},
    "lines": {"kw": lambda s: s.lower() if len(s) % 2 else s.upper(), "sp": "\n\t ", "tight": False, "q": '"'},
    "tight": {"kw": str.upper, "sp": " ", "tight": True, "q": "'"},
    "back": {"kw": str.upper, "sp": " ", "tight": False, "q": "'", "back": True},
}


def show(t, st, full=False, parent=None):
    sp, kw = st["sp"], st["kw"]

    def words(*w):
        return sp.join(kw(x) for x in w)

    def od(o):
        if o[0] == "col":
            return f"`{o[1]}`" if st.get("back") else o[1]
        if o[0] == "txt":
            q = st["q"] if st["q"] not in o[1] else "'\""[st["q"] == "'"]
            return f"{q}{o[1]}{q}"
        if o[0] == "bool":
            return kw("TRUE" if o[1] else "FALSE")
        return o[1]

    k = t[0]
    if k == "not":
        inner = show(t[1], st, full, "not")
        return kw("NOT") + ("" if st["tight"] and inner[0] == "(" else sp) + inner
    if k in ("and", "or"):
        text = show(t[1], st, full, (k, 0)) + sp + kw(k.upper()) + sp + show(t[2], st, full, (k, 1))
        if st["tight"]:
            text = text.replace(") ", ")").replace(" (", "(")
        need = parent is not None and (full or parent == "not" or (parent[0] == "and" and k == "or"))
        return f"({text})" if need else text
    gap = "" if st["tight"] else sp
    if k == "cmp":
        text = od(t[2]) + gap + t[1] + gap + od(t[3])
    elif k == "in":
        text = od(t[1]) + sp + kw("IN") + gap + "(" + ("," + gap).join(od(i) for i in t[2]) + ")"
    elif k in ("isnull", "notnull"):
        text = od(t[1]) + sp + (words("IS") if k == "isnull" else words("IS", "NOT")) + sp + kw("NULL")
    else:
        op = {"contains": ["CONTAINS"], "like": ["LIKE"], "notlike": ["NOT", "LIKE"], "matches": ["MATCHES"]}[k]
        text = od(t[1]) + sp + words(*op) + sp + od(t[2])
    return f"({text})" if full and parent is not None else text


# ---- units
def units(tier):
    deep = tier == "thorough"
    n = len(list(leaves()))
    out = [["leaf", i, 16] for i in range(16)]
    out += [["styles", i, 8] for i in range(8)]
    out += [["names"], ["dates"], ["long"], ["alike"], ["many", 5003 if not deep else 40009]]
    out += [["tree", 3, i, 8] for i in range(8)]
    if deep:
        out += [["tree", 4, i, 64] for i in range(64)]
        out += [["mix", i, 32, 60] for i in range(32)]
    else:
        out += [["tree4", i, 8] for i in range(8)]
        out += [["mix", i, 8, 24] for i in range(8)]
    return out


def trees(n, names):
    """every tree with n leaves in order, NOT allowed (once) at every node"""

    def build(lo, hi):
        if hi - lo == 1:
            base = [["leaf", names[lo]]]
        else:
            base = []
            for m in range(lo + 1, hi):
                for l in build(lo, m):
                    for r in build(m, hi):
                        base.append(["and", l, r])
                        base.append(["or", l, r])
        return base + [["not", b] for b in base]

    return build(0, n)


def fill(t, kinds):
    if t[0] == "leaf":
        i = "abcd".index(t[1])
        return [
            ["cmp", "=", col(t[1]), ["num", "1"]],
            ["cmp", ">=", col(t[1]), ["num", "1"]],
            ["like", col(t[1]), ["txt", "1"]],
            ["in", col(t[1]), [["num", "1"], ["num", "7"]]],
        ][(i + kinds) % 4]
    return [t[0]] + [fill(x, kinds) for x in t[1:]]


def cases(unit):
    k = unit[0]
    if k == "leaf":
        for i, l in enumerate(leaves()):
            if i % unit[2] == unit[1]:
                yield {"k": "leaf", "t": l, "style": "plain"}
                yield {"k": "leaf", "t": ["not", l], "style": "lower"}
    elif k == "styles":
        for i, l in enumerate(leaves()):
            if i % unit[2] == unit[1]:
                for st in STYLES:
                    if st != "plain":
                        yield {"k": "leaf", "t": l, "style": st}
                        if st in ("tight", "lines"):
                            yield {"k": "leaf", "t": ["and", ["not", l], ["or", ["isnull", col("w")], ["cmp", "!=", col("i"), ["num", "-5"]]]], "style": st}
    elif k == "names":
        for nm in NAMES:
            for st in STYLES:
                for t in (["cmp", "=", col(nm), ["num", "1"]], ["isnull", col(nm)], ["notlike", col(nm), ["txt", "a%"]], ["and", ["in", col(nm), [["num", "1"], ["txt", "abc"]]], ["notnull", col(nm)]], ["not", ["cmp", "<", ["num", "0"], col(nm)]]):
                    yield {"k": "names", "t": t, "style": st, "name": nm}
    elif k == "long":
        for n in (4, 5, 9, 10, 11, 16, 17, 20, 33, 65, 100, 129, 257, 300, 1000):
            for style in STYLES:
                yield {"k": "longin", "n": n, "style": style}
        for n in (4, 5, 6, 7, 8, 9, 10, 12, 17, 33, 60):
            for shape in ("and", "or", "orand", "andor", "right", "nots"):
                for style in ("plain", "lines", "tight"):
                    yield {"k": "chain", "n": n, "shape": shape, "style": style}
    elif k == "alike":
        for g in range(len(alike())):
            for style in ("plain", "lower", "tight"):
                yield {"k": "alike", "group": g, "style": style}
    elif k == "many":
        yield {"k": "many", "n": unit[1]}
    elif k == "dates":
        for op in CMP:
            for lit in ("2020-02-03", "2020-02-03T04:05:06", "2020-02-03 04:05"):
                for flip in (0, 1):
                    yield {"k": "dates", "op": op, "lit": lit, "flip": flip}
    elif k == "tree":
        _, n, i, m = unit
        for size in range(1, n + 1) if n == 3 else (n,):
            for j, t in enumerate(trees(size, "abcd")):
                if j % m == i:
                    yield {"k": "tree", "t": fill(t, j % 4 if size > 1 else 0), "n": size, "styles": ["plain", "lines"] if size > 2 else list(STYLES)}
    elif k == "tree4":
        # four leaves: at most one NOT
        _, i, m = unit
        j = 0
        for t in trees(4, "abcd"):
            if str(t).count("'not'") <= 1:
                j += 1
                if j % m == i:
                    yield {"k": "tree", "t": fill(t, j % 4), "n": 4, "styles": ["plain"]}
    else:
        _, i, m, many = unit
        ls = list(leaves())
        pick = ls[:: max(1, len(ls) // many)]
        for j, (a, b) in enumerate(itertools.product(pick, repeat=2)):
            if j % m == i:
                yield {"k": "mix", "a": a, "b": b}


ALIKE = [
    ["txt", "a"], ["txt", "A"], ["txt", " a"], ["txt", "a "], ["txt", "a b"], ["txt", "a  b"], ["txt", "ab"], ["txt", "aB"], ["txt", "a,b"], ["txt", "a, b"], ["txt", "é"], ["txt", "É"], ["txt", "x" * 64 + "1y"], ["txt", "x" * 64 + "2y"], ["txt", "NOT a"],
    ["txt", "not a"], ["num", "1"], ["num", "10"], ["num", "0.5"], ["num", "-1"], ["num", "5"], ["txt", "1"], ["txt", "-1"], ["bool", True], ["txt", "TRUE"], ["txt", "true"], ["bool", False], ["txt", "null"], ["txt", "v"], ["txt", "`v`"],
]


def alike():
    """groups of expressions which differ in little: a literal, its kind, a column, an operator, the shape"""
    T = [l for l in ALIKE if l[0] == "txt"]
    out = [[["cmp", op, col(), l] for l in ALIKE] for op in CMP] + [[["cmp", op, l, col()] for l in ALIKE] for op in ("=", "<")]
    out += [[[k, col(), l] for l in T] for k in ("like", "notlike", "contains", "matches")]
    out += [[["in", col(), [l]] for l in ALIKE], [["in", col(), [l, ["txt", "zz"]]] for l in ALIKE], [["in", col(), [["num", "7"], l]] for l in ALIKE]]
    out += [[["in", col(), ls] for ls in ([T[0], T[1]], [T[0]], [T[8]], [T[0], ["txt", "b"]], [["txt", "b"], T[0]], [T[9]], [T[0], T[7]], [T[0], T[6]])]]
    names = ["v", "V", "vv", "v_", "v1", "nv", "notv", "NOTv", "vor", "w", "W"]
    out += [[["cmp", "=", col(n), ["num", "1"]] for n in names], [["isnull", col(n)] for n in names], [["in", col(n), [["num", "1"]]] for n in names], [["cmp", "=", col(n), col(m)] for n in names[:4] for m in names[:4]]]
    a, b, c = ["cmp", "=", col("v"), ["num", "1"]], ["cmp", "=", col("V"), ["num", "1"]], ["cmp", "=", col("w"), ["num", "1"]]
    out += [[[o, x, y] for o in ("and", "or") for x in (a, b, ["not", a]) for y in (b, c, ["not", b])], [["and", ["or", a, b], c], ["or", a, ["and", b, c]], ["or", ["and", a, b], c], ["and", a, ["or", b, c]], ["not", ["and", a, b]], ["and", ["not", a], b], ["not", a], ["not", ["not", a]], a, ["not", ["or", a, b]], ["or", ["not", a], b]]]
    return out


def likes():
    vals = [operand(l, {}) for l in ALIKE if l[1] not in ("1", "-1", "TRUE", "true") or l[0] != "txt"] + ["b", "zz", None, "missing", 7, 2]
    recs = [rec(v, [1, None, 2][i % 3], i) for i, v in enumerate(vals)]
    for i, n in enumerate(["V", "vv", "v_", "v1", "nv", "notv", "NOTv", "vor", "W", "v"]):
        recs += [{"i": len(recs), n: 1}, {"i": len(recs) + 1, n: 2, "v": 1}]
    return recs


def rec(v, w, i, name="v"):
    out = {"i": i}
    if not (isinstance(v, str) and v == "missing"):
        out[name] = v
    if not (isinstance(w, str) and w == "missing"):
        out["w"] = w
    return out


def pool():
    ws = ["missing", None, 1, "a", 2.5]
    return [rec(v, w, i * 10 + j) for i, v in enumerate(VALUES) for j, w in enumerate(ws)]


POOL = pool()
ASSIGN = ["missing", None, 1, 2]


def holds(ctx, t, text, recs, reader=True):
    keep = copy.deepcopy(recs)
    defined = [r for r in keep if not undefined(t, r)]
    want = [r for r in defined if truth(t, r)]
    ex = Expression(text)
    got = [r for r in recs if ex.evaluate(r)]
    skip = [r["i"] for r in keep if undefined(t, r)]
    sel = [r for r in got if r["i"] not in skip]

    def diff(sel):
        w = [r for r in sel if r not in want], [r for r in want if r not in sel]
        return f"keeps {w[0][:3]} and drops {w[1][:3]}"

    ctx.expect([r["i"] for r in sel] == [r["i"] for r in want], lambda: f"`{text}` wrongly {diff(sel)}")
    ctx.expect(same(recs, keep), lambda: f"`{text}` changed the records")
    for _ in range(2):
        again = [r for r in recs if ex(r)]
        ctx.expect([r["i"] for r in again] == [r["i"] for r in got], lambda: f"`{text}` gives another answer when evaluated again: {diff([r for r in again if r['i'] not in skip])}")
    if defined:
        f = [r["i"] for r in DictSet(defined).filter(text)]
        ctx.expect(f == [r["i"] for r in want], lambda: f"DictSet.filter(`{text}`) keeps {f}, not {[r['i'] for r in want]}")
    if reader and defined:
        store = Store()
        store.put("bucket/data/year_2020/month_02/day_03/b.jsonl", lines(defined))
        f = list(Reader(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03", filters=text))
        ctx.expect([r["i"] for r in f] == [r["i"] for r in want], lambda: f"Reader(filters=`{text}`) keeps {[r['i'] for r in f]}, not {[r['i'] for r in want]}")
        ctx.expect(same(f, want), lambda: f"Reader(filters=`{text}`) changed the records")
    ctx.step(len(recs))
    ctx.state([text, [r["i"] for r in want]])


def chain(n, shape):
    one = [["cmp", "=" if i % 2 else "!=", col(f"c{i}"), ["num", "1" if i % 2 else "0"]] for i in range(n)]
    if shape == "nots":
        t = one[0]
        for _ in range(n):
            t = ["not", t]
        return t, 1
    if shape == "right":
        t = one[-1]
        for i in range(n - 2, -1, -1):
            t = ["and" if i % 2 else "or", one[i], t]
        return t, n
    if shape == "orand":
        pairs = [["and", one[i], one[i + 1]] if i + 1 < n else one[i] for i in range(0, n, 2)]
        op = "or"
    elif shape == "andor":
        pairs = [["or", one[i], one[i + 1]] if i + 1 < n else one[i] for i in range(0, n, 2)]
        op = "and"
    else:
        pairs, op = one, shape
    t = pairs[0]
    for p in pairs[1:]:
        t = [op, t, p]
    return t, n


def chained(n):
    """records with every assignment, for many columns none, one, two neighbours, all but one and all"""
    if n <= 8:
        bits = list(itertools.product((0, 1), repeat=n))
    else:
        bits = [[b ^ (j in (i, i + d)) for j in range(n)] for b in (0, 1) for i in range(n + 1) for d in (0, 1)]
    return [{"i": k, **{f"c{j}": x for j, x in enumerate(row)}} for k, row in enumerate(bits)]


def check(ctx, case):
    k = case["k"]
    if k == "longin":
        n = case["n"]
        for lits, vals in (
            ([["num", str(j)] for j in range(n)], [-1, 0, 1, n // 2, n - 2, n - 1, n, "0", 0.5]),
            ([["txt", f"t{j}"] for j in range(n)], ["t", "t0", f"t{n // 2}", f"t{n - 2}", f"t{n - 1}", f"t{n}", "T0", 0]),
            ([["num", str(j)] if j % 2 else ["txt", f"t{j}"] for j in range(n)], ["t0", "t1", 0, 1, n - 1, n - 2, f"t{n - 1}", f"t{n - 2}", n]),
        ):
            recs = [rec(v, "missing", i) for i, v in enumerate([v for v in vals if v not in ("0",)] + [None, "missing"])]
            t = ["in", col(), lits]
            for t in (t, ["not", t], ["and", t, ["cmp", "!=", col("i"), ["num", "2"]]], ["or", ["isnull", col()], t]):
                holds(ctx, t, show(t, STYLES[case["style"]]), copy.deepcopy(recs), reader=n % 2 == 0)
    elif k == "alike":
        st, recs = STYLES[case["style"]], likes()
        group = [(t, show(t, st)) for t in alike()[case["group"]]]
        for turn in (group, group[::-1]):
            made = [(t, text, Expression(text)) for t, text in turn] if turn is group else [(t, text, None) for t, text in turn]
            for t, text, ex in made:
                holds(ctx, t, text, recs, reader=False)
                if ex:
                    bad = [r for r in recs if not undefined(t, r) and bool(ex.evaluate(r)) != truth(t, r)]
                    ctx.expect(not bad, lambda: f"`{text}`, made along with expressions much like it, is wrong about {bad[:3]}")
    elif k == "chain":
        t, n = chain(case["n"], case["shape"])
        recs = chained(n)
        for full in (False, True) if case["shape"] != "nots" else (False,):
            holds(ctx, t, show(t, STYLES[case["style"]], full), recs, reader=n < 8)
    elif k == "many":
        n = case["n"]
        recs = [rec([i % 3, "abc", None, "missing", 2.5][i % 5], [1, "a"][i % 2], i) for i in range(n)]
        for t in (["cmp", "=", col(), ["num", "1"]], ["isnull", col()], ["like", col(), ["txt", "a%"]], ["cmp", ">=", col("i"), ["num", str(n - 2)]], ["or", ["cmp", "<", col("i"), ["num", "2"]], ["in", col(), [["num", "2.5"], ["txt", "zz"]]]]):
            holds(ctx, t, show(t, STYLES["plain"]), recs)
    elif k == "leaf":
        holds(ctx, case["t"], show(case["t"], STYLES[case["style"]]), copy.deepcopy(POOL))
    elif k == "names":
        nm = case["name"]
        recs = [rec(v, "missing", i, nm) for i, v in enumerate(VALUES)]
        holds(ctx, case["t"], show(case["t"], STYLES[case["style"]]), recs)
    elif k == "tree":
        names = "abcd"[: case["n"]]
        recs = []
        for i, vals in enumerate(itertools.product(ASSIGN if case["n"] < 4 else [None, 1, 2], repeat=case["n"])):
            r = {"i": i}
            for nme, v in zip(names, vals):
                if v != "missing":
                    r[nme] = v
            recs.append(r)
        for st in case["styles"]:
            for full in (False, True):
                holds(ctx, case["t"], show(case["t"], STYLES[st], full), recs, reader=case["n"] < 3)
    elif k == "dates":
        lit = datetime.datetime.fromisoformat(case["lit"])
        vals = [lit, lit + datetime.timedelta(seconds=1), lit - datetime.timedelta(days=1), None, "missing", "abc", 5]
        recs = [rec(v, "missing", i) for i, v in enumerate(vals)] + [{"i": 7, "v": "2020-02-03T04:05:06"}, {"i": 8, "v": "2019-12-31"}]
        text = f"v {case['op']} '{case['lit']}'" if not case["flip"] else f"'{case['lit']}' {case['op']} v"
        want = []
        for r in recs:
            v = r.get("v")
            if isinstance(v, str) and v[:2] == "20":
                v = datetime.datetime.fromisoformat(v)
            a, b = (v, lit) if not case["flip"] else (lit, v)
            if case["op"] in ("!=", "<>"):
                ok = a != b
            elif not isinstance(v, datetime.datetime):
                ok = False
            else:
                ok = CMP[case["op"]](a, b)
            if ok:
                want.append(r["i"])
        ex = Expression(text)
        for _ in range(2):
            got = [r["i"] for r in recs if ex.evaluate(r)]
            ctx.expect(got == want, lambda: f"`{text}` keeps {[recs[i] for i in got]}, not {[recs[i] for i in want]}")
        ctx.step(len(recs))
        ctx.state([text, want])
    else:
        # two expressions evaluated in turn, record by record
        st = STYLES["plain"]
        ta, tb = show(case["a"], st), show(case["b"], st)
        ea, eb = Expression(ta), Expression(tb)
        recs = copy.deepcopy(POOL[::3])
        for r in recs:
            for t, e, text in ((case["a"], ea, ta), (case["b"], eb, tb), (case["a"], ea, ta)):
                if not undefined(t, r):
                    got = bool(e.evaluate(r))
                    ctx.expect(got == truth(t, r), lambda: f"`{text}` on {r} is {got} when evaluated in turn with `{ta if t is case['b'] else tb}`")
        both = ["and", case["a"], ["not", case["b"]]]
        holds(ctx, both, show(both, st), recs, reader=False)
