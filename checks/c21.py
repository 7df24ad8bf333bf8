"""C21: LIKE over every short text and pattern, and quoted text built from every combination of awkward fragments in filters and SQL."""
import itertools

from mabel.data import Reader, SqlReader
from mabel.data.internals.dictset import DictSet
from mabel.data.internals.expression import Expression

from mcheck.core import same
from mcheck.store import Store, lines

PROPERTY, LEVEL = "C21", "model_checking"
TECHNIQUE = "exhaustive enumeration of texts and patterns up to a length, and of quoted literals and names composed from awkward fragments, through the real DNF filter, Expression, Reader and SqlReader, against an independent matcher and plain equality"
RULE = (
    "LIKE and NOT LIKE of every text against every pattern up to the length over a letter (both cases), %, _, a line break, a regular-expression character and a blank; quoted literals and back-quoted names made of every sequence of up "
    "to 2 (thorough 3) fragments: keywords, operators, brackets, comment marks, other quotes, whitespace runs, in a dozen positions of filters and SQL statements, with near misses (whitespace collapsed, trimmed, case changed, "
    "comment cut) in the data; texts and patterns of up to 20000 characters; lists of up to 257 literals; statements and filters which differ in the case, blanks or one character of one text, one after the other; a state is a pattern or statement and what it keeps"
)
ASSUMPTIONS = ["a literal does not contain the quote it is written with", "compared text does not look like a number, boolean or date (text searched with LIKE, CONTAINS and MATCHES may)"]
LETTERS = ["a", "B", "%", "_", "\n", ".", "b"]
FRAGMENTS = [
    "a", "X y", "and", " OR ", "NOT", "in", "is null", "LIKE", "SELECT", "from ", "WHERE", "group by", "ORDER BY", "LIMIT 1", "DISTINCT", "having", "as", "COUNT(*)", "year", "true", "none", "asc", "=", "<>", "!=", ">=", "<", "(", ")", "[",
    "]", ",", "*", "--", "-- x\n", "/*", "*/", "/* y */", "'", '"', "`", "  ", "\t", "\n", "\r\n", " ", ";", "\\", "%", "_", ".", "#", "?", "é", "\u00a0", "{}", "|", "$", "^", "+", "2020-01-01", "5", "::", "@",
]
FEW = ["a", "and", " OR ", "FROM", "(", ")", ",", "*", "--", "/*", "*/", "'", '"', "`", "  ", "\n", "=", "LIMIT 1", "\\", "x"]


def units(tier):
    deep = tier == "thorough"
    out = [["like", 5 if deep else 4, 3, i, 24] for i in range(24)]
    out += [["liketext", i, 4] for i in range(4)]
    out += [["longtext", i, 4] for i in range(4)] + [["longlike", i, 4] for i in range(4)] + [["lists", n] for n in (2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257)]
    n = 16
    out += [["quoted", 2, i, n] for i in range(n)]
    out += [["alike", 2 if deep else 1, i, 8] for i in range(8)]
    if deep:
        out += [["quoted3", 3, i, 64] for i in range(64)]
        out += [["quoted4", 4, i, 64] for i in range(64)]
    else:
        out += [["quoted3f", 3, i, 8] for i in range(8)]
    return out


SIZES = [10, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1001, 1024, 1025, 2048, 4096, 4097, 8200, 20000]


def texts(n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(LETTERS, repeat=k)]


def cases(unit):
    k = unit[0]
    if k == "like":
        _, lt, lp, i, n = unit
        for j, p in enumerate(texts(lp)):
            if j % n == i:
                yield {"k": "like", "pattern": p, "text": lt}
        if lt >= 4:
            # longer patterns, shorter texts
            for j, t in enumerate(itertools.product(LETTERS[:5], repeat=4)):
                if j % n == i:
                    yield {"k": "like", "pattern": "".join(t), "text": 3}
    elif k == "liketext":
        words = ["", "5", "-5", "2.50", "007", "TRUE", "false", "2020-01-01", "2020-01-01T00:00:00", "nan", "1e5", "Été", "été", "a+b", "a*b", "(x)", "[x]", "{x}", "a|b", "^a$", "a\\b", "\\d", "a-z", "~", "a&&b", "tab\there", "x\r\ny", "\u2028", "😀", "ß", "a'b", 'a"b', "a`b", " a ", "100%", "under_score"]
        for j, a in enumerate(words):
            if j % unit[2] == unit[1]:
                for b in words:
                    for p in {b, b + "%", "%" + b, "_" + b[1:] if b else "_", "%" + b[1:], b[:-1] + "_" if b else "", "%" + b + "%", b.upper(), b.swapcase()}:
                        yield {"k": "word", "value": a, "pattern": p}
    elif k == "longtext":
        for j, (n, f) in enumerate(itertools.product(SIZES, ["a", "a b ", " AND x OR ", "(", "--", "  \n ", "'", '"', "\\", "é%_", "/* "])):
            if j % unit[2] == unit[1]:
                yield {"k": "quoted", "x": (f * n)[:n] + "z", "light": True}
                if f[0] != "a":
                    yield {"k": "quoted", "x": "y" * n + f + "z" * 3, "light": True}
    elif k == "longlike":
        for j, n in enumerate(SIZES):
            if j % unit[2] == unit[1]:
                base = ("aB. \n" * n)[:n]
                for v in {base, base + "c", base[:-1] + "c", "c" + base[1:], base[: n // 2] + "c" + base[n // 2 + 1 :], base[:-1], base.swapcase()}:
                    for pat in {base, base + "%", "%" + base, "_" * n, "_" * n + "%", base[:-1] + "_", base[: n // 2] + "%", "%" + base[n // 2 :], base[: n // 2] + "_" + base[n // 2 + 1 :], "%" + base[n // 3 : n // 2] + "%", "%c%", "%c", "c%", "%" * (n if n < 18 else 2), base[0] + "%" * (3 if n < 70 else 1) + base[-1]}:
                        if n < 3000:
                            yield {"k": "word", "value": v, "pattern": pat}
    elif k == "lists":
        for start in range(0, len(FRAGMENTS), 3 if unit[1] < 100 else 15 if unit[1] < 200 else 30):
            yield {"k": "inlist", "n": unit[1], "start": start}
    elif k == "alike":
        for j, t in enumerate(itertools.chain.from_iterable(itertools.product(FRAGMENTS + ["Ab", "x" * 80], repeat=r) for r in range(1, unit[1] + 1))):
            if j % unit[3] == unit[2]:
                yield {"k": "alike", "x": "".join(t) if unit[1] == 2 else "".join(t) + "q Z"}
                yield {"k": "alike", "x": "k" * 70 + "".join(t)}
    else:
        frags = FEW if k in ("quoted3f", "quoted4") else FRAGMENTS
        lo = 0 if k == "quoted" else unit[1]
        for j, t in enumerate(itertools.chain.from_iterable(itertools.product(frags, repeat=r) for r in range(lo, unit[1] + 1))):
            if j % unit[3] == unit[2]:
                yield {"k": "quoted", "x": "".join(t), "light": k != "quoted"}


def greedy(text, pattern):
    """each piece between % as far left as it goes, the last one at the end"""
    first, *rest = pattern.split("%")
    at = lambda piece, i: len(piece) <= len(text) - i and all(p == "_" or p == c for p, c in zip(piece, text[i : i + len(piece)]))
    if not rest:
        return len(first) == len(text) and at(first, 0)
    if not at(first, 0):
        return False
    i, last = len(first), rest.pop()
    for piece in rest:
        if "_" not in piece:
            i = text.find(piece, i)
        else:
            i = next((j for j in range(i, len(text) - len(piece) + 1) if at(piece, j)), -1)
        if i < 0:
            return False
        i += len(piece)
    return len(text) - len(last) >= i and at(last, len(text) - len(last))


def like(text, pattern):
    text, pattern = text.lower(), pattern.lower()
    if len(text) > 20:
        return greedy(text, pattern)
    row = [True] + [False] * len(text)
    for p in pattern:
        if p == "%":
            for i in range(1, len(text) + 1):
                row[i] = row[i] or row[i - 1]
        else:
            row = [False] + [row[i] and (p == "_" or p == text[i]) for i in range(len(text))]
    return row[-1]


_texts = {}


def check(ctx, case):
    globals()["do_" + case["k"]](ctx, case)


def quote(x, prefer="'"):
    other = '"' if prefer == "'" else "'"
    if prefer not in x:
        return prefer + x + prefer
    if other not in x:
        return other + x + other
    return None


def do_like(ctx, case):
    n, p = case["text"], case["pattern"]
    if n not in _texts:
        _texts[n] = [{"v": t} for t in texts(n)]
    recs = _texts[n]
    want = [r["v"] for r in recs if like(r["v"], p)]
    got = [r["v"] for r in DictSet(recs).filter([("v", "like", p)])]
    ctx.expect(got == want, lambda: f"like {p!r} wrongly keeps {[x for x in got if x not in want][:5]} and drops {[x for x in want if x not in got][:5]}")
    ex, neg = Expression(f"v LIKE '{p}'"), Expression(f'v NOT LIKE "{p}"')
    got = [r["v"] for r in recs if ex.evaluate(r)]
    ctx.expect(got == want, lambda: f"LIKE {p!r} wrongly keeps {[x for x in got if x not in want][:5]} and drops {[x for x in want if x not in got][:5]}")
    got = [r["v"] for r in recs if neg.evaluate(r)]
    want = [r["v"] for r in recs if not like(r["v"], p)]
    ctx.expect(got == want, lambda: f"NOT LIKE {p!r} wrongly keeps {[x for x in got if x not in want][:5]} and drops {[x for x in want if x not in got][:5]}")
    ctx.step(3 * len(recs))
    ctx.state(["like", p, n, len(want)])


def do_word(ctx, case):
    v, p = case["value"], case["pattern"]
    want = like(v, p)
    recs = [{"v": v}]
    got = bool(DictSet(recs).filter([("v", "like", p)]).first())
    ctx.expect(got == want, lambda: f"{v!r} like {p!r} (DNF) is {got}")
    q = quote(p)
    if q is not None:
        for text, w in ((f"v LIKE {q}", want), (f"v NOT LIKE {q}", not want), (f"NOT v LIKE {q}", not want)):
            got = bool(Expression(text).evaluate({"v": v}))
            ctx.expect(got == w, lambda: f"`{text}` is {got} for {v!r}")
            ctx.step()
    q = quote(p, '"')
    if q is not None:
        got = bool(Expression(f"v CONTAINS {q}").evaluate({"v": v}))
        ctx.expect(got == (p in v), lambda: f"CONTAINS {q} is {got} for {v!r}")
    ctx.state(["word", v, p, want])


def do_inlist(ctx, case):
    """many quoted texts in one list, each of them and its neighbours in the data"""
    n = case["n"]
    words = []
    for i in range(n):
        f = FRAGMENTS[(case["start"] + i) % len(FRAGMENTS)] + ("" if i < len(FRAGMENTS) else f"{FRAGMENTS[i // 2 % len(FRAGMENTS)]}{i}")
        if not looks(f) and quote(f) is not None and f not in words:
            words.append(f)
    recs = [{"i": i, "v": v} for i, v in enumerate(words + sorted({x for w in words for x in near(w)} - set(words)))]
    want = list(range(len(words)))
    listed = ", ".join(quote(w, "'\""[i % 2]) for i, w in enumerate(words))
    for text, w in ((f"v IN ({listed})", want), (f"NOT v IN ({listed})", [r["i"] for r in recs if r["i"] >= len(words)]), (" OR ".join(f"v = {quote(w)}" for w in words), want)):
        if text.startswith("v = ") and n > 60:
            continue
        got = [r["i"] for r in recs if Expression(text).evaluate(r)] if len(recs) < 60 else list(map(lambda r: r["i"], filter(Expression(text).evaluate, recs)))
        ctx.expect(got == w, lambda: f"`{text[:500]}` wrongly keeps {[recs[i]['v'] for i in got if i not in w][:5]}, drops {[recs[i]['v'] for i in w if i not in got][:5]}")
        ctx.step(len(recs))
    sql(ctx, recs, f"SELECT * FROM bucket.data WHERE v IN ({listed})", want)
    ctx.state(["inlist", n, case["start"]])


def do_alike(ctx, case):
    """statements which differ in one text only, by case, whitespace or a character, one after the other"""
    words = [t for t in dict.fromkeys([*near(case["x"]), case["x"].swapcase(), case["x"] + "1", case["x"] + "2", case["x"] + "x" * 40 + "1", case["x"] + "x" * 40 + "2"]) if not looks(t) and quote(t) is not None]
    recs = [{"i": i, "v": w} for i, w in enumerate(words)]
    store = store_of(recs)
    for turn in (words, words[::-1]):
        for w in turn:
            q = quote(w)
            i = words.index(w)
            alike_ = [r["i"] for r in recs if like(r["v"], w)]
            has = [r["i"] for r in recs if w in r["v"]]
            last = [i] if i == len(words) - 1 else [i, len(words) - 1]
            tail = quote(words[-1])
            for text, want in ((f"v = {q}", [i]), (f"v IN ({q})", [i]), (f"v IN ({q}, {tail})", last), (f"{q} = v", [i]), (f"v LIKE {q}", alike_), (f"v CONTAINS {q}", has), (f"NOT v != {q}", [i]), (f"v = {q} OR v = {tail}", last)):
                if turn is not words and "IN" not in text and text[:3] != "v =":
                    continue
                got = [r["i"] for r in recs if Expression(text).evaluate(r)] if text[:4] == "v IN" else list(map(lambda r: r["i"], filter(Expression(text).evaluate, recs)))
                ctx.expect(got == want, lambda: f"`{text}`, after statements much like it, keeps {[words[j] for j in got]}, not {[words[j] for j in want]}")
                ctx.step()
            for f, want in (((("v", "=", w)), [i]), (("v", "in", [w]), [i]), (("v", "in", [w, words[-1]]), last), (("v", "like", w), alike_), (("v", "contains", w), has), ([[("v", "=", w)], [("v", "=", words[-1])]], last)):
                got = [r["i"] for r in DictSet(recs).filter(f)]
                ctx.expect(got == want, lambda: f"{f!r}, after filters much like it, keeps {[words[j] for j in got]}, not {[words[j] for j in want]}")
                ctx.step()
            if turn is words:
                got = [r["i"] for r in SqlReader(f"SELECT i FROM bucket.data WHERE v = {q}", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03")]
                ctx.expect(got == [i], lambda: f"SQL v = {q}, after statements much like it, keeps {[words[j] for j in got]}")
    names = [w for w in words if "`" not in w and w]
    row = {n: j for j, n in enumerate(names)}
    for n in names:
        ex = [bool(Expression(f"`{n}` = {j}").evaluate(row)) for j in (row[n], row[n] + 1)]
        ctx.expect(ex == [True, False], lambda: f"`{n}` = {row[n]} is {ex[0]} (and = {row[n] + 1} is {ex[1]}) of {row}")
    ctx.state(["alike", case["x"], len(words)])


def looks(x):
    """would the text be taken for a number, a boolean or a date"""
    s = x.strip()
    if s.lower() in ("true", "false"):
        return True
    try:
        float(s)
        return True
    except ValueError:
        return s[:4].isdigit() and s[4:5] == "-"


def near(x):
    """texts that a sloppy reading would take for x"""
    out = {x, x.strip(), " ".join(x.split()), x.lower(), x.upper(), x + " ", " " + x, x.replace("\n", " "), x.replace("  ", " "), x.split("--")[0], x.split("/*")[0], x.replace("'", ""), x.replace('"', ""), x.replace("`", ""), x[1:], x[:-1], x + x}
    return sorted(out)


def do_quoted(ctx, case):
    x = case["x"]
    alike = [t for t in near(x) if not looks(t)]
    recs = [{"i": i, "v": t} for i, t in enumerate(alike)] + [{"i": 99, "v": None}, {"i": 100}]
    eq = [r["i"] for r in recs if r.get("v") == x]
    for pref in ("'", '"'):
        q = quote(x, pref)
        if q is None or q[0] != pref:
            continue
        if not looks(x):
            has = [r["i"] for r in recs if r.get("v") is not None and x in r["v"]]
            for text, want in (
                (f"v = {q}", eq),
                (f"{q} = v", eq),
                (f"v == {q} AND NOT i = 500", eq),
                (f"v = {q} or i = 99", sorted(eq + [99])),
                (f"(v = {q})", eq),
                (f"NOT (v != {q})", eq),
                (f"v IN ({q})", eq),
                (f"v in ('zzz', {q}, 7)", eq),
                (f"v CONTAINS {q}", has),
                (f"v  =\n {q}\tAND i>=0", eq),
            ):
                ex = Expression(text)
                for _ in range(2):
                    got = [r["i"] for r in recs if ex.evaluate(r)]
                    ctx.expect(got == want, lambda: f"`{text}` keeps {[r.get('v') for r in recs if r['i'] in got]}, not {[r.get('v') for r in recs if r['i'] in want]}")
                ctx.step()
            if not case["light"] or pref == "'":
                sql(ctx, recs, f"SELECT * FROM bucket.data WHERE v = {q}", eq)
                sql(ctx, recs, f"select i, v from bucket.data -- note\nwhere v = {q} or i = 99 /* it's */ order by i limit 50", sorted(eq + [99]))
                if not case["light"]:
                    sql(ctx, recs, f"SELECT * FROM (SELECT i, v FROM bucket.data WHERE v = {q}) WHERE NOT v != {q}", eq)
                    store = store_of(recs)
                    got = [r["i"] for r in Reader(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03", filters=f"v = {q}")]
                    ctx.expect(got == eq, lambda: f"Reader(filters=`v = {q}`) keeps {got}, not {eq}")
    if "`" not in x and x != "":
        names = [n for n in near(x) if n]
        recs = [{"i": i, n: 1} for i, n in enumerate(names) if n != "i"] + [{"i": 99, x: 2}, {"i": 100}]
        eq = [r["i"] for r in recs if r.get(x) == 1]
        for text, want in ((f"`{x}` = 1", eq), (f"NOT `{x}` != 1 AND i < 50", eq), (f"(1 = `{x}`)", eq), (f"`{x}` IN (1, 3)", eq), (f"`{x}` is not null and `{x}` < 2", eq)):
            ex = Expression(text)
            for _ in range(2):
                got = [r["i"] for r in recs if ex.evaluate(r)]
                ctx.expect(got == want, lambda: f"`{text}` keeps {[r for r in recs if r['i'] in got]}, not {[r for r in recs if r['i'] in want]}")
            ctx.step()
        sql(ctx, recs, f"SELECT * FROM bucket.data WHERE `{x}` = 1", eq)
        if not case["light"]:
            got = list(SqlReader(f"SELECT i, `{x}` FROM bucket.data WHERE i >= 0", inner_reader=store_of(recs).Reader, start_date="2020-02-03", end_date="2020-02-03"))
            got = [[v for k, v in sorted(r.items(), key=lambda e: e[0] != "i")] for r in got]
            ctx.expect(got == [[r["i"], r.get(x)] for r in recs], lambda: f"SELECT i, `{x}` gives {got}, not {[[r['i'], r.get(x)] for r in recs]}")
    ctx.state(["quoted", x])


def store_of(recs):
    store = Store()
    store.put("bucket/data/year_2020/month_02/day_03/b.jsonl", lines(recs))
    return store


def sql(ctx, recs, text, want):
    got = [r["i"] for r in SqlReader(text, inner_reader=store_of(recs).Reader, start_date="2020-02-03", end_date="2020-02-03")]
    ctx.expect(got == want, lambda: f"`{text}` keeps {[r for r in recs if r['i'] in got]}, not {[r for r in recs if r['i'] in want]}")
    ctx.step()
