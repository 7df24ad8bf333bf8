"""C28: every cell value over markup fragments, in every kind of container and position, rendered by the real table functions and read back by an HTML parser and a grid reader."""
import datetime
import decimal
import html.parser
import itertools

from mabel.data.internals.dictset import STORAGE_CLASS, DictSet
from mabel.data.internals.display import ascii_table, html_table

from mcheck.util import seqs

PROPERTY, LEVEL = "C28", "model_checking"
TECHNIQUE = "exhaustive enumeration of cell values over markup fragments in every container and position, the rendered text read back by an HTML parser and a grid reader"
RULE = (
    "every value of up to 2 (quick) or 3 fragments over markup characters, entities, quotes, tags, control and non-ASCII characters, as text, bytes, list, tuple, set, dictionary key and value nested to depth 2, object, column name; every "
    "typed value of an alphabet; every record list of up to 3 (quick) or 4 records with differing columns, for every limit from 1 to one more than the records; every storage class; up to 1025 records and 257 columns; texts and names of up to 10001 characters; a state is a rendering"
)
ASSUMPTIONS = ["limit is at least 1", "the grid is only regular for single-line values and records with the same columns in the same order", "column names have different text"]
FRAGS = ["<", ">", "&", '"', "'", "x", "<script>alert(1)</script>", "&lt;", "&#39;", "</td>", "$", "\n", "`", "<!--", "-->", "' onclick='", '" x="', "é", "\\", "]]>", "<![CDATA[", "\x00", "&amp;lt;", "</title>", "javascript:", "{{", "%3C", "\t"]
DEEP = FRAGS[:14]


class Thing:
    def __init__(self, t):
        self.t = t

    def __str__(self):
        return self.t


class Listed:
    def __init__(self, items):
        self.items_ = items

    def as_list(self):
        return list(self.items_)

    def __iter__(self):
        return iter(self.items_)


class Mapping:
    """not a dict"""

    def __init__(self, d):
        self.d = d

    def items(self):
        return self.d.items()


# container -> (value from text, where the text is to be found in the cell)
HOLD = {
    "text": lambda t: t,
    "bytes": lambda t: t.encode("utf8"),
    "list": lambda t: [t, 1],
    "tuple": lambda t: (t,),
    "set": lambda t: {t},
    "dict value": lambda t: {"k": t, "n": None},
    "dict key": lambda t: {t: 1},
    "list of lists": lambda t: [[t], ["y", t]],
    "list of dicts": lambda t: [{"k": t}, {t: 2}],
    "dict of dicts": lambda t: {"a": {"b": t, t: 1}},
    "dict of lists": lambda t: {"a": [t, t], t: (t,)},
    "object": lambda t: Thing(t),
    "exception": lambda t: ValueError(t),
    "listed": lambda t: Listed([t, Thing(t)]),
    "mapping": lambda t: Mapping({t: t}),
    "bytearray": lambda t: bytearray(t.encode("utf8")),
    "frozenset": lambda t: frozenset([t]),
}
LITERAL = ("text", "list", "tuple", "set", "dict value", "dict key", "list of lists", "list of dicts", "object", "exception", "listed", "mapping")
TYPED = [
    None, True, False, 0, -1, 2.5, float("nan"), float("inf"), 10**30, 1e-9, "", " ", b"", b"<x>", [], {}, (), set(), [[]], [{}], {"a": {}}, datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.date(2020, 1, 2), datetime.time(1, 2),
    datetime.timedelta(hours=1), decimal.Decimal("1.50"), 3j, int, len, Ellipsis, range(3), "a" * 500, "\ud800", "long " * 100, object, [None, True, 1.5, "<b>"], {"<a>": [1, {"<b>": "<c>"}]}, {1: 2, None: 3, (1, 2): 4}, Thing("<i>"), NotImplemented,
]
ROWS = [{"a": "1", "b": "<x>"}, {"a": "two"}, {"b": "'q'", "c": [1, 2]}, {}, {"c": None, "a": "&", "<d>": 4}]
TAGS = {"table", "thead", "tbody", "tr", "th", "td", "p"}


class Page(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows, self.heads, self.bad, self.open_, self.outside = [], [], [], None, ""

    def handle_starttag(self, tag, attrs):
        if tag not in TAGS:
            self.bad.append(f"<{tag}>")
        names = [a for a, _ in attrs]
        allowed = {"table": {"class"}, "thead": {"class"}, "td": {"title", "style"}}.get(tag, set())
        if set(names) - allowed or len(names) != len(set(names)):
            self.bad.append(f"<{tag} {attrs}>")
        if tag == "tr":
            self.rows.append([])
        self.open_ = None
        if tag == "td" and attrs:
            d = dict(attrs)
            self.rows[-1].append([d.get("title"), ""])
            self.open_ = ("td",)
        elif tag == "th":
            self.heads.append("")
            self.open_ = ("th",)
        elif tag == "p":
            self.open_ = ("p",)

    def handle_endtag(self, tag):
        if tag not in TAGS:
            self.bad.append(f"</{tag}>")
        self.open_ = None

    def handle_data(self, data):
        if self.open_ == ("td",):
            self.rows[-1][-1][1] += data
        elif self.open_ == ("th",):
            self.heads[-1] += data
        elif self.open_ is None:
            self.outside += data

    def handle_comment(self, data):
        self.bad.append(f"comment {data!r}")

    def handle_decl(self, decl):
        self.bad.append(f"declaration {decl!r}")

    def handle_pi(self, data):
        self.bad.append(f"instruction {data!r}")

    def unknown_decl(self, data):
        self.bad.append(f"declaration {data!r}")


def units(tier):
    deep = tier == "thorough"
    out = [["cell", 3 if deep else 2, i, 24] for i in range(24)]
    out += [["names", i, 4] for i in range(4)] + [["typed"], ["limit0"], ["long"]]
    out += [["rows", 4 if deep else 3, i, 8] for i in range(8)] + [["grid", 3, i, 8] for i in range(8)] + [["large", i, 4] for i in range(4)]
    return out


def cases(unit):
    k = unit[0]
    if k == "cell":
        _, n, i, m = unit
        texts = [("".join(s)) for s in seqs(FRAGS, 0, 2)] + [("".join(s)) for s in seqs(DEEP if n == 3 else DEEP[:6], 3, 3)]
        for j, t in enumerate(texts):
            if j % m == i:
                yield {"k": "cell", "t": t}
    elif k == "names":
        for j, s in enumerate(seqs(FRAGS, 1, 2)):
            if j % unit[2] == unit[1]:
                yield {"k": "names", "t": "".join(s)}
    elif k == "typed":
        for i in range(len(TYPED)):
            yield {"k": "typed", "i": i}
    elif k == "limit0":
        for n in range(4):
            yield {"k": "empty", "n": n}
    elif k == "long":
        for n in (119, 120, 121, 127, 128, 129, 255, 256, 257, 319, 320, 321, 500, 512, 1000, 1001, 1024, 1025, 2000, 4096, 4097, 10001):
            for f in ("v", "<", "&amp;", "ab ", "é日"):
                yield {"k": "long", "n": n, "f": f}
    elif k == "rows":
        for j, s in enumerate(seqs(range(len(ROWS)), 0, unit[1])):
            if j % unit[3] == unit[2]:
                yield {"k": "rows", "s": list(s)}
    elif k == "large":
        for j, (rows, cols) in enumerate([(1, 9), (2, 10), (1, 33), (2, 64), (1, 101), (1, 257), (6, 2), (9, 1), (10, 2), (11, 2), (50, 3), (64, 2), (99, 1), (100, 2), (101, 2), (256, 1), (500, 1), (501, 2), (1001, 1), (1025, 2)]):
            if j % unit[2] == unit[1]:
                yield {"k": "large", "rows": rows, "cols": cols}
    else:
        alphabet = ["", "a", "long value", 12, None, [1, "b"], {"k": "v"}, -2.5, "é日", "a'b\"c", "  x  ", "   ", "w" * 101, [], {}]
        for j, s in enumerate(itertools.product(range(len(alphabet)), repeat=3)):
            if j % unit[3] == unit[2]:
                yield {"k": "grid", "v": [alphabet[i] for i in s]}


def page(ctx, text, what):
    p = Page()
    p.feed(text)
    p.close()
    ctx.expect(not p.bad, f"{what}: the data became markup: {p.bad[:3]} in {text[:300]!r}")
    return p


def plain(t):
    """HTML parsers replace what cannot be in a document; line ends are kept by this one"""
    return str(t)


def judge(ctx, records, limit, text, what, literal=()):
    p = page(ctx, text, what)
    shown = records[:limit]
    heads = [h.strip("\n") for h in p.heads if h.strip("\n") != "" or any(str(k) == "" for r in shown for k in r)]
    rows = p.rows[1:] if p.heads or shown else p.rows
    names = {str(k) for r in shown for k in r}
    if not any(n.strip("\n") != n or n == "" for n in names):
        ctx.expect(sorted(heads) == sorted(names), f"{what}: headings {heads}, the columns are {sorted(names)}")
    ctx.expect(len(rows) == len(shown), f"{what}: {len(rows)} rows, expected {len(shown)}")
    if len(rows) != len(shown):
        return
    for r, cells in zip(shown, rows):
        ctx.expect(len(cells) == len(names), f"{what}: {len(cells)} cells for {len(names)} columns")
        for title, body in cells:
            ctx.expect(title == body.rstrip("\n") or (title or "").rstrip("\n") == body.rstrip("\n"), f"{what}: the title {title!r} is not the text {body!r}")
        if sorted(heads) == sorted(names) and len(cells) == len(heads):
            at = dict(zip(heads, cells))
            for k, v in list(r.items()):
                cell = at[str(k)][0]
                if isinstance(v, (str, int, float, type(None), decimal.Decimal, datetime.date, datetime.time, bytes, Thing)):
                    ctx.expect(cell == str(v), f"{what}: the cell of {v!r} is {cell!r}")
                elif isinstance(v, (list, tuple)):
                    for i in v:
                        if isinstance(i, (str, int, float)):
                            ctx.expect(str(i) in cell, f"{what}: {i!r} is not in the cell {cell!r}")
                elif isinstance(v, dict):
                    for a, b in v.items():
                        ctx.expect(str(a) in cell and (isinstance(b, (dict, list, tuple)) or str(b) in cell), f"{what}: {a!r}: {b!r} is not in the cell {cell!r}")
            for k in names - {str(k) for k in r}:
                ctx.expect(at[k][0] == "", f"{what}: a record without {k!r} has {at[k][0]!r}")


def both(ctx, records, limit, what):
    ctx.step()
    out = {}
    for label, make in (
        ("html_table", lambda: html_table(iter_over(records), limit)),
        ("to_html_table", lambda: DictSet(records).to_html_table(limit)),
        ("memory", lambda: DictSet(records, storage_class=STORAGE_CLASS.MEMORY).to_html_table(limit)),
    ):
        try:
            text = make()
        except Exception as e:
            ctx.fail(f"{what}: {label} failed with {type(e).__name__}: {e}")
            continue
        out[label] = text
        judge(ctx, records, limit, text, f"{what} ({label})")
    try:
        grid = ascii_table(records, limit)
        ctx.expect(DictSet(records).to_ascii_table(limit) == grid, f"{what}: the two ways to an ascii table differ")
    except Exception as e:
        ctx.fail(f"{what}: ascii_table failed with {type(e).__name__}: {e}")
        grid = None
    ctx.state((what, limit))
    return grid


class iter_over(list):
    pass


def readgrid(ctx, grid, records, limit, what):
    """cells by the widths of the frame"""
    rows = grid.split("\n")
    shown = records[:limit]
    ctx.expect(len({len(r) for r in rows}) == 1, f"{what}: lines of {sorted({len(r) for r in rows})} characters")
    ctx.expect(len(rows) == len(shown) + 4, f"{what}: {len(rows)} lines for {len(shown)} records")
    if len({len(r) for r in rows}) != 1 or len(rows) != len(shown) + 4:
        return
    widths = [len(b) for b in rows[0].strip("┌┐").split("┬")]
    names = list(shown[0])

    def cut(line):
        out, at = [], 1
        for w in widths:
            out.append(line[at : at + w].strip())
            ctx.expect(line[at - 1] == "│", f"{what}: no border at {at - 1} of {line!r}")
            at += w + 1
        return out

    ctx.expect(cut(rows[1]) == [str(n).strip() for n in names], f"{what}: headings {cut(rows[1])}")
    for r, line in zip(shown, rows[3:-1]):
        got = cut(line)
        for k, v, c in zip(r, r.values(), got):
            if isinstance(v, (list, dict)):
                ctx.expect(all(str(i) in c for i in (v if isinstance(v, list) else [*v, *v.values()])), f"{what}: {v!r} is shown as {c!r}")
            else:
                ctx.expect(c == str(v).strip(), f"{what}: {v!r} is shown as {c!r}")


def check(ctx, case):
    k = case["k"]
    if k == "cell":
        for name, hold in HOLD.items():
            what = f"{name} of {case['t']!r}"
            both(ctx, [{"a": hold(case["t"])}], 5, what)
            if name in LITERAL and not isinstance(hold(case["t"]), dict):
                cell = page(ctx, html_table([{"a": hold(case["t"])}]), what).rows[1][0][0]
                ctx.expect(case["t"] in cell, f"{what}: not shown in the cell {cell!r}")
        both(ctx, [{"a": "x", "b": case["t"]}, {"b": case["t"], "a": [case["t"]]}], 2, f"two cells of {case['t']!r}")
    elif k == "names":
        both(ctx, [{case["t"]: 1, "b": case["t"]}], 1, f"a column called {case['t']!r}")
        both(ctx, [{"b": 1}, {case["t"]: {case["t"]: case["t"]}}], 5, f"a second column called {case['t']!r}")
    elif k == "typed":
        v = TYPED[case["i"]]
        both(ctx, [{"a": v}], 5, f"the value {v!r}"[:200])
        both(ctx, [{"a": [v], "b": {"k": v}}, {"a": v, "b": (v, v)}], 5, f"nested {v!r}"[:200])
        try:
            hash(v)
        except TypeError:
            return
        if str(v).strip() and not isinstance(v, tuple):
            both(ctx, [{v: 1, "other": 2}], 5, f"a column called {v!r}"[:200])
    elif k == "empty":
        both(ctx, [{}] * case["n"], 5, f"{case['n']} empty records")
        for sc in STORAGE_CLASS:
            if sc != STORAGE_CLASS.DISK:
                text = DictSet([], storage_class=sc).to_html_table()
                page(ctx, text, "an empty set")
                DictSet([], storage_class=sc).to_ascii_table()
    elif k == "large":
        n, cols = case["rows"], case["cols"]
        records = [{f"col{j}" if j % 7 else f"<{j}>": f"{i}<{j}" if (i + j) % 5 else "v" * (i * j % 130) for j in range(cols)} for i in range(n)]
        for limit in sorted({1, 5, n - 1, n, n + 1, 1000} - {0}):
            what = f"{n} records of {cols} columns, limit {limit}"
            grid = both(ctx, records, limit, what)
            if grid is not None:
                readgrid(ctx, grid, records, limit, what)
            text = html_table(iter(records), limit)
            judge(ctx, records, limit, text, what + " (iterator)")
        if n > 1:
            ragged = [{f"c{j}": j for j in range(i % (cols + 1), cols)} for i in range(n)]
            both(ctx, ragged, n, f"{n} records with some of {cols} columns")
    elif k == "long":
        n = case["n"]
        v = (case["f"] * n)[: n - 1] + "z"
        for records in ([{"a": v, "b": 1}, {"a": "x", "b": v}], [{v: 1, "b": "y"}, {v: v, "b": None}], [{"a": [v, v], "b": {v: v}}]):
            for limit in (1, 5):
                grid = both(ctx, records, limit, f"a text of {n} times {case['f']!r}, limit {limit}")
                if grid is not None:
                    readgrid(ctx, grid, records, limit, f"a text of {n} times {case['f']!r}, limit {limit}")
        cell = page(ctx, html_table([{"a": v}]), "a long text").rows[1][0][0]
        ctx.expect(v in cell, f"a text of {n} times {case['f']!r} is not shown whole: {len(cell)} characters are")
    elif k == "rows":
        records = [ROWS[i] for i in case["s"]]
        for limit in range(1, len(records) + 2):
            both(ctx, records, limit, f"{records} limit {limit}")
        for sc in (STORAGE_CLASS.COMPRESSED_MEMORY, STORAGE_CLASS.DISK):
            if len(records) == 2:
                judge(ctx, records, 1, DictSet(records, storage_class=sc).to_html_table(1), f"{records} from {sc}")
    else:
        a, b, c = case["v"]
        for names in (("a", "b"), ("a long name", "é")):
            records = [{names[0]: a, names[1]: b}, {names[0]: b, names[1]: c}, {names[0]: c, names[1]: a}]
            for limit in (1, 2, 3, 4):
                grid = both(ctx, records, limit, f"{records} limit {limit}")
                if grid is not None:
                    readgrid(ctx, grid, records, limit, f"{records} limit {limit}")
