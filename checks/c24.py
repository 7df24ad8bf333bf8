"""C24: every FROM token over a hostile alphabet, at every nesting, and every dataset name with every list of prefixes; the inner reader records what it is asked for."""
import datetime
import itertools

from mabel.data import Reader
from mabel.data.readers.internals.sql_reader import InvalidSqlError, SqlReader
from mabel.data.readers.reader import AccessDenied

from mcheck.store import Store, lines
from mcheck.util import seqs

PROPERTY, LEVEL = "C24", "model_checking"
TECHNIQUE = "exhaustive enumeration of dataset names in SQL statements and Reader calls against a recording store, compared with an independent reading of the rules"
RULE = (
    "every name of up to 5 (quick) or 6 characters over letters, digits, separators, quotes, wildcards, brackets, control and non-ASCII characters as the FROM of a statement; up to 3 characters in other statements and in subqueries of "
    "depth 1 and 2, inside and outside; every dataset name of up to 5 or 7 characters over a small alphabet with every list of prefixes, by Reader and by SqlReader with subqueries; names of up to 5000 characters with one bad part anywhere, 12 levels deep, lists of up to 257 prefixes; a state is a statement or name with what was asked of the store"
)
ASSUMPTIONS = ["comments are removed before names are judged, so that -- and /* in a statement are not part of a name", "an empty list of prefixes is no list", "spaces around a name are not part of it"]
DAY = datetime.date(2020, 1, 1)
ALPHA = ["a", "Z", "0", ".", "/", "-", "_", "*", "'", "\\", "~", " ", "é"]
MORE = ["$", ";", ":", "%", "\"", "`", "{", "(", ")", "[", "?", "|", "&", "<", "=", ",", "\x00", "\n", "@", "#", "!", "^", "+", "½", "̈", "١"]
FRAMES = {
    "plain": "SELECT * FROM {}",
    "clauses": "select a, COUNT(*) from\n {} \nWHERE a = 1 GROUP BY a ORDER BY a LIMIT 2",
    "sub": "SELECT * FROM (SELECT * FROM {})",
    "sub2": "SELECT a FROM ( SELECT a FROM ( SELECT * FROM {} WHERE a = 1 ) ) WHERE a = 1",
    "deep": "SELECT * FROM (" * 12 + "SELECT * FROM {}" + ")" * 12,
    "leading": "FROM {} SELECT *",
}
PREFIXES = [["a"], ["b"], ["a/"], ["ab"], ["a/b"], ["b/", "ab"], ["aa", "b"], ["A"], ["/"], ["a."], ["abcdefg"], [""], ["bb", "ba", "a/a"]]
NAMES = ["a", "b", "/", "."]


class Recorder:
    """inner reader class factory which only records"""

    def __init__(self):
        self.made = []
        self.store = Store()
        rec = self

        class Inner(self.store.Reader):
            def __init__(self, **kw):
                rec.made.append(kw.get("dataset"))
                super().__init__(**kw)

            def get_blobs_at_path(self, path):
                rec.store.listed.append(str(path))
                return [str(path).rstrip("/") + "/x.jsonl"]

            def get_blob_bytes(self, blob):
                rec.store.fetched.append(blob)
                return lines([{"a": 1}])

        self.Inner = Inner

    def asked(self):
        return [p for p in self.made] + self.store.listed + self.store.fetched


def strip_comments(t):
    """outside of quotes: -- to the end of the line, /* to */"""
    out, i = "", 0
    while i < len(t):
        c = t[i]
        if c in "'\"`":
            j = t.find(c, i + 1)
            if j >= 0:
                out += t[i : j + 1]
                i = j + 1
                continue
        if t.startswith("--", i):
            while i < len(t) and t[i] not in "\r\n":
                i += 1
            continue
        if t.startswith("/*", i):
            j = t.find("*/", i + 2)
            if j >= 0:
                i = j + 2
                continue
        out += c
        i += 1
    return out


def allowed(name):
    """the folder a name stands for, None when it is to be refused"""
    name = name.strip()
    if not name or not name[0].isalpha():
        return None
    if any(x in name for x in ("..", "//", "--", "./", "/.")):
        return None
    if not all(c.isalnum() or c in "./-_" for c in name):
        return None
    return name.replace(".", "/")


def units(tier):
    deep = tier == "thorough"
    n = 6 if deep else 5
    out = [["from", n, i, 24] for i in range(24)]
    out += [["more", 3 if deep else 2, i, 8] for i in range(8)]
    out += [["frames", i, 16] for i in range(16)]
    out += [["prefix", n + 1 if deep else n, i, 16] for i in range(16)]
    out += [["sqlprefix", i, 8] for i in range(8)]
    out += [["long", i, 8] for i in range(8)]
    out.append(["manyprefixes"])
    return out


def cases(unit):
    k = unit[0]
    if k == "from":
        _, n, i, m = unit
        for j, c in enumerate(seqs(ALPHA, 0, n)):
            if j % m == i:
                yield {"k": "sql", "n": "".join(c), "f": "plain"}
    elif k == "more":
        _, n, i, m = unit
        for j, c in enumerate(seqs(MORE + ["a", "/", "."], 1, n)):
            if j % m == i:
                for pre, post in itertools.product(("", "a", "a/b", "a."), ("", "b", "/b")):
                    yield {"k": "sql", "n": pre + "".join(c) + post, "f": "plain"}
    elif k == "frames":
        _, i, m = unit
        for j, c in enumerate(seqs(ALPHA + [";", "\x00"], 0, 3)):
            if j % m == i:
                for f in FRAMES:
                    yield {"k": "sql", "n": "".join(c), "f": f}
        if i == 0:
            for f in FRAMES:
                for n in ("a/../b", "../etc/passwd", "/etc/passwd", "a/b/c.d_e-f", "a....b", "~/x", "C:/x", "file:///x", "a%2e%2e/b", "a\\..\\b", "_a", "-a", "1a", "a-", "a/", "a.", "data-1.set_2/x", "ａ/b", "a\u200b", "a\u2024\u2024/b", "а.b", "tests.data.tweets"):
                    yield {"k": "sql", "n": n, "f": f}
    elif k == "long":
        j = 0
        for n in (5, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025, 5000):
            for bad in ("", "..", "//", "./", "/.", "--", "\\", "*", "~", "$", "é", "\x00", "%", " x"):
                for at in (1, n // 2, n):
                    base = "".join("a/b.c-d_"[i % 8] for i in range(n - 1)) + "z"
                    for f in ("plain", "sub2", "deep"):
                        j += 1
                        if j % unit[2] == unit[1] and (f == "plain" or n < 300):
                            yield {"k": "sql", "n": base[:at] + bad + base[at:] if bad else base, "f": f}
    elif k == "manyprefixes":
        for n in (1, 2, 3, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 257):
            for hit in (None, 0, n // 2, n - 1):
                for long in (1, 7, 40):
                    yield {"k": "many", "n": n, "hit": hit, "long": long}
    elif k == "prefix":
        _, n, i, m = unit
        for j, c in enumerate(seqs(NAMES, 0, n)):
            if j % m == i:
                yield {"k": "prefix", "n": "".join(c)}
    else:
        _, i, m = unit
        for j, c in enumerate(seqs(NAMES, 1, 4)):
            n = "".join(c)
            if j % m == i and allowed(n):
                yield {"k": "sqlprefix", "n": n}


def run(r, text, **k):
    return list(SqlReader(text, inner_reader=r.Inner, start_date=DAY, end_date=DAY, **k))


def inside(p, folder):
    return p == folder or p.startswith(folder.rstrip("/") + "/")


def shown(folder):
    return folder


def many(ctx, case):
    """long lists of long prefixes, of which at most one allows the name"""
    n, hit = case["n"], case["hit"]
    name = "data/" + "x" * case["long"] + "/set"
    prefixes = [f"other{i}/" for i in range(n)]
    for i in range(0, n, 3):  # nearly
        prefixes[i] = [name[:-1] + "x", name + "t", name.upper(), name[1:], "d" + name][i // 3 % 5]
    if hit is not None:
        prefixes[hit] = name[: -1 if n % 2 else 6]
    for given in (prefixes, tuple(prefixes)):
        r = Recorder()
        for how in ("Reader", "plain", "sub2"):
            try:
                if how == "Reader":
                    Reader(dataset=name, inner_reader=r.Inner, start_date=DAY, end_date=DAY, valid_dataset_prefixes=given)
                else:
                    run(r, FRAMES[how].format(name), valid_dataset_prefixes=given)
                what = "ok"
            except AccessDenied:
                what = "denied"
            except Exception as e:
                what = f"{type(e).__name__}: {e}"
            ctx.step()
            ctx.expect(what == ("denied" if hit is None else "ok"), lambda: f"{how} of {name} with {n} prefixes, {'none' if hit is None else 'one'} of which allows it: {what}")
            ctx.expect(hit is not None or not r.asked(), lambda: f"{how} of {name}: denied after {r.asked()[:3]}")
    ctx.state([n, hit, case["long"]])


def check(ctx, case):
    k, n = case["k"], case["n"]
    if k == "many":
        return many(ctx, case)
    r = Recorder()
    if k == "sql":
        text = FRAMES[case["f"]].format(n)
        clean = strip_comments(text)
        head, tail = strip_comments(FRAMES[case["f"]]).split("{}")
        if clean.startswith(head) and clean.endswith(tail) and len(clean) >= len(head) + len(tail):
            name = clean[len(head) : len(clean) - len(tail)]
        elif "--" in n or "/*" in n:
            name = None  # the rest of the statement is part of the comment
        else:
            name = n
        balanced = not any(c in n for c in "()'\"`") and name is not None
        folder = allowed(name) if name is not None else None
        try:
            run(r, text)
            what = "ok"
        except InvalidSqlError:
            what = "refused"
        except Exception as e:
            what = f"{type(e).__name__}: {e}"
        if name is None:
            # a comment cut the statement: whatever it now says, nothing outside of the folder the name starts with
            lead = strip_comments(n).split("\n")[0].strip()
            ok = allowed(lead)
            ctx.expect(all(ok is not None and inside(p, ok) for p in r.asked()), f"{text!r} {what}: asked for {r.asked()[:3]}")
        elif folder is None:
            ctx.expect(not r.asked(), f"{text!r} {what}: asked for {r.asked()[:3]}")
            if balanced:
                ctx.expect(what == "refused", f"{text!r}: {what}")
            else:
                ctx.expect(what != "ok", f"{text!r}: {what}")
        else:
            ctx.expect(what == "ok", f"{text!r}: {what}")
            ctx.expect(r.asked() and all(inside(p, folder) for p in r.asked()), f"{text!r}: asked for {r.asked()[:3]}, the dataset is {folder}")
        ctx.state((text, what))
        return
    for prefixes in [None] + PREFIXES:
        r.made.clear(), r.store.listed.clear(), r.store.fetched.clear()
        want = prefixes is None
        for p in prefixes or []:
            want = want or (n if k == "prefix" else n.replace(".", "/"))[: len(p)] == p
        variants = ["Reader"] if k == "prefix" else list(FRAMES)
        for v in variants:
            r.made.clear(), r.store.listed.clear(), r.store.fetched.clear()
            try:
                if k == "prefix":
                    got = Reader(dataset=n, inner_reader=r.Inner, start_date=DAY, end_date=DAY, valid_dataset_prefixes=prefixes)
                    what = "ok"
                    ctx.expect(r.made == [n], f"the reader of {n!r} was made with {r.made}")
                else:
                    run(r, FRAMES[v].format(n), valid_dataset_prefixes=prefixes)
                    what = "ok"
            except AccessDenied:
                what = "denied"
            except Exception as e:
                what = f"{type(e).__name__}: {e}"
            ctx.step()
            if want and k == "prefix":
                ctx.expect(what != "denied", f"{v} {n!r} with prefixes {prefixes}: {what}")
            elif want:
                ctx.expect(what == "ok", f"{v} {n!r} with prefixes {prefixes}: {what}")
            else:
                ctx.expect(what == "denied", f"{v} {n!r} with prefixes {prefixes}: {what}")
                ctx.expect(not r.asked(), f"{v} {n!r} with prefixes {prefixes}: denied after {r.asked()[:3]}")
            ctx.state((n, repr(prefixes), v, what))
