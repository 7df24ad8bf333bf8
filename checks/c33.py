"""C33: every XML tree up to a size, in every notation, and whole-document blobs in every mix, on the real Reader."""
import io
import itertools
import json
import zipfile

from mcheck import streams  # noqa: keeps threads inert
from mabel.data import Reader
from mabel.data.internals.dictset import STORAGE_CLASS

from mcheck.core import same
from mcheck.store import Store

PROPERTY, LEVEL = "C33", "model_checking"
TECHNIQUE = "exhaustive enumeration of XML trees, notations and mixes of whole-document blobs read by the real Reader against the generated trees"
RULE = (
    "every XML tree up to the number of elements, over names (with and without namespaces), attributes and texts, as .xml, .lxml, in a zip and through override_format; every notation (declaration, encoding, CDATA, entities, comments, "
    "layout) of fixed trees; documents of up to 10001 repeats, names, attributes, rows and 390 levels; every sequence of xml, lxml, json, txt and zip blobs up to the length, read whole, in pieces with a cursor, filtered and held by every storage class; a state is the records read"
)
ASSUMPTIONS = [
    "sibling elements (and attributes of one element) have the same local name only if they have the same full name (one overwrites the other otherwise)",
    "no text after the first child element (it is not read)", "in-memory store",
]
FOLDER = "bucket/data/year_2020/month_02/day_03/"
NS = 'xmlns:n="urn:n"'
NAMES = ["a", "b", "n:a", "n:c", "Ab.c-D_é"]
TEXTS = [None, "t", " ", " t\n u ", "é<&\"'>"]
ATTRS = [(), (("x", "1"),), (("x", ""), ("y", "q\"<&")), (("n:x", "2"),), (("X-y.Z", " V "), ("n:Q", "Ab"))]
KINDS = ["xml", "lxml", "json", "txt", "zip"]


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def local(name):
    return name.split(":")[-1]


# a tree is [name, attrs, text, children]
def render(tree, top=True, flat=False):
    name, attrs, text, kids = tree
    out = f"<{name}" + (f" {NS}" if top else "") + "".join(f' {k}="{esc(v)}"'.replace('=""', '=""') if '"' not in v else f" {k}='{esc(v)}'" for k, v in attrs)
    if text is None and not kids:
        return out + "/>"
    t = esc(text or "")
    if flat:
        t = t.replace("\n", "&#10;")
    return out + ">" + t + "".join(render(k, False, flat) for k in kids) + f"</{name}>"


def content(tree):
    name, attrs, text, kids = tree
    stripped = None if text is None or text == "" else text.strip()
    if not attrs and not kids:
        return stripped
    out = {}
    for k in kids:
        out.setdefault(local(k[0]), []).append(content(k))
    out = {k: v[0] if len(v) == 1 else v for k, v in out.items()}
    out.update(("@" + local(k), v) for k, v in attrs)
    if stripped:
        out["#text"] = stripped
    return out


def record(tree):
    return {local(tree[0]): content(tree)}


def clash(tree):
    by = {}
    for k in tree[3]:
        if by.setdefault(local(k[0]), k[0]) != k[0]:
            return True
    names = [local(k) for k, v in tree[1]]
    return len(set(names)) != len(names) or any(clash(k) for k in tree[3])


def shapes(n):
    """trees of n unlabelled elements"""
    if n == 1:
        yield []
        return
    for first in range(1, n):
        for a in shapes(first):
            for b in shapes(n - first):
                yield [a] + b


def size(shape):
    return 1 + sum(size(s) for s in shape)


def label(shape, labels):
    name, attrs, text = next(labels)
    return [name, attrs, text, [label(s, labels) for s in shape]]


ALPHA = {
    1: [(n, a, t) for n in NAMES for a in ATTRS for t in TEXTS],
    2: [(n, a, t) for n in NAMES for a in ATTRS for t in TEXTS],
    3: [(n, a, t) for n in ("a", "b", "n:a") for a in (ATTRS[0], ATTRS[1]) for t in (None, "t", " ")],
    4: [("a", (), None), ("a", (), "t"), ("b", (("x", "1"),), None), ("n:c", (), " t ")],
    5: [("a", (), "t"), ("b", (("x", "1"),), None), ("n:c", (), None)],
}


def units(tier):
    deep = tier == "thorough"
    out = []
    for n in range(1, 6 if deep else 5):
        for s, shape in enumerate(shapes(n)):
            for first in range(len(ALPHA[n])):
                if n <= 2 and first % 8:
                    continue
                out.append(["tree", n, s, first])
    out.append(["note"])
    for shape in ("same", "names", "attrs", "deep", "text", "mixed", "rows"):
        out.append(["size", shape])
    for first in range(len(KINDS)):
        out.append(["mix", first, 4 if deep else 3])
    return out


def cases(unit):
    if unit[0] == "tree":
        _, n, s, first = unit
        letters = ALPHA[n]
        for f in range(first, min(first + 8, len(letters)) if n <= 2 else first + 1):
            for rest in itertools.product(range(len(letters)), repeat=n - 1):
                yield {"k": "tree", "n": n, "s": s, "letters": [f, *rest]}
    elif unit[0] == "size":
        for n in SIZES:
            if n < 400 or unit[1] != "deep":
                yield {"k": "size", "shape": unit[1], "n": n}
    elif unit[0] == "note":
        for i in range(len(NOTES)):
            for how in ("xml", "zip", "override"):
                yield {"k": "note", "i": i, "how": how}
    else:
        for n in range(unit[2]):
            for rest in itertools.product(range(len(KINDS)), repeat=n):
                yield {"k": "mix", "blobs": [unit[1], *rest]}


SIZES = [*range(2, 34), 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 5001, 10001]


def grown(shape, n):
    leaf = lambda i: ["c", (), f"t{i}", []]
    if shape == "same":
        return ["r", (), None, [leaf(i) for i in range(n)]]
    if shape == "names":
        return ["r", (), None, [[f"c{i}", (), f"t{i}", []] for i in range(n)]]
    if shape == "attrs":
        return ["r", tuple((f"x{i}", f"v{i}") for i in range(n)), "t", []]
    if shape == "deep":
        tree = leaf(0)
        for i in range(n):
            tree = ["d", (("i", str(i)),) if i % 3 == 0 else (), None, [tree]]
        return tree
    if shape == "text":
        return ["r", (("x", "é<" * n * 20),), "long é<& text\n " * n * 20, []]
    if shape == "mixed":
        return ["r", (), "t", [["c", (("i", str(i)),), None, [leaf(i)]] if i % 2 else [f"x{i % 7}", (), None, []] for i in range(n)]]
    return ["r", (), None, [["row", (), None, [["a", (), str(i), []], ["b", (), None, []]]] for i in range(n)]]


DOC = {"r": {"a": ["é", "t<u"], "@x": "é", "#text": "top"}}
BODY = '<r x="é">top<a>é</a><a>t&lt;u</a></r>'
NOTES = [
    BODY.encode(),
    ('<?xml version="1.0"?>\n' + BODY).encode(),
    ('<?xml version="1.0" encoding="UTF-8"?>' + BODY).encode(),
    ('<?xml version="1.0" encoding="ISO-8859-1"?>' + BODY).encode("latin-1"),
    ('<?xml version="1.0" encoding="UTF-16"?>' + BODY).encode("utf-16"),
    b"\xef\xbb\xbf" + BODY.encode(),
    ('<?xml version="1.0"?><!-- c --><?pi x?>\n\n' + BODY + "\n<!-- after -->\n").encode(),
    ('<!DOCTYPE r [<!ENTITY e "é">]>' + BODY.replace("é", "&e;")).encode(),
    BODY.replace("t&lt;u", "<![CDATA[t<u]]>").encode(),
    BODY.replace("é", "&#233;").encode(),
    BODY.replace("top", "to<!-- c -->p").encode(),
    '<r x="é">\n  top\n  <a>\n é\n</a>\n  <a>t&lt;u</a>\n</r>'.encode(),
    '<r x="é">\r\n\ttop\r\n\t<a>é</a>\r\n\t<a>t&lt;u</a>\r\n</r>\r\n'.encode(),
    '<r xmlns="urn:d" x="é">top<a>é</a><a>t&lt;u</a></r>'.encode(),
    '<p:r xmlns:p="urn:p" x="é">top<p:a>é</p:a><p:a>t&lt;u</p:a></p:r>'.encode(),
]


def zipped(parts):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for name, data in parts:
            z.writestr(name, data)
    return b.getvalue()


def read(store, **kw):
    return [dict(r) if isinstance(r, dict) else r for r in Reader(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03", **kw)]


_shapes = {n: list(shapes(n)) for n in range(1, 6)}


def check(ctx, case):
    if case["k"] == "tree":
        letters = ALPHA[case["n"]]
        tree = label(_shapes[case["n"]][case["s"]], iter([letters[i] for i in case["letters"]]))
        if clash(tree):
            return
        want, text, flat = record(tree), render(tree), render(tree, flat=True)
        store = Store()
        store.put(FOLDER + "a.xml", text.encode())
        # the lines around it are records of their own
        store.put(FOLDER + "b.lxml", f"<q/>\n{flat}\n<q>1</q>".encode())
        if case["n"] < 3:
            store.put(FOLDER + "c.zip", zipped([("x.xml", text), ("y.lxml", flat + "\n" + flat), ("z.foo", "x")]))
        got = read(store)
        expected = [want, {"q": None}, want, {"q": "1"}] + ([want, want, want] if case["n"] < 3 else [])
        ctx.step(len(expected))
        ctx.expect(same(got, expected), lambda: f"{text} read as {got}, is {expected}")
        ctx.state([text])
    elif case["k"] == "size":
        tree = grown(case["shape"], case["n"])
        want, text = record(tree), render(tree)
        store = Store()
        store.put(FOLDER + "a.xml", text.encode())
        store.put(FOLDER + "b.lxml", "\n".join([render(tree, flat=True), "<q/>"]).encode())
        if case["n"] < 3000:
            store.put(FOLDER + "c.lxml", "".join(f"<q>{i}</q>\n" for i in range(case["n"])).encode())
            store.put(FOLDER + "d.zip", zipped([("x.xml", text)] + [(f"{i}/y.xml", f"<q>{i}</q>") for i in range(case["n"])]))
        else:
            store.put(FOLDER + "d.zip", zipped([("x.xml", text)]))
        got = read(store)
        many = [{"q": str(i)} for i in range(case["n"])] if case["n"] < 3000 else []
        expected = [want, want, {"q": None}, *many, want, *many]
        ctx.step(len(expected))
        bad = next((i for i, (g, w) in enumerate(zip(got, expected)) if not same(g, w)), None)
        ctx.expect(len(got) == len(expected) and bad is None, lambda: f"a document ({case['shape']}, {case['n']}) among others reads as {len(got)} records, expected {len(expected)}; first different: {bad}")
        ctx.state([case["shape"], case["n"]])
    elif case["k"] == "note":
        data = NOTES[case["i"]]
        store = Store()
        kw = {}
        if case["how"] == "zip":
            store.put(FOLDER + "c.zip", zipped([("x.xml", data)]))
        else:
            store.put(FOLDER + ("a.xml" if case["how"] == "xml" else "a.txt"), data)
            kw = {"override_format": "xml"} if case["how"] == "override" else {}
        got = read(store, **kw)
        ctx.step()
        ctx.expect(same(got, [DOC]), lambda: f"{data} ({case['how']}) read as {got}, is {[DOC]}")
        ctx.state([case["i"], case["how"]])
    else:
        mix(ctx, case)


def mix(ctx, case):
    store, want = Store(), []
    for i, b in enumerate(case["blobs"]):
        name = f"{FOLDER}{i}."
        kind = KINDS[b]
        if kind == "xml":
            store.put(name + "xml", f"<r><i>{i}</i>\n<t>x</t></r>\n".encode())
            want.append({"r": {"i": str(i), "t": "x"}})
        elif kind == "lxml":
            store.put(name + "lxml", f"<r>{i}</r>\r\n<s z='{i}'/>\n".encode())
            want += [{"r": str(i)}, {"s": {"@z": str(i)}}]
        elif kind == "json":
            store.put(name + "json", json.dumps({"r": i, "n": {"x": [i, None]}}, indent=2).encode())
            want.append({"r": i, "n": {"x": [i, None]}})
        elif kind == "txt":
            store.put(name + "txt", f"line {i}\n\nline\r\n".encode())
            want.append(f"line {i}\n\nline\r\n".encode())
        else:
            store.put(name + "zip", zipped([("b.xml", f"<r>{i}</r>"), ("a.json", json.dumps({"r": i})), ("c.lxml", "<r/>\n")]))
            want += [{"r": str(i)}, {"r": i}, {"r": None}]
    got = read(store)
    ctx.step(len(want))
    if not ctx.expect(same(got, want), lambda: f"blobs {[KINDS[b] for b in case['blobs']]} read as {got}, hold {want}"):
        return
    ctx.state(repr(want))
    for cut in range(len(want)):
        r = Reader(dataset="bucket/data", inner_reader=store.Reader, start_date="2020-02-03", end_date="2020-02-03")
        it = iter(r)
        first = [next(it) for _ in range(cut + 1)]
        rest = read(store, cursor=r.cursor.get())
        ctx.expect(same(first + rest, want), lambda: f"stopped after {cut + 1}: {first} and resumed: {rest}, together {want}")
    if b"" in [w if isinstance(w, bytes) else 0 for w in want] or any(isinstance(w, bytes) for w in want):
        return
    for sc in (STORAGE_CLASS.MEMORY, STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
        ctx.expect(same(read(store, persistence=sc), want), lambda: f"held as {sc}: {read(store, persistence=sc)}, is {want}")
    ctx.expect(same(read(store, filters=("r", "==", "1")), [w for w in want if w.get("r") == "1"]), "filtered by r == '1'")
    ctx.expect(same(read(store, filters="r IS NULL"), [w for w in want if w.get("r") is None]), lambda: f"filtered by r IS NULL: {read(store, filters='r IS NULL')} of {want}")
    ctx.expect(same(read(store, select="r"), [{"r": w.get("r")} for w in want]), "selected r")
