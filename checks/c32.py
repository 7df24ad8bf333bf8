"""C32: every expectation set in every form against every record and order, on the four writers."""
import itertools
import json

from mcheck import env, streams  # noqa: installs the scheduler first (threads stay inert)
from data_expectations import Expectation
from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.data import BatchWriter, DatabaseWriter, Reader, StreamWriter, Writer
from mabel.errors import DataNotFoundError
from pydantic import BaseModel

from mcheck.core import same
from mcheck.store import Store, decode, folder

PROPERTY, LEVEL = "C32", "model_checking"
TECHNIQUE = "exhaustive enumeration of expectation sets, their forms, records and append orders on the four real writers against a truth table"
RULE = (
    "every set of up to three expectations (each kind; as dictionaries, JSON text, objects or mixed) x every sequence of records up to the depth (dictionaries and pydantic models) x Writer, "
    "BatchWriter, StreamWriter (with and without placeholders) and DatabaseWriter, with and without a schema, jsonl and parquet; sequences of up to 1001 records and lists of up to 100 expectations with one that fails; every interleaving of two writers with different expectations; a state is what was stored where"
)
ASSUMPTIONS = ["the expectations that compare a record with the one before it (increasing, decreasing: the library keeps their state for the whole process) are left out", "ignore_nulls is left out (the library drops it)", "in-memory store; housekeeping inert"]

# name -> (definition, truth)
null = lambda v, ignore, f: ignore if v is None else f(v)
EXPECT = {
    "exists": ({"expectation": "expect_column_to_exist", "column": "n"}, lambda r: "n" in r),
    "notnull": ({"expectation": "expect_column_values_to_not_be_null", "column": "i"}, lambda r: r.get("i") is not None),
    "set": ({"expectation": "expect_column_values_to_be_in_set", "column": "p", "symbols": ["a", "b"]}, lambda r: null(r.get("p"), True, lambda v: v in ("a", "b"))),
    "one": ({"expectation": "expect_column_values_to_be_in_set", "column": "p", "symbols": ["a"]}, lambda r: r.get("p") in (None, "a")),
    "between": ({"expectation": "expect_column_values_to_be_between", "column": "i", "minimum": 1, "maximum": 3}, lambda r: null(r.get("i"), True, lambda v: 1 <= v <= 3)),
    "more": ({"expectation": "expect_column_values_to_be_more_than", "column": "i", "threshold": 1}, lambda r: null(r.get("i"), True, lambda v: v > 1)),
    "less": ({"expectation": "expect_column_values_to_be_less_than", "column": "i", "threshold": 4}, lambda r: null(r.get("i"), True, lambda v: v < 4)),
    "like": ({"expectation": "expect_column_values_to_match_like", "column": "p", "like": "a%"}, lambda r: null(r.get("p"), True, lambda v: v.startswith("a"))),
    "regex": ({"expectation": "expect_column_values_to_match_regex", "column": "p", "regex": "^[ab]$"}, lambda r: null(r.get("p"), True, lambda v: v in ("a", "b"))),
    "length": ({"expectation": "expect_column_values_length_to_be", "column": "p", "length": 1}, lambda r: null(r.get("p"), True, lambda v: len(v) == 1)),
    "type": ({"expectation": "expect_column_values_to_be_in_type_list", "column": "i", "type_list": ["int"]}, lambda r: null(r.get("i"), True, lambda v: type(v).__name__ == "int")),
}
RECORDS = {
    "a": {"i": 1, "p": "a", "n": None}, "b": {"i": 2, "p": "b", "n": "x"}, "c": {"i": 5, "p": "ab", "n": "x"}, "d": {"i": None, "p": "a", "n": "x"},
    "e": {"i": 3, "p": None, "n": "x"}, "f": {"i": 2, "p": "a"}, "g": {"i": 0, "p": "zz", "n": "x"},
}
FEW = ["a", "c", "d", "f"]
SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "p", "type": "VARCHAR"}, {"name": "n", "type": "VARCHAR"}]
KINDS = ("Writer", "BatchWriter", "StreamWriter", "DatabaseWriter")
FORMS = ("dict", "json", "object", "mixed")
KEYS = list(EXPECT)


class Model(BaseModel):
    i: int | None = None
    p: str | None = None
    n: str | None = None


def units(tier):
    deep = tier == "thorough"
    out = []
    for kind in KINDS:
        for schema in (True, False) if kind != "DatabaseWriter" else (True,):
            for fmt in ("jsonl", "parquet") if schema and kind != "DatabaseWriter" else ("jsonl",):
                out.append(["sets", kind, fmt, schema, 3 if deep else 2])
                out.append(["seq", kind, fmt, schema, 5 if deep else 3])
        out.append(["pair", kind, 5 if deep else 4])
        out.append(["long", kind])
    return out


def cases(unit):
    what, kind = unit[:2]
    if what == "sets":
        _, kind, fmt, schema, depth = unit
        for n in range(0, depth + 1):
            for chosen in itertools.permutations(KEYS, n) if n < 3 else itertools.combinations(KEYS, n):
                for form in FORMS:
                    for model in (0, 1):
                        yield {"k": kind, "fmt": fmt, "schema": schema, "set": list(chosen), "form": form, "ops": "abcdefg" if not model else "abcdeg", "t": "plain", "model": model}
    elif what == "long":
        # many records with one that fails in various places, and long lists of expectations of which one fails
        for n in (5, 8, 9, 10, 11, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 128, 129, 256, 257, 500, 501, 1000, 1001):
            for bad in sorted({0, 1, n // 2, n - 1}):
                for chosen in (["set"], ["one", "more"], KEYS):
                    if chosen is KEYS and n > 130:
                        continue
                    yield {"k": kind, "fmt": "jsonl", "schema": True, "set": chosen, "form": "dict", "ops": "".join("c" if i == bad else "b" if i % 7 == 3 else "a" for i in range(n)), "t": "plain", "model": 0}
        for n in (4, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100):
            for fails in sorted({0, n // 2, n - 1}):
                for form in FORMS:
                    yield {"k": kind, "fmt": "jsonl", "schema": True, "set": ["more" if i == fails else ("set", "like", "type", "exists")[i % 4] for i in range(n)], "form": form, "ops": "abcdeg", "t": "plain", "model": 0}
    elif what == "seq":
        _, kind, fmt, schema, depth = unit
        for chosen in (["set"], ["exists", "more"], ["one", "notnull"]):
            for n in range(1, depth + 1):
                for ops in itertools.product(RECORDS if n < 4 else FEW, repeat=n):
                    for t in ("plain", "p_{p}") if kind == "StreamWriter" else ("plain",):
                        yield {"k": kind, "fmt": fmt, "schema": schema, "set": chosen, "form": "dict", "ops": "".join(ops), "t": t, "model": 0}
    else:
        for one, two in (("set", "more"), ("exists", "set"), (None, "set"), ("more", None)):
            for n in range(1, unit[2] + 1):
                for ops in itertools.product(["a", "c", "A", "C"], repeat=n):
                    yield {"k": kind, "pair": [one, two], "ops": "".join(ops)}


def definitions(names, form):
    out = []
    for i, n in enumerate(names):
        d = dict(EXPECT[n][0])
        f = FORMS[i % 3] if form == "mixed" else form
        out.append(d if f == "dict" else json.dumps(d) if f == "json" else Expectation.load(d))
    return out


class Side:
    """one writer, its store and what it accepted"""

    def __init__(self, kind, name, names, fmt="jsonl", schema=True, form="dict", template="plain"):
        self.kind, self.name, self.template, self.names = kind, name, template, names
        self.good, self.bad, self.batches = [], [], []
        self.store = Store()
        given = definitions(names, form)
        self.before = repr(given)
        self.given = given
        columns = [dict(c) for c in SCHEMA]
        kw = {"set_of_expectations": given}
        if kind == "DatabaseWriter":
            batches = self.batches

            class Component(BaseDatabaseWriter):
                def commit(self, dataframe):
                    batches.extend(tuple(r) for r in dataframe)

            self.w = DatabaseWriter(dataset="d", schema=columns, inner_writer=Component, engine={}, **kw)
        else:
            cls = {"Writer": Writer, "BatchWriter": BatchWriter, "StreamWriter": StreamWriter}[kind]
            self.w = cls(dataset=f"bucket/{name}", format=fmt, schema=columns if schema else False, inner_writer=self.store.Writer, date="2020-02-03", partitions=[template], **kw)

    def append(self, ctx, record, model=False, schema=True):
        meets = all(EXPECT[n][1](record) for n in self.names)
        ok = meets and (not schema or set(record) == {"i", "p", "n"})
        given = Model(**record) if model else dict(record)
        try:
            self.w.append(given)
            took, why = True, None
        except Exception as e:
            took, why = False, f"{type(e).__name__}: {e}"
        ctx.step()
        if not model:
            ctx.expect(given == record, lambda: f"append changed the record {record} into {given}")
        if self.kind == "StreamWriter":
            ctx.expect(took, lambda: f"a stream append of {record} raised {why}")
            (self.good if ok else self.bad).append(dict(record))
        else:
            ctx.expect(took == ok, lambda: f"{self.kind} with expectations {self.names} {'accepted' if took else 'refused (' + str(why) + ')'} {record}")
            if ok:
                self.good.append(dict(record))
        return took

    def end(self, ctx, what):
        n = self.w.finalize() if self.kind != "StreamWriter" else (self.w.finalize(), None)[1]
        ctx.expect(repr(self.given) == self.before, lambda: "the expectations given were changed")
        if self.kind == "DatabaseWriter":
            want = [(r["i"], r["p"], r["n"]) for r in self.good]
            ctx.expect(n == len(want) and self.batches == want, lambda: f"delivered {self.batches} (finalize returned {n}), accepted were {want} ({what})")
            return ["db", self.batches]
        if self.kind != "StreamWriter":
            ctx.equal(self.w.records, len(self.good), f"records counted ({what})")
        if self.kind == "BatchWriter":
            ctx.equal(bool(self.store.markers()), bool(self.good), f"the frame is marked complete ({what})")
        got = {False: [], True: []}
        for name, data in self.store.data_blobs():
            f = folder(name)
            got["BACKOUT" in name.split("/")] += [(f if self.kind != "BatchWriter" else "", r) for r in decode(name, data)]
        for backout, accepted in ((False, self.good), (True, self.bad)):
            want = [(self.where(r, backout), r) for r in accepted]
            a, b = got[backout], want
            if "{" in self.template:
                a, b = sorted(a, key=repr), sorted(b, key=repr)
                ctx.expect(sorted(map(canon, a)) == sorted(map(canon, b)), lambda: f"{'BACKOUT holds' if backout else 'stored'} {a}, expected {b} ({what})")
            else:
                ctx.expect(list(map(canon, a)) == list(map(canon, b)), lambda: f"{'BACKOUT holds' if backout else 'stored'} {a}, expected {b} ({what})")
        try:
            read = [dict(r) for r in Reader(dataset=f"bucket/{self.name}", inner_reader=self.store.Reader, partitions=None if self.template == "plain" else None, start_date="2020-02-03", end_date="2020-02-03")]
        except DataNotFoundError:
            read = []
        ctx.expect(sorted(map(canon, read)) == sorted(canon(r) for r in self.good), lambda: f"the reader returns {read}, accepted were {self.good} ({what})")
        return [[x[0] for x in got[False]], [x[0] for x in got[True]], repr(got)]

    def where(self, r, backout):
        if self.kind == "BatchWriter":
            return ""
        return f"bucket/{self.name}/" + self.template.replace("{p}", str(r.get("p"))) + ("/BACKOUT" if backout else "")


def canon(x):
    if isinstance(x, tuple):
        return x[0] + canon(x[1])
    return json.dumps(x, sort_keys=True)


def check(ctx, case):
    env.clock_fixed(1_582_848_000 * env.NS)
    if "pair" in case:
        one, two = case["pair"]
        sides = {False: Side(case["k"], "one", [one] if one else []), True: Side(case["k"], "two", [two] if two else [])}
        for o in case["ops"]:
            sides[o.isupper()].append(ctx, RECORDS[o.lower()])
        ctx.state([case["k"], case["pair"]] + [s.end(ctx, f"writer {s.name} of {case}") for s in sides.values()])
        return
    if case["fmt"] == "parquet" and case["k"] == "StreamWriter":
        # a record that lacks a column reads back from a parquet BACKOUT with the column null
        case = dict(case, ops=case["ops"].replace("f", ""))
    side = Side(case["k"], "data", case["set"], case["fmt"], case["schema"], case["form"], case["t"])
    for o in case["ops"]:
        side.append(ctx, RECORDS[o], case["model"], case["schema"])
    ctx.state([case["k"], case["fmt"], case["set"], side.end(ctx, f"{case['k']}, expectations {case['set']} as {case['form']}, appends {case['ops']}, {case['fmt']}{'' if case['schema'] else ' without schema'}")])
