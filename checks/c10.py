"""C10: every history of appends, finalizes and rejected batches of the DatabaseWriter against a queue model."""
import itertools

from mabel.adapters.database.base_database_writer import BaseDatabaseWriter
from mabel.data import DatabaseWriter

from mcheck.choice import Chooser, enumerate_answers

PROPERTY, LEVEL = "C10", "model_checking"
TECHNIQUE = "exhaustive enumeration of append/finalize histories and of batch rejection patterns on the real DatabaseWriter against a queue model"
RULE = (
    "every sequence of bursts (1 to 350 appends, around the batch size) and finalizes up to the depth, over one or two writers, with and without a finalizer, with every pattern of at most the stated number of "
    "rejected batches, and dropping the writer without finalize; records with nulls, with columns in another order and given as models; a state is the sequence of batches and errors"
)
ASSUMPTIONS = ["a rejected batch raises from the component's commit and stores nothing", "one thread", "records conform to the schema (one that does not is refused by append and tested as such)"]
SCHEMA = [{"name": "i", "type": "INTEGER"}, {"name": "t", "type": "VARCHAR"}]
BURSTS = [1, 2, 98, 99, 100, 101, 200, 350]
FEW = [1, 2, 99, 100, 101, 201]
LIMIT = 100


class BaseModel:
    """what mabel asks of a pydantic model"""

    def __init__(self, values):
        self.values_ = values

    def export_(self, exclude_none=False, **_):
        return {k: v for k, v in self.values_.items() if not (exclude_none and v is None)}


class OldModel(BaseModel):
    def dict(self, **kw):
        return self.export_(**kw)


class NewModel(BaseModel):
    def model_dump(self, **kw):
        return self.export_(**kw)


def given(i, t):
    """records in the forms a caller may use: the columns in any order, nulls, models"""
    t = [t, None, "", "x" * 300][i % 4] if i % 3 == 2 else t
    return (OldModel, NewModel, dict, dict)[i % 7 % 4]({"i": i, "t": t} if i % 5 else {"t": t, "i": i}), (i, t)


class Rejected(Exception):
    pass


def units(tier):
    deep = tier == "thorough"
    out = []
    bursts = BURSTS if deep else FEW
    for first in bursts + ["F"]:
        for second in bursts + ["F", None]:
            out.append(["one", first, second, 4 if deep else 3, 3 if deep else 2, bursts])
        out.append(["two", first, None, 3, 2 if deep else 1, bursts])
    return out


def is_explored(unit):
    return True


def histories(unit):
    _, first, second, depth, _, bursts = unit
    if unit[0] == "one":
        if second is None:
            yield [first]
            return
        for n in range(depth - 1):
            for tail in itertools.product(bursts + ["F", "bad"], repeat=n):
                yield [first, second, *tail]
    else:
        for tail in itertools.product([1, 99, 101, "F", "swap"], repeat=depth - 1):
            if "swap" in tail:
                yield [first, *tail]


def explore(ctx, unit):
    for ops in histories(unit):
        for fin in (True, False):
            for end in ("F", "FF", "del"):
                if not fin and (end != "F" or unit[0] == "two"):
                    continue

                def run(prefix):
                    case = {"ops": ops, "finalizer": fin, "end": end, "answers": list(prefix)}
                    ch = Chooser(prefix)
                    with ctx.case(case):
                        drive(ctx, case, ch)
                        case["answers"] = ch.taken
                    return ch

                enumerate_answers(run, unit[4])


def check(ctx, case):
    drive(ctx, case, Chooser(case["answers"]))


def drive(ctx, case, ch):
    log, batches = [], {0: [], 1: []}
    stable = [False]

    def component(n):
        class Component(BaseDatabaseWriter):
            def commit(self, dataframe):
                rows = [(r[0], r[1]) for r in dataframe]
                log.append(("batch", n, len(rows)))
                if not stable[0] and ch():
                    log.append(("rejected", n))
                    raise Rejected()
                batches[n].append(rows)

        return Component

    finalized = []
    writers = []
    for n in (0, 1):
        kw = {"finalizer": (lambda n: lambda w: (finalized.append((n, sum(len(b) for b in batches[n]))), log.append(("finalizer", n))))(n)} if case["finalizer"] else {}
        writers.append(DatabaseWriter(dataset=f"d{n}", schema=[dict(c) for c in SCHEMA], inner_writer=component(n), engine={}, **kw))
    appended = {0: [], 1: []}
    n, i = 0, 0
    first_done = {}
    for op in list(case["ops"]) + (list(case["end"]) if case["end"] != "del" else []):
        w = writers[n]
        if op == "swap":
            n = 1 - n
            continue
        if op == "bad":
            k = len(log)
            try:
                w.append({"i": "not a number", "t": 5})
                ctx.fail("a record that breaks the schema was accepted")
            except Exception as e:
                ctx.expect(not isinstance(e, Rejected) and len(log) == k, "refusing a record sent a batch")
            continue
        if op == "F":
            calls(ctx, log, w.finalize, case, lambda r, n=n: ctx.expect(r == len(appended[n]), lambda: f"finalize returned {r}, {len(appended[n])} records were appended"))
            if not (log and log[-1] == ("raised",)):
                ctx.expect(sum(len(b) for b in batches[n]) == len(appended[n]), lambda: f"finalize returned with {sum(len(b) for b in batches[n])} of {len(appended[n])} records delivered")
                first_done.setdefault(n, len(appended[n]))
            ctx.step()
            continue
        for _ in range(op):
            rec, row = given(i, f"w{n}")
            appended[n].append(row)
            calls(ctx, log, lambda: w.append(rec), case, None)
            waiting = len(appended[n]) - sum(len(b) for b in batches[n])
            if not (log and log[-1] == ("raised",)) and not ctx.expect(waiting < LIMIT, f"{waiting} records are waiting after an append that did not fail"):
                return
            i += 1
        ctx.step(op)
    if case["end"] == "del":
        stable[0] = True
        sizes = {m: sum(len(b) for b in batches[m]) for m in (0, 1)}
        w = None
        writers.clear()
    else:
        # whatever was rejected so far goes out now
        stable[0] = True
        for m, w in enumerate(writers):
            ctx.expect(w.finalize() == len(appended[m]), "finalize does not return the number of records appended")
            first_done.setdefault(m, len(appended[m]))
        w = None
    for m in (0, 1):
        ctx.expect(all(0 < len(b) <= LIMIT for b in batches[m]), lambda: f"batches of {[len(b) for b in batches[m]]} records in {short(case)}")
        flat = [r for b in batches[m] for r in b]
        if case["end"] == "del":
            ctx.expect(flat == appended[m][: len(flat)], lambda: f"delivered {len(flat)} records which are not the first ones appended, in order, once ({short(case)})")
        else:
            ctx.expect(flat == appended[m], lambda: f"delivered {diff(flat, appended[m])} in {short(case)}")
            if case["finalizer"]:
                runs = [k for q, k in finalized if q == m]
                ctx.expect(len(runs) == 1, lambda: f"the finalizer ran {len(runs)} times in {short(case)}")
                ctx.expect(runs[:1] == [first_done[m]], lambda: f"the finalizer ran when {runs} records were delivered, at the first successful finalize {first_done[m]} were appended ({short(case)})")
    ctx.state([log, case["finalizer"]])
    writers.clear()


def calls(ctx, log, fn, case, after):
    """run an operation: it raises exactly when a batch was rejected in it"""
    k = len(log)
    try:
        r = fn()
        raised = None
    except Exception as e:
        raised = e
    rejected = any(x[0] == "rejected" for x in log[k:])
    ctx.expect(rejected == (raised is not None), lambda: f"a batch was {'' if rejected else 'not '}rejected and the call {'raised ' + repr(raised) if raised is not None else 'returned'} in {short(case)}")
    if raised is not None:
        log.append(("raised",))
    else:
        log.append(("ok",)) if not log or log[-1] != ("ok",) else None
        if after:
            after(r)


def diff(got, want):
    for k, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return f"{a} as record {k}, should be {b} ({len(got)} delivered, {len(want)} appended)"
    return f"{len(got)} records, {len(want)} were appended"


def finish(extra, states, tier):
    if states < 500:
        return "hardly any histories"


def short(case):
    return f"history {case['ops']} then {case['end']}, rejections {case['answers']}"
