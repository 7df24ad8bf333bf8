"""C12: every pair of bounds in every form around calendar edges, every subset of days, every freshness limit, on the real Reader."""
import datetime
import itertools
import os
import time

from mabel.data import Reader
from mabel.errors import DataNotFoundError

from mcheck import env
from mcheck.store import Store, lines

PROPERTY, LEVEL = "C12", "model_checking"
TECHNIQUE = "exhaustive enumeration of date bounds (pairs, forms, times of day), folder templates, present days, clock values, time zones and freshness limits on the real Reader against calendar arithmetic"
RULE = (
    "every ordered pair of bounds in windows around month, leap-day and year ends in every form (text, date, datetime), for daily, hourly, monthly and placeholder-in-dataset layouts, every subset of present days; "
    "every clock edge and time zone without bounds; every freshness limit x subset of the last days x kind of content; ranges of every length of a list up to 4 years and limits up to 400 days; a state is the list of records read"
)
ASSUMPTIONS = ["with hourly folders the end bound carries a time (a bare date as the end of an hourly range is not covered)", "local time zones via the TZ variable"]
D = datetime.datetime
WINDOWS = [D(2019, 12, 30), D(2020, 2, 27), D(2021, 2, 27), D(2020, 6, 29), D(2020, 12, 29), D(2000, 2, 27), D(2020, 9, 8)]
TEMPLATES = {
    "daily": ["year_{yyyy}/month_{mm}/day_{dd}"],
    "slash": ["{yyyy}", "{mm}", "{dd}"],
    "dmy": ["{dd}-{mm}-{yyyy}"],
    "month": ["{yyyy}-{mm}"],
    "hourly": ["year_{yyyy}/month_{mm}/day_{dd}/hour_{HH}"],
    "inset": None,
}
FORMS = ["text", "text-time", "date", "datetime"]
TIMES = [(0, 0, 0), (13, 45, 10), (23, 59, 59)]
ZONES = ["UTC", "XXX+11", "XXX-13", "XXX+5:30"]
LIMITS = ["1d", "2d", "3d", "0d", "23h", "24h", "25h", "47h59m59s", "1d24h", "30m", "1s", "", "2d23h59m60s", "1h", "90m"]
LONG_LIMITS = ["9d", "30d", "45d", "100d", "366d", "400d", "240h", "1000h", "10000h", "20000m", "100000s", "1d1000h", "99d23h59m59s", "007d"]
LONG_STARTS = [D(2019, 2, 27), D(2020, 1, 31), D(1999, 12, 31), D(1970, 1, 1), D(1959, 3, 1), D(2099, 12, 30)]
LENGTHS = [6, 7, 8, 13, 14, 15, 27, 28, 29, 30, 31, 32, 59, 60, 61, 62, 89, 90, 91, 92, 99, 100, 101, 180, 181, 255, 256, 257, 363, 364, 365, 366, 367, 400, 730, 731, 1000, 1461]
EMPTY_KINDS = ["none", "backout", "incomplete", "ignored", "empty-frame", "foreign"]


def units(tier):
    deep = tier == "thorough"
    out = []
    for w in range(len(WINDOWS)):
        for t in ("daily", "slash", "dmy", "month", "inset"):
            out.append(["days", w, t])
        out.append(["subset", w, deep])
        out.append(["hours", w, deep])
    for z in ZONES:
        out.append(["today", z])
    for start in range(len(LONG_STARTS)):
        for t in ("daily", "month", "hourly"):
            out.append(["long", start, t])
    for lim in LONG_LIMITS:
        out.append(["older", lim])
    for lim in LIMITS:
        out.append(["fresh", lim, deep])
    return out


def cases(unit):
    kind = unit[0]
    if kind == "days":
        for a, b in itertools.product(range(5), repeat=2):
            for fa, fb in itertools.product(FORMS, repeat=2):
                for t in range(len(TIMES)):
                    if t and "time" not in fa + fb:
                        continue
                    yield {"k": "days", "w": unit[1], "t": unit[2], "a": [a, fa, t], "b": [b, fb, (t * 2) % 3], "present": 1023}
    elif kind == "subset":
        for present in range(0, 1024, 1 if unit[2] else 3):
            for a, b in ((0, 4), (1, 3), (4, 1), (2, 2)):
                yield {"k": "days", "w": unit[1], "t": "daily", "a": [a, "text", 0], "b": [b, "date", 0], "present": present}
    elif kind == "hours":
        hours = [(0, 0), (0, 30), (1, 0), (11, 59), (12, 0), (22, 1), (23, 0), (23, 59)]
        for d in (0, 1, 2) if unit[2] else (0, 1):
            for h1, h2 in itertools.product(hours, repeat=2):
                for fa in ("text-time", "datetime"):
                    yield {"k": "hours", "w": unit[1], "h": [h1, h2], "d": d, "f": fa}
    elif kind == "long":
        for n in LENGTHS:
            if n > 101 and (n + unit[1]) % 3 or n > 500 and (unit[1] or unit[2] == "month"):
                continue
            for fa, fb in (("text", "datetime"), ("date", "text")) [: 2 if n < 100 else 1] if unit[2] != "hourly" else (("datetime", "text-time"),):
                yield {"k": "long", "s": unit[1], "t": unit[2], "n": n, "f": [fa, fb]}
    elif kind == "older":
        d = parse(unit[1]) // 86400
        for k in sorted({0, 1, 5, 6, 7, 8, 9, 10, 29, 30, 31, d // 2, d - 2, d - 1, d, d + 1, d + 2, d + 30}):
            if k >= 0:
                for also in (None, k + 1, d, d + 5):
                    yield {"k": "older", "limit": unit[1], "back": k, "also": also}
    elif kind == "today":
        edges = [D(2020, 3, 1), D(2020, 1, 1), D(2021, 3, 1), D(2020, 6, 15, 12)]
        for e in edges:
            for off in (-86400, -40000, -3601, -3600, -1, 0, 1, 3599, 3600, 40000, 86399):
                for given in ("neither", "start", "end"):
                    yield {"k": "today", "zone": unit[1], "now": (e - D(1970, 1, 1)).total_seconds() + off, "given": given}
    else:
        for bits in range(32):
            for e in range(len(EMPTY_KINDS)):
                for how in ("today", "text", "datetime") if unit[2] or e in (0, 1) else ("today",):
                    yield {"k": "fresh", "limit": unit[1], "bits": bits, "empty": e, "how": how}


def form(day, f, t):
    h = TIMES[t]
    if f == "text":
        return day.strftime("%Y-%m-%d")
    if f == "date":
        return day.date()
    full = day.replace(hour=h[0], minute=h[1], second=h[2])
    return full if f == "datetime" else full.strftime("%Y-%m-%d %H:%M:%S" if t != 1 else "%Y-%m-%dT%H:%M:%S")


def path(parts, day):
    p = "/".join(parts)
    for k, v in (("yyyy", f"{day.year}"), ("mm", f"{day.month:02d}"), ("dd", f"{day.day:02d}"), ("HH", f"{day.hour:02d}")):
        p = p.replace("{" + k + "}", v)
    return p


def read(**kw):
    try:
        return [r["v"] for r in Reader(**kw)]
    except DataNotFoundError:
        return None


def check(ctx, case):
    globals()["do_" + case["k"]](ctx, case)


def do_days(ctx, case):
    base = WINDOWS[case["w"]]
    parts = TEMPLATES[case["t"]]
    layout = parts or ["year_{yyyy}/month_{mm}/day_{dd}"]
    store = Store()
    days = [base + datetime.timedelta(days=i) for i in range(-2, 8)]
    have = {}
    for i, day in enumerate(days):
        if not case["present"] >> i & 1:
            continue
        p = path(layout, day)
        for blob in ("b", "a") if i % 3 else ("a",):
            n = f"bucket/data/{p}/{blob}.jsonl"
            have.setdefault(n, f"{p}/{blob}")
    for n in reversed(sorted(have)):
        store.put(n, lines([{"v": have[n]}]))
    (a, fa, ta), (b, fb, tb) = case["a"], case["b"]
    da, db = base + datetime.timedelta(days=a), base + datetime.timedelta(days=b)
    lo, hi = min(da, db), max(da, db)
    wanted = {path(layout, lo + datetime.timedelta(days=k)) for k in range((hi - lo).days + 1)}
    want = [have[n] for n in sorted(have) if n[len("bucket/data/") :].rsplit("/", 1)[0] in wanted]
    dataset = "bucket/data" if parts else "bucket/data/" + layout[0]
    got = read(dataset=dataset, partitions=parts, inner_reader=store.Reader, start_date=form(da, fa, ta), end_date=form(db, fb, tb))
    ctx.step()
    ctx.expect(got == (want or None), lambda: f"range {form(da, fa, ta)!r} to {form(db, fb, tb)!r} ({case['t']}) read {got}, the range holds {want}")
    ctx.state([case["t"], got])


def do_long(ctx, case):
    """ranges of up to four years (or thousand hours), data at every step, before and after"""
    parts = TEMPLATES[case["t"]]
    step = datetime.timedelta(**{"hours" if case["t"] == "hourly" else "days": 1})
    first = LONG_STARTS[case["s"]]
    n = case["n"]
    store = Store()
    have, want = {}, []
    for i in range(-3, n + 3):
        p = path(parts, first + step * i)
        if i % 5 != 2 or case["t"] == "month":
            have.setdefault(p, 0)
            if 0 <= i < n and not have[p]:
                have[p] = 1
                want.append(p)
    for p in have:
        store.put(f"bucket/data/{p}/x.jsonl", lines([{"v": p}]))
    a, b = form(first, case["f"][0], 0), first + step * (n - 1)
    b = (b if case["f"][1] == "datetime" else b.isoformat()) if case["t"] == "hourly" else form(b, case["f"][1], 0)
    got = read(dataset="bucket/data", partitions=parts, inner_reader=store.Reader, start_date=a, end_date=b)
    ctx.step(n)
    ctx.expect(got == sorted(want), lambda: f"the range {a!r} to {b!r} ({case['t']}) misses {sorted(set(want) - set(got or []))[:5]}, has too much {sorted(set(got or []) - set(want))[:5]}, in order: {got == sorted(got or [])}")
    ctx.state([case["t"], len(want)])


def do_older(ctx, case):
    store = Store()
    today = D(2020, 3, 2)
    have = sorted({k for k in (case["back"], case["also"]) if k is not None})
    for k in have:
        store.put(f"bucket/data/{path(TEMPLATES['daily'], today - datetime.timedelta(days=k))}/x.jsonl", lines([{"v": k}]))
    want = next(([k] for k in have if k * 86400 <= parse(case["limit"])), None)
    with env.at((D(2020, 3, 2, 15, 20) - D(1970, 1, 1)).total_seconds()):
        got = read(dataset="bucket/data", inner_reader=store.Reader, freshness_limit=case["limit"])
    ctx.step()
    ctx.expect(got == want, lambda: f"freshness limit {case['limit']!r} with data {have} days back read {got}, expected {want}")
    ctx.state(["older", case["limit"], got])


def do_hours(ctx, case):
    base = WINDOWS[case["w"]]
    parts = TEMPLATES["hourly"]
    store = Store()
    hours = [base + datetime.timedelta(hours=i) for i in range(-2, 24 * (case["d"] + 1) + 2)]
    for h in hours:
        store.put(f"bucket/data/{path(parts, h)}/x.jsonl", lines([{"v": path(parts, h)}]))
    (h1, m1), (h2, m2) = case["h"]
    a = base.replace(hour=h1, minute=m1)
    b = (base + datetime.timedelta(days=case["d"])).replace(hour=h2, minute=m2)
    lo, hi = min(a, b), max(a, b)
    want = [path(parts, h) for h in hours if lo.replace(minute=0) <= h <= hi]
    f = (lambda x: x) if case["f"] == "datetime" else (lambda x: x.isoformat())
    got = read(dataset="bucket/data", partitions=parts, inner_reader=store.Reader, start_date=f(a), end_date=f(b))
    ctx.step()
    ctx.expect(got == (want or None), lambda: f"hours {a} to {b} read {got}, expected {want}")
    ctx.state(got)


def do_today(ctx, case):
    store = Store()
    now = D(1970, 1, 1) + datetime.timedelta(seconds=case["now"])
    today = D(now.year, now.month, now.day)
    for k in range(-3, 4):
        day = today + datetime.timedelta(days=k)
        store.put(f"bucket/data/{path(TEMPLATES['daily'], day)}/x.jsonl", lines([{"v": k}]))
    kw, want = {}, [0]
    if case["given"] == "start":
        kw, want = {"start_date": (today - datetime.timedelta(days=2)).strftime("%Y-%m-%d")}, [-2, -1, 0]
    if case["given"] == "end":
        kw, want = {"end_date": today + datetime.timedelta(days=1)}, [0, 1]
    old = os.environ.get("TZ")
    os.environ["TZ"] = case["zone"]
    time.tzset()
    try:
        with env.at(case["now"]):
            got = read(dataset="bucket/data", inner_reader=store.Reader, **kw)
    finally:
        os.environ["TZ"] = old or "UTC"
        time.tzset()
    ctx.step()
    ctx.expect(got == want, lambda: f"at {now} UTC (local zone {case['zone']}) with {kw} the reader reads the days {got} from today, expected {want}")
    ctx.state([got, case["given"]])


def do_fresh(ctx, case):
    store = Store()
    today = D(2020, 3, 2)
    days = [today - datetime.timedelta(days=k) for k in range(5)]
    for k, day in enumerate(days):
        p = f"bucket/data/{path(TEMPLATES['daily'], day)}"
        if case["bits"] >> k & 1:
            store.put(f"{p}/as_at_1/x.jsonl", lines([{"v": k}]))
            store.put(f"{p}/as_at_1/frame.complete", b"")
            store.put(f"{p}/as_at_2/x.jsonl", lines([{"v": 10 + k}]))
            continue
        e = EMPTY_KINDS[case["empty"]]
        if e == "backout":
            store.put(f"{p}/BACKOUT/x.jsonl", lines([{"v": 90}]))
        elif e in ("incomplete", "ignored"):
            store.put(f"{p}/as_at_1/x.jsonl", lines([{"v": 91}]))
            if e == "ignored":
                store.put(f"{p}/as_at_1/frame.complete", b"")
                store.put(f"{p}/as_at_1/frame.ignore", b"")
        elif e == "empty-frame":
            store.put(f"{p}/as_at_1/frame.complete", b"")
        elif e == "foreign":
            store.put(f"{p}/README.foo", b"hello")
    seconds = parse(case["limit"])
    allowed = [k for k in range(5) if k * 86400 <= seconds]
    if not seconds:
        allowed = [0]
    want = next(([k] for k in allowed if case["bits"] >> k & 1), None)
    kw = {"freshness_limit": case["limit"]}
    if case["how"] == "text":
        kw.update(start_date="2020-03-02", end_date="2020-03-02")
    elif case["how"] == "datetime":
        kw.update(start_date=D(2020, 3, 2, 9, 30), end_date=D(2020, 3, 2, 9, 30))
    with env.at((D(2020, 3, 2, 15, 20) - D(1970, 1, 1)).total_seconds()):
        got = read(dataset="bucket/data", inner_reader=store.Reader, **kw)
    ctx.step()
    have = [k for k in range(5) if case["bits"] >> k & 1]
    ctx.expect(got == want, lambda: f"freshness limit {case['limit']!r} with data {have} days back (other days: {EMPTY_KINDS[case['empty']]}) read {got}, expected {want}")
    ctx.state([case["limit"], got, case["bits"], case["empty"]])


def parse(text):
    unit = {"d": 86400, "h": 3600, "m": 60, "s": 1}
    total, num = 0, ""
    for c in text:
        if c in unit:
            total, num = total + int(num) * unit[c], ""
        else:
            num += c
    return total
