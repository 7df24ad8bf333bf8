"""C26: every day of several years in every supported form, every corruption of valid texts, every hour range of a window, every delta, compared with an independent calendar."""
import datetime
import itertools
import os
import time

import numpy

from mabel.utils.dates import date_range, parse_delta, parse_iso

from mcheck.util import seqs

os.environ["TZ"] = "UTC"  # numeric timestamps are local time
time.tzset()
PROPERTY, LEVEL = "C26", "model_checking"
TECHNIQUE = "exhaustive enumeration of dates, times, corruptions and ranges given to the real parser, compared with an independent calendar and grammar"
RULE = (
    "every year-month-day combination of a set of years (days 0 to 32 and months 0 to 13) in every textual form; every second of a day; every replacement, deletion, insertion and truncation by an alphabet at every position"
    " of a set of valid texts, and at every pair of positions; every short text; values of every other type; ranges of up to ten years; every pair of hours in a window given as text, date and datetime; every combination of delta parts; a state is an input and its result"
)
ASSUMPTIONS = [
    "the local timezone is UTC",
    "what follows the seconds is not specified except for a fraction, Z and +offset; a seconds field after a '-' is one (2020-01-01T10-20-30), so that a negative offset after minutes is not a supported form",
    "text with more than one +, or with an offset after anything else than a valid date or time, is not specified",
]
YEARS = [1, 99, 1000, 1900, 1970, 1999, 2000, 2001, 2004, 2019, 2020, 2023, 2024, 2100, 2400, 9999]
MORE = list(range(1950, 2051)) + [1600, 1700, 1800, 2200, 2300]
BASES = ["2020-02-29", "2021-12-31 23:59", "2021-12-31T23:59:59", "1999-01-01T00:00:00Z", "2000-02-29 12:34:56.789", "2000-02-29T12:34:56.789012Z", "2020-02-29T00:00+01:00", "2020-02-29T01:02:03+0000", "2020:02:29", "2020-02-29Z", "2020-02-29+00:00"]
CHARS = ["0", "1", "9", "a", "-", ":", " ", "T", "Z", "+", "_", ".", "/", "٣", "\n", "", "é", "²"]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_in(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def number(t):
    if not t or any(c not in "0123456789" for c in t):
        return None
    return sum((ord(c) - 48) * 10**i for i, c in enumerate(reversed(t)))


def model(t):
    """(year, month, day, hour, minute, second), None, or 'unspecified'"""
    if not 10 <= len(t) <= 33:
        return None
    if t.endswith("Z"):
        t = t[:-1]
    if "+" in t:
        head, tail = t.split("+", 1)
        if not (len(head) in (10, 16, 19) or (len(head) > 20 and head[19] == ".")) or len(head) > 28:
            return None if len(head) < 16 and len(head) != 10 else "unspecified"
        t = head
    if len(t) < 10 or t[4] not in "-:" or t[7] not in "-:":
        return None
    y, m, d = number(t[0:4]), number(t[5:7]), number(t[8:10])
    H, M, S = 0, 0, 0
    if len(t) > 10:
        if len(t) < 16 or t[10] not in "T " or t[13] not in "-:":
            return None
        H, M = number(t[11:13]), number(t[14:16])
        if len(t) > 16:
            if len(t) < 19 or t[16] not in "-:":
                return None
            S = number(t[17:19])
            if len(t) > 19 and (t[19] != "." or number(t[20:]) is None):
                # what follows the seconds
                rest = "unspecified"
                if valid(y, m, d, H, M, S) is None:
                    return None
                return rest
    return valid(y, m, d, H, M, S)


def valid(y, m, d, H, M, S):
    if None in (y, m, d, H, M, S):
        return None
    if not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= days_in(y, m) and H < 24 and M < 60 and S < 60):
        return None
    return (y, m, d, H, M, S)


def units(tier):
    deep = tier == "thorough"
    out = [["ymd", y] for y in (range(1, 10000, 7) if deep else [])]
    out += [["ymd", y] for y in dict.fromkeys(YEARS + MORE)]
    out += [["time", h] for h in range(24)]
    out += [["corrupt", i] for i in range(len(BASES))]
    out += [["corrupt2", i, j] for i in range(len(BASES)) for j in range(len(BASES[i]))]
    out += [["short"], ["types"], ["stamps"], ["delta", 0, 4], ["delta", 1, 4], ["delta", 2, 4], ["delta", 3, 4]]
    out += [["years", i] for i in range(8)]
    out += [["range", i, 8, 72 if deep else 30] for i in range(8)]
    return out


def cases(unit):
    k = unit[0]
    if k == "ymd":
        for m in range(0, 14):
            yield {"k": k, "y": unit[1], "m": m}
    elif k == "time":
        for m in range(0, 61):
            yield {"k": k, "h": unit[1], "m": m}
    elif k == "corrupt":
        for p in range(len(BASES[unit[1]]) + 1):
            yield {"k": k, "t": BASES[unit[1]], "p": p}
    elif k == "corrupt2":
        for c in CHARS:
            yield {"k": k, "t": BASES[unit[1]], "p": unit[2], "c": c}
    elif k == "short":
        for n in range(0, 4):
            yield {"k": k, "n": n}
    elif k in ("types", "stamps"):
        yield {"k": k}
    elif k == "years":
        for days in [1, 2, 6, 7, 27, 28, 29, 30, 31, 32, 59, 60, 61, 89, 90, 91, 92, 99, 100, 180, 181, 200, 255, 256, 364, 365, 366, 367, 400, 729, 730, 731, 999, 1000, 1001, 1096, 1461, 1500, 2922, 3653][unit[1] :: 8]:
            yield {"k": k, "n": days}
    elif k == "delta":
        for j, d in enumerate(itertools.product([None, "0", "1", "-3", "48"], [None, "0", "6", "-5", "100"])):
            if j % unit[2] == unit[1]:
                yield {"k": k, "d": d[0], "h": d[1]}
    else:
        for j in range(unit[3]):
            if j % unit[2] == unit[1]:
                yield {"k": k, "a": j, "n": unit[3]}


def judge(ctx, t):
    want = model(t)
    try:
        got = parse_iso(t)
    except Exception as e:
        ctx.fail(f"parse_iso({t!r}) raised {type(e).__name__}: {e}")
        return
    ctx.step()
    if want is None:
        ctx.expect(got is None, f"parse_iso({t!r}) gave {got!r}, this is not a date")
    elif want != "unspecified":
        ctx.expect(type(got) is datetime.datetime and (got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond, got.tzinfo) == (*want, 0, None), f"parse_iso({t!r}) gave {got!r}, expected {want}")
    ctx.state((t, repr(got)))


def check(ctx, case):
    k = case["k"]
    if k == "ymd":
        for d in range(0, 33):
            base = f"{case['y']:04}-{case['m']:02}-{d:02}"
            for t in (base, base + "T00:00", base + " 23:59", base + "T06:07:08", base + " 09:10:11.5", base + "T12:13:14Z", base + "T00:00:00+02:00", base + "T05:06Z", base + " 01:02+0100", base + "Z", base.replace("-", ":") + " 10-20-30"):
                judge(ctx, t)
            if valid(case["y"], case["m"], d, 0, 0, 0):
                day = datetime.date(case["y"], case["m"], d)
                ctx.expect(parse_iso(day) == datetime.datetime(day.year, day.month, day.day), f"parse_iso({day!r}) gave {parse_iso(day)!r}")
                at = datetime.datetime(day.year, day.month, day.day, 1, 2, 3, 456)
                ctx.expect(parse_iso(at) == at, f"parse_iso({at!r}) gave {parse_iso(at)!r}")
                # days since the epoch, counted here
                n = ordinal(case["y"], case["m"], d)
                if 1902 < case["y"] < 2300:
                    got = parse_iso(n * 86400 + 3723)
                    ctx.expect(got == at.replace(microsecond=0), f"parse_iso({n * 86400 + 3723}) gave {got!r}, expected {at.replace(microsecond=0)!r}")
                    got = parse_iso(n * 86400 + 3723.5)
                    ctx.expect(got == at.replace(microsecond=500000), f"parse_iso({n * 86400 + 3723.5}) gave {got!r}")
                for u in ("D", "s", "ms", "us") + (("ns",) if 1678 < case["y"] < 2262 else ()):
                    got = parse_iso(numpy.datetime64(base, u))
                    ctx.expect(type(got) is datetime.datetime and got == datetime.datetime(day.year, day.month, day.day), f"parse_iso of a numpy date in {u}, {base}: {got!r}")
    elif k == "time":
        for s in range(0, 61):
            clock = f"{case['h']:02}:{case['m']:02}:{s:02}"
            for t in ("2021-03-04T" + clock, "2021-03-04 " + clock + ".999999", "2021-03-04 " + clock + "Z"):
                judge(ctx, t)
        for h in (24, 25, 60, 99):
            judge(ctx, f"2021-03-04T{h}:{case['m']:02}")
            judge(ctx, f"2021-03-04T{h}:{case['m']:02}:00")
        judge(ctx, f"2021-03-04T{case['h']:02}:{case['m']:02}")
        for u in ("s", "ms", "us", "ns"):
            if case["m"] < 60:
                got = parse_iso(numpy.datetime64(f"2021-03-04T{case['h']:02}:{case['m']:02}:07", u))
                ctx.expect(got == datetime.datetime(2021, 3, 4, case["h"], case["m"], 7), f"parse_iso of a numpy time in {u}: {got!r}")
    elif k == "corrupt":
        t, p = case["t"], case["p"]
        judge(ctx, t[:p])
        judge(ctx, t[p:])
        for c in CHARS:
            judge(ctx, t[:p] + c + t[p + 1 :])
            judge(ctx, t[:p] + c + t[p:])
            judge(ctx, t[:p] + c)
            judge(ctx, t[:p] + c + c + t[p + 2 :])
        for q in range(p, len(t) + 1):
            judge(ctx, t[:p] + t[q:])
    elif k == "corrupt2":
        t = case["t"][: case["p"]] + case["c"] + case["t"][case["p"] + 1 :]
        for p in range(len(t) + 1):
            for c in CHARS:
                judge(ctx, t[:p] + c + t[p + 1 :])
    elif k == "short":
        for s in seqs(CHARS[:-3], case["n"], case["n"]):
            judge(ctx, "".join(s))
            judge(ctx, "2020-01-" + "".join(s))
            judge(ctx, "2020-01-02T0" + "".join(s) + "5")
            judge(ctx, "".join(s) + "-01-02")
        for n in range(0, 40):
            judge(ctx, "1" * n)
            judge(ctx, "-" * n)
            judge(ctx, "2020-01-01T00:00:00." + "0" * n)
            judge(ctx, "2020-01-01T00:00:00" + "Z" * n)
    elif k == "types":
        for v in (None, True, False, [], {}, (), b"2020-01-01", ["2020-01-01"], object(), datetime.time(1, 2), datetime.timedelta(1), float("nan"), float("inf"), float("-inf"), 10**30, -(10**30), 1e300, 253402300800, -62135596801, 10**12, numpy.datetime64("NaT"), numpy.datetime64("-0001-01-01"), numpy.datetime64("20000-01-01"), Ellipsis, int, lambda: 1, 2j):
            try:
                got = parse_iso(v)
            except Exception as e:
                ctx.fail(f"parse_iso({v!r}) raised {type(e).__name__}: {e}")
                continue
            ctx.expect(got is None, f"parse_iso({v!r}) gave {got!r}")
            ctx.state(repr(v)[:40])
    elif k == "stamps":
        for n in list(range(-5, 6)) + [10**9 + i for i in range(-3, 4)] + [86400 * i + j for i in (0, 365, 789, 18321, 25568) for j in (-1, 0, 1)]:
            want = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)
            ctx.expect(parse_iso(n) == want and parse_iso(float(n)) == want, f"parse_iso({n}) gave {parse_iso(n)!r}, {parse_iso(float(n))!r}")
            ctx.expect(parse_iso(n + 0.25) == want + datetime.timedelta(microseconds=250000), f"parse_iso({n + 0.25}) gave {parse_iso(n + 0.25)!r}")
            ctx.state(n)
    elif k == "delta":
        for m, s in itertools.product([None, "0", "30", "-1", "90"], [None, "0", "45", "-2", "3600"]):
            parts = [(case["d"], "d", 86400), (case["h"], "h", 3600), (m, "m", 60), (s, "s", 1)]
            total = sum(int(v) * f for v, _, f in parts if v is not None)
            for up in (str, str.upper):
                t = "".join(v + up(u) for v, u, _ in parts if v is not None)
                got = parse_delta(t)
                ctx.expect(type(got) is datetime.timedelta and got.days * 86400 + got.seconds == total and got.microseconds == 0, f"parse_delta({t!r}) gave {got!r}, expected {total} s")
                ctx.state(t)
    elif k == "years":
        for a in (datetime.datetime(2020, 2, 28, 20), datetime.datetime(2019, 1, 1), datetime.datetime(1999, 12, 31, 23)):
            for more in (0, 1, 5, 23):
                b = a + datetime.timedelta(days=case["n"], hours=more)
                judge_range(ctx, a, b, (a.year, a.month, a.day, a.hour), (b.year, b.month, b.day, b.hour))
            judge_range(ctx, a.date(), b.isoformat()[:10], (a.year, a.month, a.day, 0), (b.year, b.month, b.day, 23))
    else:
        ranges(ctx, case)


def ordinal(y, m, d):
    """days since 1970-01-01, counted"""
    n = d - 1 + sum(days_in(y, i) for i in range(1, m))
    if y >= 1970:
        return n + sum(366 if leap(i) else 365 for i in range(1970, y))
    return n - sum(366 if leap(i) else 365 for i in range(y, 1970))


def hours(a, b):
    """every hour from a to b (both on the hour), stepping through the calendar"""
    out = []
    y, m, d, h = a
    while (y, m, d, h) <= b:
        out.append(datetime.datetime(y, m, d, h))
        h += 1
        if h == 24:
            h, d = 0, d + 1
        if d > days_in(y, m):
            d, m = 1, m + 1
        if m > 12:
            m, y = 1, y + 1
    return out


def ranges(ctx, case):
    for origin in (datetime.datetime(2020, 2, 28, 20), datetime.datetime(2019, 12, 31, 12), datetime.datetime(2021, 2, 28, 3)):
        a = origin + datetime.timedelta(hours=case["a"])
        for j in range(case["n"]):
            b = origin + datetime.timedelta(hours=j)
            forms = [(a, b), (a.isoformat(), b.isoformat()), (a.replace(minute=59, second=59, microsecond=5), b), (a, b.replace(minute=30)), (a.strftime("%Y-%m-%d %H:%M"), b.replace(minute=59, second=59))]
            day = [(a.date(), b.date()), (a.strftime("%Y-%m-%d"), b.strftime("%Y-%m-%d")), (a.date(), b.strftime("%Y-%m-%d"))]
            for x, y in forms:
                judge_range(ctx, x, y, (a.year, a.month, a.day, a.hour), (b.year, b.month, b.day, b.hour))
            for x, y in day:
                judge_range(ctx, x, y, (a.year, a.month, a.day, 0), (b.year, b.month, b.day, 23))
            judge_range(ctx, a, b.date(), (a.year, a.month, a.day, a.hour), (b.year, b.month, b.day, 23))


def judge_range(ctx, x, y, a, b):
    ctx.step()
    try:
        got = list(date_range(x, y))
    except ValueError:
        got = "refused"
    want = hours(a, b) if a <= b else "refused"
    ctx.expect(got == want, f"date_range({x!r}, {y!r}): {str(got)[:200]}, expected {str(want)[:200]}")
    ctx.state((str(x), str(y)))
