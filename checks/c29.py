"""C29: the Google Cloud Storage and MinIO adapters against in-memory services that answer the real client libraries, compared with the disk adapter."""
import gc
import itertools
import os
import re
import shutil

from mcheck import env, objects

objects.install()

from mcheck import streams  # noqa: E402,F401 housekeeping threads stay inert
from mabel.adapters.disk import DiskReader, DiskWriter  # noqa: E402
from mabel.adapters.google import GoogleCloudStorageReader, GoogleCloudStorageWriter  # noqa: E402
from mabel.adapters.minio import MinIoReader, MinIoWriter  # noqa: E402
from mabel.data import BatchWriter, Reader, StreamWriter, Writer  # noqa: E402
from mabel.errors import DataNotFoundError  # noqa: E402

from mcheck.choice import Chooser, enumerate_answers  # noqa: E402
from mcheck.core import same  # noqa: E402
from mcheck.store import lines  # noqa: E402

PROPERTY, LEVEL = "C29", "model_checking"
TECHNIQUE = "exhaustive enumeration of configurations, object sets and per-request faults on the real adapters and client libraries over in-memory services, compared with the disk adapter and a list model"
RULE = (
    "every adapter x writer class x format x dataset name x partitioning x blob size x history of up to two (thorough: three) writes over days and record counts, and every date range over them; "
    "every subset of a set of objects with confusable names under several page sizes (quick: for one of them, up to two and all but one for the others); blob contents around the clients' limits; every sequence of up to three (thorough: five) commits to and reads of four places in two buckets by fresh or kept adapters; every history of up to two (thorough: three) request faults and every fault that persists "
    "from some request on, for writing and reading; a state is (objects stored, records read)"
)
ASSUMPTIONS = [
    "the services are models answering the real google-cloud-storage and minio clients below their connection pools (JSON API and S3 XML API, with paging); waiting is virtual",
    "names of blobs are compared up to their generated part",
]
DAYS = ["2020-02-28", "2020-02-29", "2020-03-01"]
NOW = 1_583_020_000
DATASETS = ["bucket/ds", "bucket/dir.x/ds", "bucket/dir/ds.v2", "bucket/ds.v2", "bucket/d s+\u00e9=%41&#?"]
PARTS = {"default": ["year_{yyyy}/month_{mm}/day_{dd}"], "short": ["{yyyy}/{mm}/{dd}"], "one": ["{yyyy}-{mm}-{dd}"], "none": None}
FORMATS = ["jsonl", "zstd", "flat", "parquet", "text"]
S3 = dict(end_point=objects.S3_HOST, access_key="a", secret_key="b", secure=False)
ADAPTERS = {"gcs": (GoogleCloudStorageWriter, GoogleCloudStorageReader, {}), "s3": (MinIoWriter, MinIoReader, S3)}
CLASSES = {"Writer": Writer, "BatchWriter": BatchWriter, "StreamWriter": StreamWriter}
SCHEMA = [{"name": "a", "type": "INTEGER"}, {"name": "b", "type": "VARCHAR"}]
WRITE = ["reset", "lost", 500, 503, 429, 403]
READ = ["reset", 500, 503, 404, 403, "short"]


def units(tier):
    deep = tier == "thorough"
    out = []
    for ad in ADAPTERS:
        for kind, faults in (("wfault", WRITE), ("rfault", READ)):
            for cls in ("BatchWriter", "Writer"):
                for first in range(len(faults) + 1):
                    out.append([kind, ad, cls, first, 3 if deep else 2])
                out.append([kind + "-persistent", ad, cls])
        for cls in CLASSES:
            for fmt in FORMATS:
                for ds in range(len(DATASETS)) if deep or fmt in ("jsonl", "parquet") else (0, 2):
                    out.append(["same", ad, cls, fmt, ds, 3 if deep else 2 if fmt in ("jsonl", "parquet") else 1])
        for ds in range(len(DATASETS)):
            for page in (1, 2, 1000):
                out.append(["list", ad, ds, page, deep or (ds == 0 and page == 2)])
        out.append(["bytes", ad, deep])
        for first in range(8):
            out.append(["buckets", ad, first, 5 if deep else 3])
    return out


def is_explored(unit):
    return unit[0] in ("wfault", "rfault", "wfault-persistent", "rfault-persistent")


# -- histories


def cases(unit):
    if unit[0] == "same":
        _, ad, cls, fmt, ds, n = unit
        counts = (0, 1, 3)
        steps = [(d, c) for d in (0, 1) for c in counts]
        for k in range(1, n + 1):
            for runs in itertools.product(steps, repeat=k):
                if k == 3 and (fmt in ("zstd", "flat") or len({d for d, _ in runs}) == 1):
                    continue
                yield {"k": "same", "ad": ad, "cls": cls, "fmt": fmt, "ds": ds, "parts": list(PARTS)[(ds + k + runs[0][1]) % 4], "limit": (1, 10**6)[(runs[-1][1] + ds) % 2 if k > 1 else 0], "runs": [list(r) for r in runs], "always": runs[0][1] == 0 and k == 2}
                if k == 1 and runs[0][0] == 0:
                    for p in PARTS:
                        for limit in (1, 10**6):
                            for always in (False, True) if cls == "BatchWriter" and runs[0][1] == 0 else (False,):
                                yield {"k": "same", "ad": ad, "cls": cls, "fmt": fmt, "ds": ds, "parts": p, "limit": limit, "runs": [list(r) for r in runs], "always": always}
    elif unit[0] == "list":
        _, ad, ds, page, full = unit
        n = len(confusable(DATASETS[ds]))
        for mask in range(1 << n):
            if not full and 2 < bin(mask).count("1") < n - 1:
                continue
            yield {"k": "list", "ad": ad, "ds": ds, "page": page, "mask": mask}
    elif unit[0] == "buckets":
        _, ad, first, n = unit
        for k in range(1, n):
            for tail in itertools.product(range(8), repeat=k):
                for kept in (False, True):
                    yield {"k": "buckets", "ad": ad, "ops": [first, *tail], "kept": kept}
    else:
        _, ad, deep = unit
        for i in range(len(contents(False))):
            for form in range(len(NAMES)):
                yield {"k": "bytes", "ad": ad, "i": i, "name": form, "big": False}
        for i in range(len(contents(True, ad)) if deep else 1):
            yield {"k": "bytes", "ad": ad, "i": i, "name": 0, "big": True}


def service(ad, **kw):
    s = objects.serve(ad, **kw)
    s.buckets["bucket"] = {}
    s.buckets["bucket2"] = {}
    return s


class disk:
    """the working directory is a fresh scratch folder"""

    def __enter__(self):
        self.folder = f"{env.SCRATCH}/c29-{os.getpid()}"
        shutil.rmtree(self.folder, ignore_errors=True)
        os.makedirs(self.folder)
        os.chdir(self.folder)

    def files(self):
        out = {}
        for top, _, names in os.walk("."):
            for n in names:
                p = os.path.join(top, n)
                with open(p, "rb") as f:
                    out[p[2:]] = f.read()
        return out

    def __exit__(self, *a):
        os.chdir(env.SCRATCH)
        shutil.rmtree(self.folder, ignore_errors=True)


def record(fmt, k):
    return f"{k}:line \u00e9" if fmt == "text" else {"a": k, "b": f"v{k} \u00e9"}


def write(case, inner, kw):
    """the history of writes; what each run accepted"""
    ks = itertools.count(1)
    written = []
    for i, (day, count) in enumerate(case["runs"]):
        env.clock_fixed((NOW + 100 * i) * env.NS, True)
        more = {"always_complete": case["always"]} if case["cls"] == "BatchWriter" else {}
        w = CLASSES[case["cls"]](
            inner_writer=inner, dataset=DATASETS[case["ds"]], format=case["fmt"], partitions=PARTS[case["parts"]], blob_size=case["limit"], date=DAYS[day], schema=SCHEMA if case["fmt"] == "parquet" else False, **more, **kw
        )
        recs = [record(case["fmt"], next(ks)) for _ in range(count)]
        for r in recs:
            w.append(r)
            env.clock_set(env.clock_get() + env.NS)
        w.finalize()
        written.append((day, recs))
    return written


def expected(case, written):
    """per day, the records a read of it returns, in the order of their blobs"""
    days = {0: None, 1: None}
    for day, recs in written:
        if case["cls"] == "BatchWriter":
            if recs or case["always"]:
                days[day] = list(recs)
        elif recs:
            days[day] = (days[day] or []) + recs
    return days


def read(case, inner, kw, first, last, **opts):
    try:
        return [r if isinstance(r, (str, bytes)) else dict(r) for r in Reader(inner_reader=inner, dataset=DATASETS[case["ds"]], partitions=PARTS[case["parts"]], start_date=first, end_date=last, **kw, **opts)]
    except DataNotFoundError:
        return []


GENERATED = re.compile(r"[0-9a-f]{12,}-[^/]*?(?=\.)")


def shape(blobs):
    """names up to their generated part, in order, with the bytes"""
    return [(GENERATED.sub("#", n), blobs[n]) for n in sorted(blobs)]


def check(ctx, case):
    {"same": check_same, "list": check_list, "bytes": check_bytes, "buckets": check_buckets}[case["k"]](ctx, case)


def check_same(ctx, case):
    Wr, Rd, kw = ADAPTERS[case["ad"]]
    s = service(case["ad"], page=2)
    try:
        written = write(case, Wr, kw)
        stored = {n: s.get(n) for n in s.names()}
        env.clock_fixed(NOW * env.NS, True)
        reads = {}
        ranges = [(0, 0), (0, 1), (1, 2)]
        for a, b in ranges:
            reads[a, b] = read(case, Rd, kw, DAYS[a], DAYS[b])
        ctx.step(len(s.requests))
        with disk() as d:
            write(case, DiskWriter, {})
            files = disk.files(d)
            env.clock_fixed(NOW * env.NS, True)
            for a, b in ranges:
                got = read(case, DiskReader, {}, DAYS[a], DAYS[b])
                ctx.expect(same(reads[a, b], got), lambda: f"{case}: read {reads[a, b]} for {DAYS[a]} to {DAYS[b]}, with the disk adapter {got}")
    finally:
        env.clock_real()
    ctx.expect(shape(stored) == shape(files), lambda: f"{case}: stored {brief(stored)}, on disk {brief(files)}")
    ctx.expect(len(s.order) == len(set(s.order)), lambda: f"{case}: an object was overwritten: {s.order}")
    if case["fmt"] != "text":
        days = expected(case, written)
        for a, b in ranges:
            if case["parts"] == "none":
                # without date folders every day reads the one folder; the newest complete batch of all
                if case["cls"] == "BatchWriter":
                    full = [recs for _, recs in written if recs or case["always"]]
                    want = full[-1] if full else []
                else:
                    want = [r for _, recs in written for r in recs]
            else:
                want = [r for day in range(a, b + 1) for r in days.get(day) or ()]
            ctx.expect(same(reads[a, b], want), lambda: f"{case}: {DAYS[a]} to {DAYS[b]} reads {reads[a, b]}, written {want}")
    ctx.state([case["ad"], [n for n, _ in shape(stored)], reads[0, 1]])


def brief(blobs):
    return [(n, len(d)) for n, d in shape(blobs)]


# -- listing


def confusable(ds):
    day = f"{ds}/year_2020/month_02/day_03"
    bucket, rest = ds.split("/", 1)
    return [
        (f"{day}/a.jsonl", True),
        (f"{day}/b c.jsonl", True),
        (f"{day}/sub=1/c+%41.jsonl", True),
        (f"{day}/", False),
        (f"{day}", False),
        (f"{day}x/a.jsonl", False),
        (f"{ds}/year_2020/month_02/day_04/a.jsonl", False),
        (f"{ds}2/year_2020/month_02/day_03/a.jsonl", False),
        (f"{bucket}/x/{rest}/year_2020/month_02/day_03/a.jsonl", False),
        (f"bucket2/{rest}/year_2020/month_02/day_03/a.jsonl", False),
    ]


def check_list(ctx, case):
    _, Rd, kw = ADAPTERS[case["ad"]]
    s = service(case["ad"], page=case["page"])
    want = []
    for i, (name, mine) in enumerate(confusable(DATASETS[case["ds"]])):
        if case["mask"] >> i & 1:
            s.put(name, b"" if name.endswith("/") else lines([{"from": name}]))
            if mine:
                want.append(name)
    case = {**case, "parts": "default"}
    got = [r["from"] for r in read(case, Rd, kw, "2020-02-03", "2020-02-03")]
    ctx.step(len(s.requests))
    ctx.expect(got == sorted(want), lambda: f"{case['ad']} with {s.names()}: read {got}, the dataset holds {sorted(want)}")
    ctx.state([case["ad"], len(want), case["page"], len(s.requests)])


# -- contents
NAMES = ["ds/a.jsonl", "ds/x y/\u00e9+%41&=#?.jsonl", "d/a.parquet", "d.s/frame.complete", "ds/a.jsonl.zstd"]


def contents(big, ad="gcs"):
    if big and ad == "s3":  # (above 5 MB the client uploads from threads, which are inert here)
        return [b"\x00\xff\r\n" * (2**20)]
    if big:
        return [b"\x00\xff\r\n" * (2 * 2**20 + 1), bytes(range(256)) * (5 * 2**12) + b"x"]
    return [b"", b"\x00", b"\n", b"a", bytes(range(256)), b"--==\r\n\r\n--", b"\r\n", b"{}" * 5000, b"\x1f\x8b\x08\x00junk", "\u00e9".encode("latin1")]


def check_bytes(ctx, case):
    Wr, Rd, kw = ADAPTERS[case["ad"]]
    s = service(case["ad"], page=2)
    data, name = contents(case["big"], case["ad"])[case["i"]], NAMES[case["name"]]
    env.clock_fixed(NOW * env.NS, True)
    try:
        w = Wr(dataset="bucket/ds", format="jsonl", **kw)
        one = w.commit(data)
        two = w.commit(data + b"2", override_blob_name=name)
        r = Rd(dataset="bucket/ds", start_date=DAYS[0], end_date=DAYS[0], **kw)
        got = [bytes(r.get_blob_bytes(f"bucket/{n}")) for n in (one, name)]
        again = r.read_blob(f"bucket/{name}").read()
        where = [f"bucket/{one}" in s.names(), f"bucket/{name}" in s.names()]
    finally:
        env.clock_real()
    ctx.step(len(s.requests))
    ctx.expect(where == [True, True] and len(s.names()) == 2, lambda: f"{case}: committed {[one, two]}, stored {s.names()}")
    ctx.expect(two == name, lambda: f"{case}: a commit to {name!r} returned {two!r}")
    ctx.expect(got == [data, data + b"2"] and again == data + b"2", lambda: f"{case}: {len(data)} bytes {data[:40]!r} read back as {[(len(g), g[:40]) for g in got]}")
    ctx.state([case["ad"], case["name"], len(data)])


# -- several buckets and folders in one process
PLACES = ["bucket/ds", "bucket2/ds", "bucket/other", "bucket2/other"]


def check_buckets(ctx, case):
    """operations 0-3 commit to a place, 4-7 read it, by an adapter made for the operation or kept from the first use"""
    Wr, Rd, kw = ADAPTERS[case["ad"]]
    s = service(case["ad"], page=2)
    kept, want = {}, {}
    env.clock_fixed(NOW * env.NS, True)
    try:
        for n, op in enumerate(case["ops"]):
            place = PLACES[op % 4]
            make = Wr if op < 4 else Rd
            who = kept.get(op) if case["kept"] else None
            if who is None:
                who = kept[op] = make(dataset=place, **({"format": "jsonl"} if op < 4 else {"start_date": DAYS[0], "end_date": DAYS[0]}), **kw)
            if op < 4:
                data = lines([{"n": n}])
                name = who.commit(data) if n % 2 else who.commit(data, override_blob_name=place.split("/", 1)[1] + "/x.jsonl")
                want.setdefault(place, {})[place.split("/")[0] + "/" + name] = data
            else:
                names = [b for b in who.get_list_of_blobs()]
                ctx.expect(sorted(names) == sorted(want.get(place, {})), lambda: f"{case}: {place} lists {names}, stored there were {sorted(want.get(place, {}))}")
                for b in names:
                    ctx.expect(bytes(who.get_blob_bytes(b)) == want[place].get(b), lambda: f"{case}: {b} of {place} reads {bytes(who.get_blob_bytes(b))}, stored was {want[place].get(b)}")
            ctx.step()
    finally:
        env.clock_real()
    stored = {n: bytes(s.get(n)) for n in s.names()}
    expect = {n: d for blobs in want.values() for n, d in blobs.items()}
    ctx.expect(stored == expect, lambda: f"{case}: stored {stored}, committed {expect}")
    ctx.state([case["ad"], sorted(want), len(stored)])


# -- faults

HISTORY = [{"a": 1, "b": "one"}, {"a": 2, "b": "two"}, {"a": 3, "b": "three"}]


class Endless(BaseException):
    pass


def one_write(ad, cls, answer):
    """one writer: two blobs and, for a batch, the marker"""
    Wr, Rd, kw = ADAPTERS[ad]
    s = service(ad, page=2, answer=answer)
    env.clock_fixed(NOW * env.NS, True)
    raised = None
    try:
        w = CLASSES[cls](inner_writer=Wr, dataset="bucket/ds", format="jsonl", blob_size=20, date=DAYS[0], schema=False, **kw)
        for r in HISTORY:
            w.append(r)
        w.finalize()
    except Exception as e:
        raised = e
    s.answer = None
    waited = objects.slept[0]
    if raised is not None:
        # what a dropped writer still holds is committed when it goes; let that happen here
        raised = type(raised).__name__
        w = None
        gc.collect()
    got = read({"ds": 0, "parts": "default"}, Rd, kw, DAYS[0], DAYS[0])
    env.clock_real()
    return s, raised, got, waited


def judge_write(ctx, ad, cls, s, raised, got, faults, persistent, what):
    if raised is None:
        ctx.expect(same(got, HISTORY), lambda: f"{what}: nothing was raised, the records stored are {got}")
        ctx.expect(len(set(s.order)) == len(s.names()) == (3 if cls == "BatchWriter" else 2), lambda: f"{what}: nothing was raised, stored {s.order}")
        ctx.expect(not persistent, lambda: f"{what}: nothing was raised")
    else:
        ctx.expect(faults, lambda: f"{what}: raised {raised} without a fault")
        if cls == "BatchWriter":
            ctx.expect(got == [] or same(got, HISTORY), lambda: f"{what}: raised {raised}, but a part of the batch is read: {got}")
        else:
            # (a write whose answer got lost and that was reported as failed may be there, too)
            ctx.expect(all(r in HISTORY for r in got), lambda: f"{what}: raised {raised}, read {got}")
    ctx.state([ad, cls, raised, got, s.order and len(s.order)])


def one_read(ad, cls, answer):
    Wr, Rd, kw = ADAPTERS[ad]
    s = service(ad, page=2)
    env.clock_fixed(NOW * env.NS, True)
    w = CLASSES[cls](inner_writer=Wr, dataset="bucket/ds", format="jsonl", blob_size=1, date=DAYS[0], schema=False, **kw)
    for r in HISTORY:
        w.append(r)
    w.finalize()
    s.requests.clear()
    s.answer = answer
    raised, got = None, None
    try:
        got = [dict(r) for r in Reader(inner_reader=Rd, dataset="bucket/ds", start_date=DAYS[0], end_date=DAYS[0], **kw)]
    except Exception as e:
        raised = type(e).__name__
    env.clock_real()
    return s, raised, got


def judge_read(ctx, ad, cls, s, raised, got, faults, what):
    if raised is None:
        it = iter(HISTORY)
        ctx.expect(all(any(same(r, h) for h in it) for r in got), lambda: f"{what}: read {got}")
        # without faults in the requests for contents nothing is missing
        ctx.expect(faults or same(got, HISTORY), lambda: f"{what}: read {got} without a fault")
    else:
        ctx.expect(faults, lambda: f"{what}: raised {raised} without a fault")
    ctx.state([ad, cls, raised, got])


def listing(ad, parts):
    """is a request part of listing the blobs (as opposed to fetching one)"""
    path, query = parts
    return "list-type" in query if ad == "s3" else path.endswith("/o") and not path.startswith("/upload")


def explore(ctx, unit):
    kind, ad, cls = unit[:3]
    faults = WRITE if kind.startswith("w") else READ
    if kind.endswith("-persistent"):
        for f in faults:
            for start in range(0, 14):
                used = []

                def answer(n, method, what):
                    if n > 3000:
                        raise Endless()
                    if n >= start:
                        used.append(listing(ad, what))
                        return f

                what = f"{ad} {cls} {'write' if kind[0] == 'w' else 'read'}, every request from {start} on answered {f}"
                with ctx.case({"unit": unit, "f": f, "from": start}):
                    if kind[0] == "w":
                        s, raised, got, waited = one_write(ad, cls, answer)
                        judge_write(ctx, ad, cls, s, raised, got, used, bool(used), what)
                    else:
                        s, raised, got = one_read(ad, cls, answer)
                        judge_read(ctx, ad, cls, s, raised, got, used, what)
                        if any(used) and raised is None:
                            ctx.fail(f"{what}: the listing failed for good, yet the read returned {got}")
                ctx.step()
                if not used:
                    break
        return
    _, _, _, first, depth = unit

    def run(prefix):
        c = Chooser(prefix)
        used = []

        def answer(n, method, what):
            if n > 3000:
                raise Endless()
            k = c(len(faults) + 1)
            if k:
                used.append(faults[k - 1])
                return faults[k - 1]

        what = f"{ad} {cls} {'write' if kind[0] == 'w' else 'read'} with request answers {[(i, faults[k - 1]) for i, k in enumerate(prefix) if k]}"
        with ctx.case({"unit": unit, "prefix": list(prefix)}):
            if kind[0] == "w":
                s, raised, got, waited = one_write(ad, cls, answer)
                judge_write(ctx, ad, cls, s, raised, got, used, False, what)
            else:
                s, raised, got = one_read(ad, cls, answer)
                judge_read(ctx, ad, cls, s, raised, got, used, what)
            ctx.step(len(s.requests))
        return c

    # the first fault is of kind `first` (0: no fault at all); split so that the units run beside each other
    if first == 0:
        run(())
        return
    base = run(())
    stack = [tuple([0] * i) + (first,) for i in range(len(base.taken))]
    while stack:
        prefix = stack.pop()
        c = run(prefix)
        if sum(1 for x in prefix if x) < depth:
            for i in range(len(prefix), len(c.taken)):
                for alt in range(1, c.width[i]):
                    stack.append(tuple(c.taken[:i]) + (alt,))
