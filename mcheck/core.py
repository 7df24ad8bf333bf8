"""
Exhaustive exploration driver.

A check module (checks/cNN.py) provides
  PROPERTY, LEVEL, TECHNIQUE, RULE, ASSUMPTIONS
  units(tier)            -> list of JSON-able work units; together they partition the bounded space
  cases(unit)            -> generator of JSON-able cases of the unit (every one is executed)
  check(ctx, case)       -> executes one case against the real code and compares it with the model
or, for explorers that discover their choices while running,
  explore(ctx, unit)     -> performs the whole search, wrapping each execution in ctx.case(case)
"""
import contextlib
import gc
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

from mcheck import env

HOME = os.environ["VERIF_HOME"]
REPO = os.path.realpath(env.REPO)
WORKERS = int(os.environ.get("MCHECK_WORKERS", "8"))
CASE_SECONDS = 90
MAX_VIOLATIONS = int(os.environ.get("MCHECK_MAX", "6"))


class CaseTimeout(BaseException):
    pass


class StopUnit(BaseException):
    pass


class HarnessError(BaseException):
    pass


def jd(x):
    try:
        return json.dumps(x, sort_keys=True, default=repr, ensure_ascii=True)
    except TypeError:  # keys that do not sort
        return json.dumps(repr(x))


def short(x, n=400):
    s = x if isinstance(x, str) else jd(x) if isinstance(x, (dict, list)) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def innermost_frames(exc):
    return [f.filename for f in traceback.extract_tb(exc.__traceback__)]


def from_repo(exc):
    """did the exception pass through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for f in innermost_frames(exc):
            if os.path.realpath(f).startswith(REPO + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


class Ctx:
    def __init__(self, module, tier, seed):
        self.module, self.tier, self.seed = module, tier, seed
        self.prop = module.PROPERTY
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.violations = []
        self.known = load_known(self.prop)
        self.current = None
        self.unit = None
        self.caps = []
        self.failed_case = False

    # ---- what checks call
    def state(self, key):
        """a distinct state / observation reached"""
        if not isinstance(key, (str, bytes)):
            key = jd(key)
        if isinstance(key, str):
            key = key.encode("utf8", "surrogatepass")
        self.states.add(hashlib.blake2b(key, digest_size=8).digest())

    def step(self, n=1):
        """transitions of the implementation executed"""
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def cap(self, text):
        self.caps.append(text)

    def fail(self, msg, signature=None):
        if self.failed_case:  # one report for each case is enough
            return
        self.failed_case = True
        signature = signature or self.signature()
        known = signature in self.known
        if known and any(v["signature"] == signature for v in self.violations):
            return
        self.violations.append(
            {
                "unit": self.unit,
                "case": self.current,
                "message": short(msg, 4000),
                "signature": signature,
            }
        )
        if not known and sum(1 for v in self.violations if v["signature"] not in self.known) >= MAX_VIOLATIONS:
            raise StopUnit()

    def signature(self):
        return hashlib.sha256(jd([self.prop, self.current]).encode()).hexdigest()[:16]

    def expect(self, cond, msg, signature=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, signature)
        return bool(cond)

    def equal(self, got, want, what=""):
        if not same(got, want):
            self.fail(f"{what}: got {short(repr(got), 1200)} expected {short(repr(want), 1200)}")
            return False
        return True

    @contextlib.contextmanager
    def case(self, case):
        self.current = case
        self.failed_case = False
        self._announce(case)
        signal.setitimer(signal.ITIMER_REAL, getattr(self.module, "CASE_SECONDS", CASE_SECONDS), 3)
        try:
            try:
                yield
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self.traces += 1
        except CaseTimeout:
            self.fail("no answer: the operation did not finish")
        except (StopUnit, HarnessError, KeyboardInterrupt, SystemExit):
            raise
        except MemoryError as e:
            self.fail("memory exhausted")
        except BaseException as e:
            if from_repo(e) or not isinstance(e, (ImportError, AttributeError, NameError, OSError)):
                # (an oracle that chokes on what the code returned is a violation too)
                self.fail(f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1800:]}")
            else:
                raise HarnessError(f"{type(e).__name__}: {e} in case {short(case)}\n{traceback.format_exc()}")
        finally:
            env.fs_off()
            env.clock_real()
        if len(self.samples) < 2:
            self.samples.append(case)

    def _announce(self, case):
        pass


def same(a, b):
    """equality that also tells 1 from True and 1.0, and knows NaN"""
    if type(a) is not type(b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        elif isinstance(a, dict) and isinstance(b, dict):
            pass
        else:
            return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def run_unit(ctx, unit):
    m = ctx.module
    ctx.unit = unit
    if hasattr(m, "explore") and not (hasattr(m, "cases") and not m.is_explored(unit)):
        m.explore(ctx, unit)
        return
    n = 0
    for case in m.cases(unit):
        with ctx.case(case):
            m.check(ctx, case)
        n += 1
    ctx.count("cases", n)


def _alarm(*_):
    raise CaseTimeout()


def worker(module, tier, seed, units, req_r, res_w, cur_path):
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    mydir = os.path.join(env.SCRATCH, f"w{os.getpid()}")
    os.makedirs(mydir, exist_ok=True)
    os.chdir(mydir)
    import tempfile

    tempfile.tempdir = mydir
    os.environ["TMPDIR"] = mydir
    cur = open(cur_path, "wb", buffering=0)

    def announce(case):
        b = pickle.dumps(case)
        cur.seek(0)
        cur.write(struct.pack("<dI", time.monotonic(), len(b)) + b)

    if hasattr(module, "setup"):
        module.setup()
    while True:
        b = os.read(req_r, 4)
        if len(b) < 4:
            os._exit(0)
        (i,) = struct.unpack("<i", b)
        ctx = Ctx(module, tier, seed)
        ctx._announce = announce
        err = None
        try:
            run_unit(ctx, units[i])
        except StopUnit:
            ctx.cap("stopped after violations")
        except CaseTimeout:
            err = "timeout outside a case"
        except HarnessError as e:
            err = str(e)
        except BaseException as e:
            err = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
            if from_repo(e):
                # enumerating the cases itself may call the code under test
                ctx.failed_case = False
                try:
                    ctx.fail(f"unexpected {err[-1500:]}")
                except StopUnit:
                    pass
                err = None
        res = pickle.dumps(
            (i, b"".join(ctx.states), ctx.transitions, ctx.traces, ctx.extra, ctx.samples, ctx.violations, ctx.caps, err)
        )
        _writeall(res_w, struct.pack("<I", len(res)) + res)


def _writeall(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


class Pool:
    def __init__(self, module, tier, seed, units):
        self.args = (module, tier, seed, units)
        self.units = units
        self.procs = {}
        self.serial = 0

    def spawn(self):
        self.serial += 1
        cur = os.path.join(env.SCRATCH, f"cur{self.serial}")
        open(cur, "wb").close()
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                for p in self.procs.values():
                    os.close(p["req"])
                    os.close(p["res"])
                os.close(req_w)
                os.close(res_r)
                worker(*self.args, req_r, res_w, cur)
            finally:
                os._exit(3)
        os.close(req_r)
        os.close(res_w)
        self.procs[pid] = {"pid": pid, "req": req_w, "res": res_r, "unit": None, "buf": b"", "cur": cur, "t": time.monotonic()}
        return self.procs[pid]

    def give(self, p, i):
        p["unit"], p["t"] = i, time.monotonic()
        os.write(p["req"], struct.pack("<i", i))

    def kill(self, p):
        try:
            os.killpg(p["pid"], signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(p["pid"], signal.SIGKILL)
        except OSError:
            pass
        try:
            _, st = os.waitpid(p["pid"], 0)
        except ChildProcessError:
            st = 0
        for k in ("req", "res"):
            os.close(p[k])
        self.procs.pop(p["pid"], None)
        return st

    def current_case(self, p):
        try:
            b = open(p["cur"], "rb").read()
            t, n = struct.unpack("<dI", b[:12])
            return t, pickle.loads(b[12 : 12 + n])
        except Exception:
            return None, None


def explore_all(module, tier, seed, units, deadline):
    pool = Pool(module, tier, seed, units)
    todo = list(range(len(units)))
    # big units first is the module's business; here: as listed
    todo.reverse()
    attempts = {}
    results, deaths = [], []
    violations = 0
    known = load_known(module.PROPERTY)
    hang_after = getattr(module, "CASE_SECONDS", CASE_SECONDS) + 20
    stopping = False
    while True:
        while todo and not stopping and len([p for p in pool.procs.values() if p["unit"] is not None]) < WORKERS:
            idle = [p for p in pool.procs.values() if p["unit"] is None]
            p = idle[0] if idle else pool.spawn()
            pool.give(p, todo.pop())
        busy = [p for p in pool.procs.values() if p["unit"] is not None]
        if not busy:
            break
        r, _, _ = select.select([p["res"] for p in busy], [], [], 1.0)
        for p in list(busy):
            if p["res"] in r:
                b = os.read(p["res"], 1 << 20)
                if not b:
                    i = p["unit"]
                    _, case = pool.current_case(p)
                    st = pool.kill(p)
                    attempts[i] = attempts.get(i, 0) + 1
                    if attempts[i] < 2:
                        todo.append(i)
                    else:
                        deaths.append((i, case, f"the process running it died (status {st})"))
                        violations += 1
                    continue
                p["buf"] += b
                if len(p["buf"]) >= 4:
                    (n,) = struct.unpack("<I", p["buf"][:4])
                    if len(p["buf"]) >= 4 + n:
                        res = pickle.loads(p["buf"][4 : 4 + n])
                        p["buf"] = b""
                        p["unit"] = None
                        results.append(res)
                        violations += sum(1 for v in res[6] if v["signature"] not in known)
            else:
                t, case = pool.current_case(p)
                t = max(t or 0, p["t"])
                if time.monotonic() - t > hang_after and p["unit"] is not None and t > 0:
                    i = p["unit"]
                    pool.kill(p)
                    deaths.append((i, case, "no answer: the operation did not finish"))
                    violations += 1
        if violations >= MAX_VIOLATIONS:
            stopping = True
        if time.monotonic() > deadline:
            for p in list(pool.procs.values()):
                if p["unit"] is not None:
                    todo.append(p["unit"])
                pool.kill(p)
            break
    for p in list(pool.procs.values()):
        pool.kill(p)
    return results, deaths, todo, stopping


def load_known(prop):
    known = {}
    path = os.path.join(HOME, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: "):
                parts = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                if parts.get("property") == prop:
                    known[parts["signature"]] = line[7:].split(" ", 2)[2]
    return known


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    try:
        module = importlib.import_module(f"checks.{prop.lower()}")
    except BaseException as e:
        if from_repo(e) and not isinstance(e, KeyboardInterrupt):
            # the code under test cannot even be loaded
            traceback.print_exc()
            path = write_replay(prop, {"unit": None, "case": None, "message": f"cannot be imported: {e}", "signature": "import"})
            evidence(prop, tier, seed, None, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}, t0, 1, [])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        raise
    if "--replay" in argv:
        return replay(module, tier, seed, argv[argv.index("--replay") + 1])
    units = module.units(tier)
    budget = float(os.environ.get("MCHECK_BUDGET", "780" if tier == "quick" else "5400"))
    gc.collect()
    gc.freeze()
    results, deaths, left, stopped = explore_all(module, tier, seed, units, t0 + budget)

    states, extra, samples, viol, caps, errors = set(), {}, [], [], [], []
    transitions = traces = 0
    for i, st, tr, tc, ex, sa, vi, ca, err in sorted(results, key=lambda r: r[0]):
        for k in range(0, len(st), 8):
            states.add(st[k : k + 8])
        transitions += tr
        traces += tc
        for k, v in ex.items():
            extra[k] = extra.get(k, 0) + v
        if sa and len(samples) < 8:
            samples.append(sa[len(samples) % len(sa)])
        viol += vi
        caps += ca
        if err:
            errors.append((i, err))
    for i, case, why in deaths:
        viol.append({"unit": units[i], "case": case, "message": why, "signature": hashlib.sha256(jd([prop, case]).encode()).hexdigest()[:16]})
    if left and not viol:
        caps.append(f"time budget reached: {len(left)} of {len(units)} units not explored")
    if hasattr(module, "finish") and not viol and not errors:
        msg = module.finish(extra, len(states), tier)
        if msg:
            errors.append((-1, msg))

    known = load_known(prop)
    reported, out = {}, []
    for v in viol:
        if v["signature"] in known:
            reported.setdefault(v["signature"], known[v["signature"]])
        else:
            out.append(v)
    for sig, what in reported.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    cov = {
        "states": len(states),
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "samples": [s if not isinstance(s, str) else s for s in samples] or ["none"],
        "exhaustive": not caps and not left and not out,
        "units": len(units),
        "rule": module.RULE,
    }
    for k, v in extra.items():
        cov.setdefault(k, v)
    if caps:
        cov["caps"] = sorted(set(caps))
    evidence(prop, tier, seed, module, cov, t0, len(out), getattr(module, "ASSUMPTIONS", []))
    print(
        f"{prop} {tier}: states={len(states)} transitions={transitions} traces={traces} units={len(results)}/{len(units)} "
        f"violations={len(out)} wall={time.monotonic()-t0:.1f}s" + (f" caps={sorted(set(caps))}" if caps else "")
    )
    for k in sorted(extra):
        print(f"  {k}={extra[k]}")
    if out:
        out.sort(key=lambda v: len(jd(v["case"])))
        for v in out[:int(os.environ.get("MCHECK_SHOW","3"))]:
            print(f"  violation: {short(v['message'], 1500)}\n    case: {short(v['case'], 800)}")
        path = write_replay(prop, out[0])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for i, e in errors[:3]:
            print(f"HARNESS ERROR in unit {i}: {e}")
        return 2
    return 0


def write_replay(prop, v):
    d = os.path.join(HOME, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "case": v["case"], "message": v["message"], "signature": v["signature"]}, f, indent=1, default=repr)
    return path


def replay(module, tier, seed, path):
    v = json.load(open(path))
    ctx = Ctx(module, tier, seed)
    signal.signal(signal.SIGALRM, _alarm)
    mydir = os.path.join(env.SCRATCH, "replay")
    os.makedirs(mydir, exist_ok=True)
    os.chdir(mydir)
    if hasattr(module, "setup"):
        module.setup()
    try:
        with ctx.case(v["case"]):
            module.check(ctx, v["case"])
    except StopUnit:
        pass
    for x in ctx.violations:
        print("reproduced:", x["message"])
    if ctx.violations:
        print(f"VIOLATION property={module.PROPERTY} replay={path}")
        return 1
    print("not reproduced")
    return 0


def evidence(prop, tier, seed, module, cov, t0, nviol, assumptions):
    d = os.path.join(HOME, "evidence")
    os.makedirs(d, exist_ok=True)
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "model_checking"),
        "coverage": cov,
        "assumptions": list(assumptions),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": nviol,
    }
    tmp = os.path.join(d, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))
