"""Development tool: make and verify planted bugs. usage: plant.py SPECS.py [ID...]
SPECS.py: PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, checks=[...])]"""
import concurrent.futures
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

BASE = "8ee997f"
HOME = "/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def original_lines(patch, repo):
    """does the patch change at least a line of the original repository"""
    file, ok = None, False
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            file = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m.group(1)), int(m.group(2) or 1)
            line = a - 1
        elif file and not l.startswith(("---", "+++", "diff", "index", "+", "@@")):
            line += 1
            if l.startswith("-"):
                who = sh(["git", "-C", repo, "blame", "-s", "-L", f"{line},{line}", "--", file]).stdout
                if who.startswith("^"):
                    ok = True
                elif sh(["git", "-C", repo, "merge-base", "--is-ancestor", who.split()[0], BASE]).returncode == 0:
                    ok = True
    return ok


def one(p):
    d = f"/tmp/s/plants/{p['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a /repo/. {d}/")
    for f, old, new in p["edits"]:
        path = f"{d}/mabel/{f}"
        t = open(path).read()
        if t.count(old) != 1:
            return p["id"], f"edit of {f} matches {t.count(old)} times"
        open(path, "w").write(t.replace(old, new))
    patch = sh(["git", "-C", d, "diff"]).stdout
    seed = f"/tmp/s/plants/{p['id']}.seed"
    shutil.rmtree(seed, ignore_errors=True)
    os.makedirs(seed)
    open(f"{seed}/patch.diff", "w").write(patch)
    open(f"{seed}/demo.py", "w").write(p["demo"].lstrip("\n"))
    if "from mem import" in p["demo"]:
        shutil.copy(f"{HOME}/tools/mem.py", f"{seed}/mem.py")
    open(f"{seed}/demo.sh", "w").write(
        '#!/bin/bash\n# cwd: the repository; exit 0 if the property holds on this history, not 0 otherwise\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
        'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC PYTHONPATH="$PWD:$here"\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n'
    )
    os.chmod(f"{seed}/demo.sh", 0o755)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(f"{seed}/meta.json", "w"), indent=1)
    res = {}
    res["original"] = original_lines(patch, "/repo")
    a = sh(["timeout", "280", f"{seed}/demo.sh"], cwd="/repo")
    b = sh(["timeout", "280", f"{seed}/demo.sh"], cwd=d)
    res["demo"] = (a.returncode, b.returncode)
    if a.returncode:
        res["demo_out"] = (a.stdout + a.stderr)[-800:]
    if b.returncode == 0:
        return p["id"], res
    res["demo_why"] = (b.stdout + b.stderr).strip().splitlines()[-1:][0][:200] if (b.stdout + b.stderr).strip() else ""
    os.makedirs(f"{d}/.w", exist_ok=True)
    sh(
        f"cd {d} && rm -rf {d}/_temp {d}/temp && HOME=/root LANG=C.UTF-8 TZ=UTC PYTHONPATH={d} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 800 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p no:xdist --tb=short --timeout=120 "
        f"--continue-on-collection-errors --ignore=tests/storage_tests/minio_s3 --ignore=tests/storage_tests/google/test_rw_gcs.py --ignore=tests/storage_tests/google/test_rw_gcs_parquet.py -o junit_family=xunit2 --junitxml={d}/.w/junit.xml; "
        f"/usr/bin/python3 /opt/vp/results.py {d}/.w/out.json junit:{d}/.w/junit.xml"
    )
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        res["tests_failed"] = sorted(stable - set(json.load(open(f"{d}/.w/out.json"))["passed"]))
    except Exception as e:
        res["tests_failed"] = repr(e)
    res["checks"] = {}
    for c in p.get("checks") or [p["property"]]:
        r = sh([f"{HOME}/run.sh", c], env={**os.environ, "TARGET_REPO": d}, timeout=900)
        res["checks"][c] = r.returncode
    shutil.rmtree(d, ignore_errors=True)
    good = res["original"] and a.returncode == 0 and b.returncode and not res["tests_failed"]
    res["good"] = bool(good)
    if good:
        dest = f"{HOME}/seeded/{p['id']}"
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(seed, dest)
    shutil.rmtree(seed, ignore_errors=True)
    return p["id"], res


def main():
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    todo = [p for p in m.PLANTS if not want or p["id"] in want]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, todo):
            print(i, r, flush=True)


main()
