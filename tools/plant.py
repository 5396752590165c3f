"""plant.py ID...: tries planted bugs in scratch copies: build, stable tests, demo without and with, and the check.
A line per bug; full output under /tmp/plant/.  Options: --no-tests --no-check --runs N --workers N -j N"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--runs")
ap.add_argument("--workers", default="4")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--seed", default="1")
ap.add_argument("--save", action="store_true", help="keep the outcome of the checks in tools/caught.json for DESIGN.md")
a = ap.parse_args()
ids = a.ids or sorted(os.listdir(root + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", VERIF_SEED=a.seed, DST_SHRINK_S="2")
os.makedirs("/tmp/plant", exist_ok=True)


def sh(cmd, cwd, log, timeout=900, env=env):
    with open(log, "ab") as f:
        f.write(("\n$ %s\n" % cmd).encode())
        f.flush()
        try:
            return subprocess.call(cmd, shell=True, cwd=cwd, stdout=f, stderr=f, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return "timeout"


def one(i):
    prop = json.load(open("%s/seeded/%s/meta.json" % (root, i)))["property"]
    log = "/tmp/plant/%s.log" % i
    open(log, "w").close()
    d = tempfile.mkdtemp(prefix="plant-")
    res = {}
    try:
        subprocess.check_call("cp -a /repo/. %s/" % d, shell=True)
        s = d + "-seed"
        shutil.copytree("%s/seeded/%s" % (root, i), s)
        for f in ("patch.diff", "meta.json"):
            os.remove(s + "/" + f)
        res["demo0"] = sh("sh %s/demo.sh" % s, d, log, 300)
        res["apply"] = sh("git apply %s/seeded/%s/patch.diff" % (root, i), d, log)
        res["demo1"] = sh("sh %s/demo.sh" % s, d, log, 300)
        if not a.no_tests:
            rc = sh(PY + " -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s/j.xml "
                    "--ignore=tests/test_checker.py --ignore=tests/paifu/test_tenhouRecord.py tests | tail -15" % s, d, log)
            t = ET.parse(s + "/j.xml").getroot()
            t = t if t.tag == "testsuite" else t.find("testsuite")
            res["tests"] = "%s/%s failed" % (int(t.get("failures")) + int(t.get("errors")), t.get("tests"))
        if not a.no_check:
            res["check"] = sh("%s -B check.py %s --workers %s %s" % (PY, prop, a.workers, "--runs " + a.runs if a.runs else ""),
                              root, log, 900, dict(env, DST_REPO=d))
            out = open(log, errors="replace").read()
            v = [x for x in out.splitlines() if x.startswith("VIOLATION") or "violation" in x.lower()]
            res["how"] = next((x.strip()[:150] for x in out.split("check.py", 1)[-1].splitlines() if "kind=" in x or "signature" in x), v[:1])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(d + "-seed", ignore_errors=True)
    if "check" in res:
        m = re.search(r"violation kind: (\S+) \((run \d+)", str(res["how"]))
        FOUND[i] = "%s: %s (%s)" % (prop, m.group(1), m.group(2)) if m and res["check"] == 1 else "missed"
    ok = res.get("demo0") == 0 and res.get("demo1") not in (0, "timeout") and res.get("apply") == 0 and res.get(
        "tests", "0/").startswith("0/") and res.get("check", 1) == 1
    print("%s %s %s" % ("ok  " if ok else "BAD ", i, res), flush=True)
    return ok


FOUND = {}
with ThreadPoolExecutor(a.j) as ex:
    r = list(ex.map(one, ids))
if a.save:
    p = root + "/tools/caught.json"
    old = json.load(open(p)) if os.path.exists(p) else {}
    old.update(FOUND)
    with open(p, "w") as f:
        json.dump(old, f, indent=0, sort_keys=True)
print("%d of %d" % (sum(r), len(r)))
