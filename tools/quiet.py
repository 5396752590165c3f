"""quiet.py [R..]: behaviour-preserving edits (tools/refspec) in scratch copies: stable tests, every demo, and the checks, which must stay quiet."""
import argparse, glob, json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--all", action="store_true", help="every check, not only those named")
ap.add_argument("--no-tests", action="store_true")
ap.add_argument("--no-demos", action="store_true")
ap.add_argument("--workers", default="8")
ap.add_argument("--runs")
ap.add_argument("--seed", default="1")
ap.add_argument("--props")
ap.add_argument("--nosoft", action="store_true")
a = ap.parse_args()
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", VERIF_SEED=a.seed, DST_SHRINK_S="2")
os.makedirs("/tmp/quiet", exist_ok=True)
specs = a.ids or sorted(os.path.basename(f)[:-3] for f in glob.glob(root + "/tools/refspec/R*.py"))
bad = 0
for i in specs:
    g = runpy.run_path("%s/tools/refspec/%s.py" % (root, i))
    d = tempfile.mkdtemp(prefix="quiet-")
    log = "/tmp/quiet/%s.log" % i
    f = open(log, "wb")
    try:
        subprocess.check_call("cp -a /repo/. %s/" % d, shell=True)
        for name, old, new in g["EDITS"]:
            p = os.path.join(d, name)
            with open(p, encoding="utf-8", newline="") as h:
                t = h.read()
            crlf = "\r\n" in t
            t = t.replace("\r\n", "\n")
            if t.count(old) != 1:
                raise SystemExit("%s: %s: %d matches of %r" % (i, name, t.count(old), old[:80]))
            t = t.replace(old, new)
            with open(p, "w", encoding="utf-8", newline="\r\n" if crlf else "\n") as h:
                h.write(t)
        out = {}
        if not a.no_tests:
            subprocess.call(PY + " -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s/j.xml "
                            "--ignore=tests/test_checker.py --ignore=tests/paifu/test_tenhouRecord.py tests | tail -15" % d,
                            shell=True, cwd=d, stdout=f, stderr=f, env=env)
            t = ET.parse(d + "/j.xml").getroot()
            t = t if t.tag == "testsuite" else t.find("testsuite")
            out["tests"] = int(t.get("failures")) + int(t.get("errors"))
        props = a.props.split(",") if a.props else ["C%02d" % n for n in range(1, 18)] if a.all else g["PROPS"]
        if not a.no_demos:
            ds = [x for x in sorted(os.listdir(root + "/seeded")) if x[:3] in props]

            def demo(x):
                s = tempfile.mkdtemp(prefix="quietd-")
                shutil.copytree("%s/seeded/%s" % (root, x), s + "/s")
                try:
                    p = subprocess.run("sh %s/s/demo.sh" % s, shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
                    return p.returncode, p.stdout
                finally:
                    shutil.rmtree(s)
            with ThreadPoolExecutor(6) as ex:
                for x, (rc, o) in zip(ds, ex.map(demo, ds)):
                    if rc:
                        out["demo " + x] = rc
                        f.write(o)
        for p in props:
            f.write(("\n$ check %s\n" % p).encode())
            f.flush()
            rc = subprocess.call([PY, "-B", "check.py", p, "--workers", a.workers] + (["--runs", a.runs] if a.runs else []), cwd=root, stdout=f, stderr=f,
                                 env=dict(env, DST_REPO=d))
            out[p] = rc
    finally:
        f.close()
        shutil.rmtree(d)
    quiet = not any(out.values())
    bad += not quiet
    print("quiet" if quiet else "ALARM", i, out, flush=True)
print("%d alarms" % bad)
sys.exit(bool(bad))
