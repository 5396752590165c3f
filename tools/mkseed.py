"""mkseed.py [ID...]: writes seeded/<ID>/ from tools/seedspec/<ID>.py (edits of /repo's HEAD and a demonstration)"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ids = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(here + "/seedspec/C*.py"))
for i in ids:
    s = runpy.run_path("%s/seedspec/%s.py" % (here, i))
    d = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
        for f, a, b in s["EDITS"]:
            t = open("%s/r/%s" % (d, f), encoding="utf-8").read()
            assert t.count(a) == 1, (i, f, t.count(a), a)
            open("%s/r/%s" % (d, f), "w", encoding="utf-8").write(t.replace(a, b))
        diff = subprocess.check_output(["git", "-C", d + "/r", "diff"])
    finally:
        shutil.rmtree(d)
    out = "%s/seeded/%s" % (root, i)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    open(out + "/patch.diff", "wb").write(diff)
    shutil.copy(here + "/seedspec/common.py", out + "/common.py")
    open(out + "/demo.py", "w", encoding="utf-8").write("from common import *\n" + s["DEMO"])
    open(out + "/demo.sh", "w").write('#!/bin/sh\n# run with cwd = the repository: 0 when the property holds in this scenario\n'
                                      'here=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$here" PYTHONHASHSEED=0\n'
                                      'exec /opt/pypyvenv/bin/python -B "$here/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": " ".join(s["NEEDS"].split()), "what_it_breaks": " ".join(s["BREAKS"].split())},
              open(out + "/meta.json", "w"), indent=1)
    print(i, len(diff))
