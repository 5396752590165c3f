"""mutate.py N [--seed S] [-j J] [--files a,b]: small random edits of the sources in scratch copies.  An edit that the checks
of the file let pass (reduced runs, then full quick runs) and the stable tests too is listed in /tmp/mm/survivors.txt for reading:
it is either without effect on any property or shows what the checks miss."""
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading
import xml.etree.ElementTree as ET

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("n", type=int)
ap.add_argument("--seed", default="1")
ap.add_argument("-j", type=int, default=8)
ap.add_argument("--files")
ap.add_argument("--out", default="/tmp/mm")
a = ap.parse_args()
os.makedirs(a.out, exist_ok=True)
U = "C02 C03 C06 C05 C04 C17"
FILES = {
    "record/state.py": "C01 C08 C17", "record/player.py": "C01 C15 C08", "record/reader.py": "C15 C14 C16 C07 C17 C09",
    "record/utils/event.py": "C15 C14 C01 C02 C08", "record/utils/value/meld.py": "C01 C14 C02 C15",
    "record/utils/value/gametype.py": "C15 C02", "record/utils/builder.py": "C15 C14 C02", "record/utils/bit.py": "C14 C15 C01",
    "record/utils/value/tile.py": "C15 C14 C02", "record/utils/value/general.py": "C15 C02", "record/utils/constant.py": "C15 C14 C01 C02",
    "record/category.py": "C14 C15 C01 C08", "record/util_functions.py": "C15 C14 C17", "record/const.py": "C15 C14 C01 C08",
    "record/stage.py": "C13", "record/universe/executor.py": U, "record/universe/command.py": U, "record/universe/translator.py": U,
    "record/universe/interpreter.py": U, "record/universe/format.py": U, "record/universe/property_manager.py": U,
    "record/universe/tenhou/__init__.py": U, "record/universe/tenhou/xml_macher.py": U, "record/universe/tenhou/event_definition.py": U,
    "container/set.py": "C12 C08 C10", "container/utils.py": "C12 C10 C08", "container/distribution.py": "C11 C10",
    "container/pattern/win.py": "C12 C08 C10", "container/pattern/reasoning.py": "C12 C08", "tile/definition.py": "C12 C08 C10",
    "win_rate_demo.py": "C10", "tenhou_record_check.py": "C08 C09 C17",
}
SMALL = {"C01": 150, "C02": 120, "C03": 250, "C04": 60, "C05": 100, "C06": 50, "C07": 200, "C08": 80, "C09": 60, "C10": 120, "C11": 800,
         "C12": 200, "C13": 2500, "C14": 150, "C15": 200, "C16": 150, "C17": 40}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitAnd: ast.BitOr,
       ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Div: ast.Mult}


def sites(tree):
    """(description, function that edits the tree in place)"""
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    for n in ast.walk(tree):
        def add(what, fn, n=n):
            out.append(("line %s: %s" % (getattr(n, "lineno", "?"), what), fn))
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    add("compare", lambda n=n, i=i, o=o: n.ops.__setitem__(i, CMP[type(o)]()))
        elif isinstance(n, ast.BoolOp):
            add("and/or", lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            add("drop operand", lambda n=n: n.values.pop())
            add("drop first operand", lambda n=n: n.values.pop(0))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add("operator", lambda n=n: setattr(n, "op", BIN[type(n.op)]()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add("drop not", lambda n=n: (setattr(n, "op", ast.UAdd()) if False else n.__dict__.update(op=ast.Not(), operand=ast.UnaryOp(
                ast.Not(), n.operand))))
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            if isinstance(n.value, bool):
                add("flip", lambda n=n: setattr(n, "value", not n.value))
            elif isinstance(n.value, int):
                add("+1", lambda n=n: setattr(n, "value", n.value + 1))
                add("-1", lambda n=n: setattr(n, "value", n.value - 1))
            elif isinstance(n.value, str) and n.value:
                add("text", lambda n=n: setattr(n, "value", n.value + "~"))
            elif n.value is None:
                add("None->0", lambda n=n: setattr(n, "value", 0))
        elif isinstance(n, ast.IfExp):
            add("swap ifexp", lambda n=n: n.__dict__.update(body=n.orelse, orelse=n.body))
        elif isinstance(n, ast.Slice):
            for k in ("lower", "upper", "step"):
                if getattr(n, k) is not None:
                    add("no " + k, lambda n=n, k=k: setattr(n, k, None))
        elif isinstance(n, ast.comprehension) and n.ifs:
            add("no filter", lambda n=n: n.ifs.pop())
        elif isinstance(n, ast.Call):
            if len(n.args) > 1:
                add("swap args", lambda n=n: n.args.__setitem__(slice(0, 2), n.args[1::-1]))
            if n.keywords:
                add("drop keyword", lambda n=n: n.keywords.pop())
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "tuple", "sorted", "sum", "reversed", "dict", "str", "int") and len(
                    n.args) == 1:
                add("drop " + n.func.id, lambda n=n: n.__dict__.update(func=ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []),
                                                                                        ast.Name("x", ast.Load()))))
            if isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "any", "all"):
                o = {"min": "max", "max": "min", "any": "all", "all": "any"}[n.func.id]
                add(o, lambda n=n, o=o: setattr(n.func, "id", o))
        elif isinstance(n, ast.FunctionDef) and n.decorator_list:
            add("no decorator", lambda n=n: n.decorator_list.pop())
        elif isinstance(n, ast.ClassDef) and n.decorator_list:
            add("no decorator", lambda n=n: n.decorator_list.pop())
        elif isinstance(n, ast.Break):
            pass
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(
                            s.value, ast.Constant)) and not isinstance(n, ast.Module):
                        add("drop statement at %d" % s.lineno, lambda b=b, i=i: b.__setitem__(i, ast.Pass()))
                    elif isinstance(s, ast.Return) and s.value is not None:
                        add("return None at %d" % s.lineno, lambda s=s: setattr(s, "value", ast.Constant(None)))
                    elif isinstance(s, (ast.Break, ast.Continue)):
                        add("break/continue at %d" % s.lineno,
                            lambda b=b, i=i, s=s: b.__setitem__(i, ast.Continue() if isinstance(s, ast.Break) else ast.Break()))
                    elif isinstance(s, ast.If):
                        add("if True at %d" % s.lineno, lambda s=s: setattr(s, "test", ast.Constant(True)))
                        add("if False at %d" % s.lineno, lambda s=s: setattr(s, "test", ast.Constant(False)))
                    elif isinstance(s, ast.Raise):
                        add("no raise at %d" % s.lineno, lambda b=b, i=i: b.__setitem__(i, ast.Pass()))
    return out


all_ = []
for f in FILES:
    if a.files and not any(x in f for x in a.files.split(",")):
        continue
    src = open("/repo/mahjong/" + f, encoding="utf-8").read()
    for k in range(len(sites(ast.parse(src)))):
        all_.append((f, k))
rng = random.Random(a.seed)
rng.shuffle(all_)
picked = all_[:a.n]
print(len(all_), "sites,", len(picked), "picked", flush=True)
lock = threading.Lock()
copies = []
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", VERIF_SEED=a.seed, DST_SHRINK_S="0")
verif = tempfile.mkdtemp(prefix="mmv-")
shutil.copytree(root, verif + "/v", ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
stat = {}


def one(m):
    f, k = m
    with lock:
        d = copies.pop() if copies else None
    if d is None:
        d = tempfile.mkdtemp(prefix="mm-")
        subprocess.check_call("cp -a /repo/. %s/" % d, shell=True)
    p = d + "/mahjong/" + f
    try:
        tree = ast.parse(open("/repo/mahjong/" + f, encoding="utf-8").read())
        before = ast.unparse(tree)
        what, fn = sites(tree)[k]
        fn()
        try:
            text = ast.unparse(ast.fix_missing_locations(tree))
            compile(text, f, "exec")
        except Exception as e:
            return m, what, "invalid", ""
        if text == before:
            return m, what, "same", ""
        with open(p, "w", encoding="utf-8") as h:
            h.write(text)
        import difflib
        diff = "\n".join(x for x in difflib.unified_diff(before.splitlines(), text.splitlines(), lineterm="", n=1)
                         if not x.startswith(("---", "+++")))
        for full in (False, True):
            for prop in FILES[f].split():
                try:
                    r = subprocess.run([PY, "-B", verif + "/v/check.py", prop, "--workers", "1"] + ([] if full else ["--runs", str(SMALL[prop])]),
                                       cwd=verif, env=dict(env, DST_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
                except subprocess.TimeoutExpired:
                    return m, what, "timeout " + prop, diff
                if r.returncode:
                    o = r.stdout.decode(errors="replace")
                    v = [x for x in o.splitlines() if x.startswith("violation")]
                    return m, what, ("killed" if r.returncode == 1 else "ERROR%d" % r.returncode) + (" late" if full else "") + " %s %s" % (
                        prop, (v or [o[-300:]])[0][:90]), diff
            if not full:
                subprocess.call(PY + " -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s/j.xml "
                                "--ignore=tests/test_checker.py --ignore=tests/paifu/test_tenhouRecord.py tests >/dev/null 2>&1" % d,
                                shell=True, cwd=d, env=env)
                try:
                    t = ET.parse(d + "/j.xml").getroot()
                    t = t if t.tag == "testsuite" else t.find("testsuite")
                    bad = int(t.get("failures")) + int(t.get("errors"))
                except Exception:
                    bad = -1
                if bad:
                    return m, what, "tests only (%d)" % bad, diff
        return m, what, "SURVIVED", diff
    finally:
        shutil.copyfile("/repo/mahjong/" + f, p)
        with lock:
            copies.append(d)


with ThreadPoolExecutor(a.j) as ex, open(a.out + "/all.txt", "a") as log, open(a.out + "/survivors.txt", "a") as surv:
    for m, what, res, diff in ex.map(one, picked):
        key = res.split()[0]
        stat[key] = stat.get(key, 0) + 1
        log.write("%s #%d %s: %s\n" % (m[0], m[1], what, res))
        log.flush()
        if key in ("SURVIVED", "timeout", "tests") or key.startswith("ERROR") or "late" in res:
            surv.write("%s #%d %s: %s\n%s\n\n" % (m[0], m[1], what, res, diff))
            surv.flush()
print(stat)
for d in copies:
    shutil.rmtree(d)
shutil.rmtree(verif)
