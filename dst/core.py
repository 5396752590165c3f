"""Seeded runner: runs, workers, minimisation, replay files, evidence."""
import copy
import hashlib
import json
import mmap
import os
import random
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/pypyvenv/bin/python"


class Violation(Exception):
    """The code under test broke the property. kind is the class minimisation preserves."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = str(detail)[:4000]


class Invalid(Exception):
    """The scenario is not a legal one (only during minimisation)."""


class Hang(BaseException):
    """Raised by the CPU watchdog."""


class SimCrash(BaseException):
    """Simulated death of the process."""


class SimCancel(BaseException):
    """Simulated cancellation (KeyboardInterrupt-like) of one operation."""


def sut(fn, *args, what=None, **kw):
    """Call the code under test; any ordinary exception is a violation."""
    try:
        return fn(*args, **kw)
    except (Violation, Invalid):
        raise
    except Exception as e:
        raise Violation("raised:%s:%s" % (what or getattr(fn, "__name__", "call"), type(e).__name__),
                        "%s\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-6:])))


class judge:
    """Context in which results of the code under test are interpreted: an exception raised while
    interpreting means that the result does not have the promised form."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, typ, val, tb):
        if typ is None or not issubclass(typ, Exception) or issubclass(typ, (Violation, Invalid)):
            return False
        raise Violation("malformed:%s" % self.what, "%s: %s\n%s" % (
            typ.__name__, val, "".join(traceback.format_tb(tb)[-4:])))


def expect(cond, kind, detail=""):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)


def expect_eq(got, want, kind, ctx=""):
    if got != want:
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            ctx = "%s\n%d and %d items, first difference at %d: %r and %r" % (
                ctx() if callable(ctx) else ctx, len(got), len(want), i, got[i:i + 1], want[i:i + 1])
        raise Violation(kind, "%s\n got: %r\nwant: %r" % (ctx() if callable(ctx) else ctx, got, want))


class Stats:
    """Per-run statistics. Never draws randomness, never reads a clock."""

    def __init__(self):
        self.faults = Counter()
        self.probes = Counter()
        self.measures = Counter()
        self.sim_time = 0.0
        self.states = set()
        self._h = hashlib.sha256()
        self.trace_len = 0
        self.keep = None
        self.nontrivial = True

    def log(self, *items):
        s = repr(items)
        self.trace_len += 1
        self._h.update(s.encode("utf-8", "surrogatepass"))
        if self.keep is not None:
            self.keep.append(s)

    def state(self, *items):
        self.states.add(hashlib.md5(repr(items).encode("utf-8", "surrogatepass")).hexdigest()[:12])

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        return self._h.hexdigest()[:24]


def rng_for(seed, prop, k):
    return random.Random("%s/%s/%s" % (seed, prop, k))


def _alarm(signum, frame):
    raise Hang()


def _wall(signum, frame):
    sys.stderr.write("HARNESS-ERROR: wall watchdog fired in a worker\n")
    sys.stderr.flush()
    os._exit(7)


def run_one(mod, scenario, keep=False):
    """-> (status, stats, violation dict or None); status in ok, violation, invalid, harness"""
    st = Stats()
    if keep:
        st.keep = []
    limit = getattr(mod, "CPU_LIMIT", 60)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _wall)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, limit * 8 + 60)
    try:
        try:
            mod.run(copy.deepcopy(scenario), st)
            return "ok", st, None
        except Violation as v:
            return "violation", st, {"kind": v.kind, "detail": v.detail}
        except Invalid as e:
            return "invalid", st, {"kind": "invalid", "detail": str(e)}
        except Hang:
            return "violation", st, {"kind": "no-progress", "detail": "run used more than %ss of CPU" % limit}
        except MemoryError:
            return "violation", st, {"kind": "memory", "detail": "run exhausted memory"}
        except RecursionError:
            return "violation", st, {"kind": "recursion", "detail": traceback.format_exc()[-1500:]}
    except Exception as e:
        text = traceback.format_exc()
        own = os.path.join(os.path.realpath(REPO), "mahjong") + os.sep
        if any(os.path.realpath(f.filename).startswith(own) for f in traceback.extract_tb(e.__traceback__)):
            # an error out of the code under test, wherever the harness came upon it
            return "violation", st, {"kind": "raised:unexpected:%s" % type(e).__name__, "detail": text[-2500:]}
        return "harness", st, {"kind": "harness", "detail": text}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        cleanup = getattr(mod, "cleanup", None)
        if cleanup:
            cleanup()


# ---------------------------------------------------------------------------------- minimisation
def get_path(obj, path):
    for k in path:
        obj = obj[k]
    return obj


def with_path(obj, path, value):
    obj = copy.deepcopy(obj)
    ref = obj
    for k in path[:-1]:
        ref = ref[k]
    ref[path[-1]] = value
    return obj


def minimise(mod, scenario, kind, budget_s):
    """ddmin over the lists the property declares, then its own simplifications."""
    end = time.monotonic() + budget_s
    tried = 0
    seen = set()

    def fails(sc):
        nonlocal tried
        key = hashlib.md5(json.dumps(sc, sort_keys=True).encode()).hexdigest()
        if key in seen:
            return False
        seen.add(key)
        tried += 1
        status, _, v = run_one(mod, sc)
        return status == "violation" and v["kind"] == kind

    cur = scenario
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for path in mod.lists(cur) if hasattr(mod, "lists") else []:
            try:
                lst = get_path(cur, path)
            except (KeyError, IndexError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst and time.monotonic() < end:
                i, progress = 0, False
                while i < len(lst) and time.monotonic() < end:
                    cand = with_path(cur, path, lst[:i] + lst[i + n:])
                    if fails(cand):
                        cur, lst, progress, changed = cand, lst[:i] + lst[i + n:], True, True
                    else:
                        i += n
                if not progress or n > 1:
                    n = n // 2 if n > 1 else 0
        for cand in (mod.simplify(cur) if hasattr(mod, "simplify") else []):
            if time.monotonic() >= end:
                break
            if cand != cur and fails(cand):
                cur, changed = cand, True
    return cur, tried


# ---------------------------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line.split(" ", 2)[2]
                    sig, _, text = rest.partition(" ")
                    out.append((sig[len("signature="):], text))
    except OSError:
        pass
    return out


# ---------------------------------------------------------------------------------- parallel batch
def worker_main(mod, tier, seed, total, w, nworkers, stop_at, shared, out_path, chunk):
    res = {"runs": 0, "ok": 0, "faults": {}, "probes": {}, "measures": {}, "sim_time": 0.0, "digests": [],
           "states": [], "bad": [], "samples": [], "trace_len": 0, "known": 0, "nontrivial": 0}
    faults, probes, measures = Counter(), Counter(), Counter()
    states, digests = set(), []
    k = w
    while k < total:
        (mn,) = struct.unpack("q", shared[0:8])
        if k > mn or time.monotonic() > stop_at:
            break
        rng = rng_for(seed, mod.ID, k)
        try:
            sc = mod.gen(rng, tier, k)
        except Exception:
            res["bad"].append({"k": k, "status": "harness", "v": {"kind": "gen", "detail": traceback.format_exc()},
                               "sc": None})
            break
        status, st, v = run_one(mod, sc)
        res["runs"] += 1
        faults.update(st.faults)
        probes.update(st.probes)
        measures.update(st.measures)
        res["sim_time"] += st.sim_time
        res["trace_len"] += st.trace_len
        if st.nontrivial:
            digests.append((k, st.digest()))
        states |= st.states
        if status == "ok":
            res["ok"] += 1
            if len(res["samples"]) < 1:
                res["samples"].append({"run": k, "scenario": mod.describe(sc) if hasattr(mod, "describe") else sc})
        else:
            res["bad"].append({"k": k, "status": status, "v": v, "sc": sc})
            # the smallest failing run wins: other workers stop after it
            (mn,) = struct.unpack("q", shared[0:8])
            if k < mn:
                shared[0:8] = struct.pack("q", k)
            break
        k += nworkers
    res["faults"], res["probes"], res["measures"] = dict(faults), dict(probes), dict(measures)
    res["digests"], res["states"] = digests, sorted(states)
    with open(out_path, "w") as f:
        json.dump(res, f)


def check(mod, tier, seed, runs=None, workers=None, write_evidence=True):
    t0 = time.monotonic()
    total = runs if runs is not None else mod.RUNS[tier]
    nworkers = workers or min(8, max(1, os.cpu_count() or 1))
    soft = float(os.environ.get("DST_SOFT_S", "560" if tier == "quick" else "5400"))
    stop_at = t0 + soft
    print("dst check property=%s tier=%s VERIF_SEED=%s runs=%d workers=%d" % (mod.ID, tier, seed, total, nworkers))
    sys.stdout.flush()
    if hasattr(mod, "warmup"):
        mod.warmup()
    shared = mmap.mmap(-1, 8)
    shared[0:8] = struct.pack("q", 2 ** 62)
    import tempfile
    tmp = tempfile.mkdtemp(prefix="dst-")
    pids = {}
    for w in range(nworkers):
        out = os.path.join(tmp, "w%d.json" % w)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                worker_main(mod, tier, seed, total, w, nworkers, stop_at, shared, out, None)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = (w, out)
    errors = []
    results = []
    for _ in range(len(pids)):
        pid, status = os.wait()
        w, out = pids[pid]
        if status != 0:
            errors.append("worker %d ended with status %d" % (w, status))
    for pid, (w, out) in sorted(pids.items(), key=lambda x: x[1][0]):
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
            os.unlink(out)
    os.rmdir(tmp)

    faults, probes, measures = Counter(), Counter(), Counter()
    states, digests = set(), {}
    for r in results:
        faults.update(r["faults"])
        probes.update(r["probes"])
        measures.update(r["measures"])
        states.update(r["states"])
        digests.update({k: d for k, d in r["digests"]})
    done = sum(r["runs"] for r in results)
    bad = sorted((b for r in results for b in r["bad"]), key=lambda b: b["k"])
    wall = time.monotonic() - t0
    violations = [b for b in bad if b["status"] == "violation"]
    harness = [b for b in bad if b["status"] != "violation"]

    code = 0
    lines = []
    if violations:
        b = violations[0]
        code = 1
        lines += report_violation(mod, tier, seed, b)
    elif harness or errors:
        code = 2
        for b in harness[:1]:
            lines.append("HARNESS-ERROR property=%s run=%d %s\n%s" % (mod.ID, b["k"], b["v"]["kind"], b["v"]["detail"]))
        lines += ["HARNESS-ERROR " + e for e in errors]
    elif done < max(1, total // 4):
        code = 2
        lines.append("HARNESS-ERROR property=%s only %d of %d runs finished in time" % (mod.ID, done, total))
    if code == 0:
        for name in getattr(mod, "MUST_FIRE", []):
            if done >= total and runs is None and not (faults.get(name) or probes.get(name)):
                # a probe stuck at zero means the workload lost its point; say so, but it is not a violation
                lines.append("note: probe %s never fired" % name)
    for sig, text in known_findings(mod.ID):
        lines.append("KNOWN-FINDING: property=%s %s" % (mod.ID, text))
    if write_evidence:
        samples = [s for r in results for s in r["samples"]][:3]
        cov = {
            "evaluations": done,
            "distinct_nontrivial": len(set(digests.values())),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no passing run"}],
            "seed_rule": "run k is driven by random.Random('%s/%s/<k>'), k = 0..%d" % (seed, mod.ID, total - 1),
            "runs_planned": total,
            "simulated_runs_per_hour": round(done / wall * 3600) if wall else done,
            "simulated_seconds_covered": round(sum(r["sim_time"] for r in results), 3),
            "trace_events": sum(r["trace_len"] for r in results),
            "faults_fired": dict(sorted(faults.items())),
            "probes_hit": dict(sorted(probes.items())),
            "measures": dict(sorted(measures.items())),
            "distinct_states": len(states),
            "distinct_states_measure": getattr(mod, "STATE_MEASURE", "none"),
            "components_real": mod.REAL,
            "components_stubbed": mod.STUB,
            "workers": nworkers,
        }
        ev = {"property": mod.ID, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0,
              "level": "exploration", "coverage": cov,
              "assumptions": getattr(mod, "ASSUMPTIONS", []),
              "wall_s": round(wall, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", mod.ID + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(path + ".tmp", path)
    for ln in lines:
        print(ln)
    print("property=%s runs=%d distinct=%d wall=%.1fs exit=%d" % (
        mod.ID, done, len(set(digests.values())), time.monotonic() - t0, code))
    sys.stdout.flush()
    return code


def digest_table(mod, tier, seed, n, workers):
    """run k -> digest, for determinism tests"""
    out = {}
    for k in range(n):
        sc = mod.gen(rng_for(seed, mod.ID, k), tier, k)
        status, st, v = run_one(mod, sc)
        out[k] = (status, st.digest(), v and v["kind"])
    return out


def report_violation(mod, tier, seed, b):
    lines = []
    kind = b["v"]["kind"]
    sc = b["sc"]
    # minimise in a child, so that a damaged process image cannot spoil the report
    budget = float(os.environ.get("DST_SHRINK_S", "60"))
    if kind == "no-progress":
        budget = 0
    small, tried = sc, 0
    if budget > 0:
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                small, tried = minimise(mod, sc, kind, budget)
                _, _, v = run_one(mod, small)
                with os.fdopen(wfd, "w") as f:
                    json.dump({"sc": small, "tried": tried, "v": v}, f)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(wfd)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            got = json.loads(data)
            small, tried = got["sc"], got["tried"]
            if got["v"] and got["v"]["kind"] == kind:
                b = dict(b, v=got["v"])
        except ValueError:
            pass
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s-run%d.json" % (mod.ID, seed, b["k"]))

    def write(scenario):
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "seed": str(seed), "run": b["k"], "tier": tier, "kind": kind,
                       "detail": b["v"]["detail"], "minimised": scenario is not sc,
                       "candidates_tried": tried, "scenario": scenario}, f, indent=1, ensure_ascii=False)

    write(small)
    rc = subprocess.run([PY, "-B", os.path.join(VERIF, "check.py"), "--replay", path],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
    if rc != 1 and small is not sc:
        write(sc)
        rc = subprocess.run([PY, "-B", os.path.join(VERIF, "check.py"), "--replay", path],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
    lines.append("violation kind: %s (run %d, seed %s, %d candidates tried while minimising, fresh-process replay %s)"
                 % (kind, b["k"], seed, tried, "reproduces" if rc == 1 else "exit %d" % rc))
    lines.append(b["v"]["detail"][:3000])
    lines.append("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return lines


def replay(path, mods):
    with open(path) as f:
        data = json.load(f)
    mod = mods(data["property"])
    if hasattr(mod, "warmup"):
        mod.warmup()
    status, st, v = run_one(mod, data["scenario"], keep=True)
    for line in (st.keep or [])[-40:]:
        print("  ", line[:200])
    if status == "violation":
        same = v["kind"] == data["kind"]
        print("kind: %s%s" % (v["kind"], "" if same else " (recorded: %s)" % data["kind"]))
        print(v["detail"])
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1 if same else 1
    print("status:", status, v or "")
    return 0 if status == "ok" else 2
