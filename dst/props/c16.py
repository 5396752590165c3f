"""C16: loading a log from disk is complete or fails."""
import pathlib
import re

from .. import disk, recview, repo, sched, server, table
from ..core import sut, judge, expect, expect_eq, Violation, SimCancel, SimCrash

ID = "C16"
RUNS = {"quick": 1200, "thorough": 60000}
CPU_LIMIT = 90
RULE = ("a case is up to three log files on a simulated disk (whole, torn at a seeded byte, empty, missing, still being written; "
        "several encodings) and a seeded history of loads - record or attribute table, by path or file object - with short reads, "
        "read and open errors and early end of file, some on simulated threads, some cancelled; every load that returns is "
        "compared with the log, every load without a fault has to return; non-trivial: at least one load returned")
REAL = ["mahjong.record.reader (from_file)", "mahjong.record.util_functions (light_dataframe_from_file)", "pandas", "xml.etree"]
STUB = ["disk (dst/disk.py: real scratch files behind faulty reads)", "the program that stores the logs",
        "thread scheduling (dst/sched.py)"]
ASSUMPTIONS = ["a reader can not tell a log cut after its last tag from a whole one",
               "in the abstract table draws and discards are the events whose tag is letters followed by digits"]
STATE_MEASURE = "distinct (operation, file condition, encoding, faults fired, outcome, mode) tuples"
MUST_FIRE = ["torn", "missing", "growing", "empty", "disk-short", "disk-eio-read", "disk-eio-open", "disk-truncate", "disk-eacces",
             "returned", "failed", "threads", "coop", "cancelled", "light", "light-all", "record", "alias", "file-object",
             "pathlib", "stream-error", "replaced", "utf-16", "latin-1", "bom"]
ENCODINGS = ["utf-8", "utf-8", "decl", "bom", "utf-16", "latin-1"]
STEMS = ["2019010100gm-00a9-0000-12345678", "log", "a.b", "2019.1.2", "日本", "x y", "no", "NA", "007", "1e5", "UPPER", ".hidden",
         "n&0=a&tw=1", "[x]", "100%"]
EXTS = [".xml", ".mjlog", "", ".XML", ".log.xml"]
KINDS = ["short", "short", "eio", "eio", "truncate", "eacces"]


def gen(rng, tier, k):
    files = []
    stems = rng.sample(STEMS, 3)
    for i in range(rng.choice([1, 1, 2, 3])):
        log = server.generate(rng, rounds=(1, 2) if tier == "quick" else (1, 6), max_turns=rng.choice([None, 2, 10]),
                              force={"unknown": rng.choice([0.0, 0.0, 0.1])})
        for r in log["rounds"]:
            if rng.random() < 0.3:
                r["ev"].insert(0, ["X", "CHAT", {"text": rng.choice(["é", "日本語", "a\"b<c>&d", "x" * 5000, "tab"]), "uname": "é"}])
            if rng.random() < 0.15:
                # events of kinds not seen so far, next to the tags of draws and discards
                tag = rng.choice(["X%d" % rng.choice([0, 7, 999, 1000, 20190101, 10 ** 25]), "Ab12", "T", "_5", "T_5", "UN2x",
                                  "x.1", "DORA136", "É1", "T-1", "tt007"])
                r["ev"].insert(rng.randrange(len(r["ev"])), ["X", tag, rng.choice([{}, {"v": "1"}, {"a": "", "b": "2"}])])
        files.append({"log": log, "enc": rng.choice(ENCODINGS), "name": stems[i] + rng.choice(EXTS),
                      "state": rng.choice(["whole", "whole", "whole", "torn", "empty", "missing", "growing"]),
                      "cut": rng.random()})
    if len(files) > 1 and rng.random() < 0.3:
        files[1]["log"] = server.relative(rng, files[0]["log"])
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append({"op": rng.choice(["record", "record", "alias", "light", "light-all", "replace"]), "file": rng.randrange(3),
                    "via": rng.choice(["path", "path", "pathlib", "object", "stream"]),
                    "plan": disk.plan(rng, rng.choice([2, 4, 10]), KINDS), "heal": rng.random() < 0.3,
                    "chunk": rng.choice([1, 3, 50, 1000, 70000]), "fail": rng.choice([None, None, rng.randint(0, 30)]),
                    "cancel": rng.choice([None, None, None, rng.randint(1, 200), rng.randint(1, 3000)])})
    n = rng.choice([1, 5, 50, 500])
    return {"files": files, "ops": ops, "mode": rng.choice(["coop", "coop", "threads"]),
            "steps": [[rng.randrange(6), rng.randint(1, n)] for _ in range(rng.choice([3, 30, 100]))],
            "focus": sched.draw_focus(rng)}


def lists(sc):
    return [["ops"], ["files"], ["steps"]] + [["ops", i, "plan"] for i in range(len(sc["ops"]))] + [
        p for i, f in enumerate(sc["files"]) for p in table.log_lists(f["log"], ("files", i, "log"))]


def simplify(sc):
    if sc.get("focus"):
        yield dict(sc, focus=None)
    yield dict(sc, mode="coop")
    for i, o in enumerate(sc["ops"]):
        for kw in ({"cancel": None}, {"via": "path"}, {"fail": None}):
            if any(o[a] != b for a, b in kw.items()):
                yield dict(sc, ops=[dict(x, **kw) if j == i else x for j, x in enumerate(sc["ops"])])
    for i, f in enumerate(sc["files"]):
        for kw in ({"state": "whole"}, {"enc": "utf-8"}, {"name": "log.xml"}):
            if any(f[a] != b for a, b in kw.items()):
                yield dict(sc, files=[dict(x, **kw) if j == i else x for j, x in enumerate(sc["files"])])
        for s in table.log_simplify(f["log"]):
            yield dict(sc, files=[dict(x, log=s) if j == i else x for j, x in enumerate(sc["files"])])


def describe(sc):
    return {"mode": sc["mode"], "ops": sc["ops"],
            "files": [[f["name"], f["enc"], f["state"], sum(len(r["ev"]) for r in f["log"]["rounds"])] for f in sc["files"]]}


def warmup():
    repo.quiet()
    for m in ("mahjong.record", "mahjong.record.reader", "mahjong.record.util_functions"):
        repo.mod(m)


def encode(f, steps):
    text = table.to_xml([(s.tag, s.attrs) for s in steps], sep=f["log"].get("sep", ""))
    enc = f["enc"]
    if enc == "utf-8":
        return text.encode("utf-8")
    if enc == "decl":
        return b'<?xml version="1.0" encoding="UTF-8"?>' + text.encode("utf-8")
    if enc == "bom":
        return text.encode("utf-8-sig")
    if enc == "utf-16":
        return ('<?xml version="1.0" encoding="UTF-16"?>' + text).encode("utf-16")
    return ('<?xml version="1.0" encoding="ISO-8859-1"?>' + text).encode("iso-8859-1", "xmlcharrefreplace")


class Stream:
    """a file object whose reads are short and may fail"""

    def __init__(self, data, chunk, fail, st):
        self.data, self.chunk, self.fail, self.st, self.n = data, chunk, fail, st, 0
        self.fired = False

    def read(self, size=-1):
        self.n += 1
        if self.fail is not None and self.n > self.fail:
            self.fired = True
            self.st.fault("stream-error")
            raise OSError(5, "stream failed (simulated)")
        k = self.chunk if size is None or size < 0 else min(size, self.chunk)
        if size is None or size < 0:
            k = len(self.data)
        out, self.data = self.data[:k], self.data[k:]
        return out


LETTERS_DIGITS = re.compile("[A-Za-z]+[0-9]+")


def light_rows(steps, abstract):
    """what the table holds for each event: (index, tag, {attribute: value}, order of the event's own attributes)"""
    out = []
    for s in steps:
        extra = {}
        tag = s.tag
        if LETTERS_DIGITS.fullmatch(tag):
            if abstract:
                continue
            tag = s.tag.rstrip("0123456789")
            extra["<tag_extra>"] = s.tag[len(tag):]
        extra["<tag>"] = tag
        out.append((s.i, tag, dict(s.attrs, **extra), list(s.attrs)))
    return out


def judge_light(df, steps, abstract, log_id, ctx):
    with judge("light"):
        rows = list(zip(df["index"].tolist(), df["tag"].tolist(), df["attr"].tolist(), df["value"].tolist()))
        ids = set(df["log_id"].tolist())
        expect_eq(ids, {log_id}, "wrong-log-id", ctx)
        got, at = [], None
        for i, tag, attr, value in rows:
            if i != at:
                got.append((i, tag, {}, []))
                at = i
            expect(got[-1][1] == tag, "wrong-light-tag", lambda: "%s: event %d is %r and %r" % (ctx, i, got[-1][1], tag))
            expect(attr not in got[-1][2], "light-repeated", lambda: "%s: event %d attribute %r twice" % (ctx, i, attr))
            got[-1][2][attr] = value
            if not attr.startswith("<"):
                got[-1][3].append(attr)
    expect_eq(got, light_rows(steps, abstract), "wrong-light-table", ctx)


def run(sc, st):
    if not sc["files"] or not sc["ops"]:
        return
    plays = [table.play(f["log"]) for f in sc["files"]]
    logs = [f["log"] for f in sc["files"]]
    datas = [encode(f, steps) for f, steps in zip(sc["files"], plays)]
    st.probe(sc["mode"])
    R = repo.mod("mahjong.record.reader")
    U = repo.mod("mahjong.record.util_functions")
    M = repo.mod("mahjong.record")
    returned = [0]
    d = disk.Disk([], st)
    try:
        on_disk = []
        for f, data, steps in zip(sc["files"], datas, plays):
            st.log(f["name"], f["state"], data)
            st.sim_time += 3.0 * len(steps)
            st.probe(f["enc"])
            keep = len(data)
            if f["state"] in ("torn", "growing"):
                keep = int(len(data) * f["cut"])
            elif f["state"] == "empty":
                keep = 0
            if f["state"] != "whole":
                st.fault(f["state"])
            if f["state"] != "missing":
                d.put(f["name"], data[:keep])
            on_disk.append(None if f["state"] == "missing" else keep)

        def load(o, k):
            """-> what happened: the result or the error, and whether it had to work"""
            fi = o["file"] % len(sc["files"])
            f = sc["files"][fi]
            if f["state"] == "growing":
                # the writer goes on meanwhile
                on_disk[fi] = min(len(datas[fi]), on_disk[fi] + max(1, len(datas[fi]) // 3))
                d.put(f["name"], datas[fi][:on_disk[fi]])
            path = d.path(f["name"])
            whole = on_disk[fi] == len(datas[fi])
            target, closing, stream = path, None, None
            light = o["op"].startswith("light")
            via = o["via"] if not light or o["via"] == "pathlib" else "path"
            if via == "pathlib":
                target = pathlib.Path(path)
                st.probe("pathlib")
            elif via == "stream":
                if on_disk[fi] is None:
                    return None
                target = stream = Stream(datas[fi][:on_disk[fi]], o["chunk"], o["fail"], st)
            elif via == "object":
                st.probe("file-object")
                if on_disk[fi] is None:
                    return None
            st.probe(o["op"])
            try:
                if via == "object":
                    target = closing = open(path, "rb")
                if light:
                    res = U.light_dataframe_from_file(target, abstract=o["op"] == "light") if k % 2 or o["op"] != "light" else \
                        M.light_dataframe_from_file(target)
                elif o["op"] == "alias":
                    res = U.tenhou_record_from_file(target)
                else:
                    res = R.from_file(target)
                got = ("returned", res)
            except Exception as e:
                got = ("failed", e)
            finally:
                if closing is not None:
                    try:
                        closing.close()
                    except OSError:
                        pass
            return got, fi, whole and not (stream is not None and stream.fired)

        def verdict(o, what, fi, must, faults, ctx):
            f, steps = sc["files"][fi], plays[fi]
            st.probe(what[0])
            st.state(o["op"], f["state"], f["enc"], tuple(sorted(set(faults))), what[0], sc["mode"])
            ctx = "%s (%s of %s, %s, faults %s)" % (ctx, o["op"], f["name"], f["state"], faults)
            if what[0] == "failed":
                hard = [x for x in faults if x != "short"]
                if must and not hard:
                    e = what[1]
                    raise Violation("load-failed:%s" % type(e).__name__, "%s: %s" % (ctx, e))
                return
            returned[0] += 1
            if o["op"].startswith("light"):
                stem = f["name"]
                i = stem.rfind(".")
                judge_light(what[1], steps, o["op"] == "light", stem[:i] if i > 0 else stem, ctx)
            else:
                recview.judge_record(what[1], steps, logs[fi], ctx)

        def replace(fi):
            """another log is stored under the name of this file"""
            other = (fi + 1) % len(sc["files"]) if len(sc["files"]) > 1 else None
            if other is None or sc["files"][fi]["state"] != "whole":
                return
            st.fault("replaced")
            plays[fi], datas[fi] = plays[other], encode(dict(sc["files"][other], enc=sc["files"][fi]["enc"]), plays[other])
            logs[fi] = logs[other]
            on_disk[fi] = len(datas[fi])
            d.put(sc["files"][fi]["name"], datas[fi])

        def single(k, o, ctx):
            if o["op"] == "replace":
                return replace(o["file"] % len(sc["files"]))
            before = len(d.fired)
            d.n, d.short = 0, None
            d.plan = {}
            for i, kind, arg in o["plan"]:
                d.plan.setdefault(i, (kind, arg))
            with d:
                if o["cancel"]:
                    res, err, cancelled, lines = sched.run_with_cancel(lambda: load(o, k), o["cancel"])
                    st.log(k, cancelled, lines)
                    if cancelled:
                        st.fault("cancelled")
                        if isinstance(err, Violation):
                            raise err
                        if err is not None:
                            return
                    elif err is not None:
                        raise err
                else:
                    res = load(o, k)
            if res is not None:
                what, fi, must = res
                faults = [x.split("-")[0] for x in d.fired[before:]]
                verdict(o, what, fi, must, faults, ctx)

        if sc["mode"] == "coop":
            for k, o in enumerate(sc["ops"]):
                single(k, o, "operation %d" % k)
                if o["heal"]:
                    single(k, dict(o, plan=[], cancel=None, fail=None), "operation %d again" % k)
        else:
            d.plan = {}
            for o in sc["ops"]:
                if o["op"] == "replace":
                    replace(o["file"] % len(sc["files"]))
                for i, kind, arg in o["plan"]:
                    d.plan.setdefault(i, (kind, arg))
            todo = [(k, o) for k, o in enumerate(sc["ops"]) if o["op"] != "replace"]
            with sched.SimLocks(), d:
                jobs = [sched.Task(lambda k=k, o=o: load(o, k), o["cancel"]) for k, o in todo]
                s = sched.Sched(jobs, focus=sc.get("focus"))
                if jobs:
                    s.run(sc["steps"])
                st.log(s.trace)
            faults = [x.split("-")[0] for x in d.fired]
            for (k, o), j in zip(todo, jobs):
                if j.cancelled:
                    st.fault("cancelled")
                    if j.error is not None:
                        if not isinstance(j.error, (SimCancel, Exception)):
                            raise j.error
                        continue
                if j.error is not None:
                    raise j.error
                if j.result is not None:
                    what, fi, must = j.result
                    verdict(o, what, fi, must, faults, "thread %d" % k)
        # everything works again
        d.new_process()
        for fi, f in enumerate(sc["files"]):
            d.put(f["name"], datas[fi])
            on_disk[fi] = len(datas[fi])
        for k, o in enumerate(sc["ops"]):
            single(k, dict(o, plan=[], cancel=None, fail=None), "afterwards %d" % k)
        for fi, f in enumerate(sc["files"]):
            f["state"] = "whole"
            replace(fi)
        for k, o in enumerate(sc["ops"]):
            single(k, dict(o, plan=[], cancel=None, fail=None), "afterwards again %d" % k)
        expect_eq(d.names(), sorted(f["name"] for f in sc["files"]), "stray-files")
    finally:
        d.remove()
    st.nontrivial = returned[0] > 0

