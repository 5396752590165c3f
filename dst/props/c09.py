"""C09: the tools announce only completely written files."""
import io
import os
import re

from .. import server, table, repo, net, disk, console, sched, report
from ..core import sut, judge, expect, expect_eq, Violation, SimCrash, SimCancel

ID = "C09"
RUNS = {"quick": 500, "thorough": 30000}
CPU_LIMIT = 240
RULE = ("a case is one working directory in which the report tool or the converter runs several times over a seeded network, "
        "disk and console, dying or failing at seeded points, and at last without faults; non-trivial: a fault fired or "
        "old content was overwritten")
REAL = ["mahjong.tenhou_record_check.main", "mahjong.universe_paifu_convert.main", "everything below them", "requests", "pandas",
        "jinja2"]
STUB = ["network and clock (dst/net.py)", "disk (dst/disk.py: real scratch files behind faulty file objects)",
        "console and os.system (dst/console.py)", "Tenhou game server (dst/server.py)"]
ASSUMPTIONS = ["what the operating system has accepted is on the disk (no power loss)",
               "one run of a tool at a time in a directory"]
STATE_MEASURE = "distinct (tool, faults fired, outcome, files announced, answer class) tuples"
MUST_FIRE = ["disk-eio-write", "disk-eio-close", "disk-enospc", "disk-crash-write", "disk-crash-close", "disk-crash-open",
             "disk-eacces", "disk-short", "console-broken", "console-eof", "killed", "cancelled", "net-fault", "overwrite",
             "one-player", "all-players", "announced-then-died", "same-names", "converter", "report", "packaged"]
NAMES = ("mahjong.tenhou_record_check", "mahjong.universe_paifu_convert", "mahjong.record.universe.tenhou",
         "mahjong.record.universe.command")
ODD = ["0", "", "all", "9", "-1", "1.0", "²", "½", "five", "1 2", "99999999999999999999999", "+1", "0x1", "\u2460", "q"]


def gen(rng, tier, k):
    tool = rng.choice(["report", "report", "converter"])
    turns = rng.choice([1, 2, 5]) if tool == "report" else rng.choice([1, 4, 10])
    log = server.generate(rng, rounds=1 if rng.random() < 0.8 else 2, max_turns=turns, plain_names=rng.random() < 0.1)
    n = log["n"]
    if rng.random() < 0.15:
        log["un"]["names"] = ["NoName"] * n + [""] * (4 - n)
    elif rng.random() < 0.3:
        log["un"]["names"][rng.randrange(n)] = rng.choice(["a/b", "../up", "..", "/etc", "a\\b", "C:x", "*?", "\"<>|", "a\tb",
                                                           "a\nb", "\x01", "/", "~", "-rf", "a'b", "x.html", "%s", "."])
    sessions = []
    for _ in range(rng.choice([1, 1, 2])):
        s = {"answer": rng.choice([str(rng.randint(1, n)), str(rng.randint(1, n)), rng.choice(ODD), rng.choice(ODD), str(n + 1)]),
             "disk": [], "net": [], "console": None, "cancel": None, "eof": rng.random() < 0.03}
        r = rng.random()
        if r < 0.55:
            s["disk"] = disk.plan(rng, rng.choice([4, 8, 16]), ["eio", "enospc", "short", "eacces", "crash", "crash", "crash"],
                                  rng.choice([1, 1, 2]))
        elif r < 0.65:
            s["net"] = [net.fault(rng, 10)]
        elif r < 0.75:
            s["console"] = rng.choice([0, 1, 2, 5, 10, 12, 13, 14, 15, 16, 20, rng.randint(0, 30)])
        elif r < 0.9:
            s["cancel"] = [rng.choice([30, 1000, 20000, 20000, 200000]), rng.random(), rng.choice(["kill", "interrupt"])]
        if rng.random() < 0.2:
            s["net"].insert(0, net.benign(rng, 10))
        sessions.append(s)
    return {"tool": tool, "frozen": rng.random() < 0.15, "log": log, "sessions": sessions, "final": rng.choice(["1", "", str(n)]),
            "old": rng.choice([None, None, "long", "short", "bit"]), "id": "20%02d010100gm-0089-0000-%08x" % (
                rng.randint(10, 29), rng.getrandbits(32)), "form": rng.choice(["", "&tw=1", "  ", "&dialog=no", "#top", "&tw=2#x=1"]),
            "pre": rng.choice(["", "", "tw=1&", "dialog=no&"])}


def lists(sc):
    return ([["sessions"]] + [["sessions", i, "disk"] for i in range(len(sc["sessions"]))] +
            [["sessions", i, "net"] for i in range(len(sc["sessions"]))] + table.log_lists(sc["log"]))


def simplify(sc):
    for i, s in enumerate(sc["sessions"]):
        for key, val in (("console", None), ("cancel", None), ("eof", False), ("answer", "1")):
            yield dict(sc, sessions=sc["sessions"][:i] + [dict(s, **{key: val})] + sc["sessions"][i + 1:])
    yield dict(sc, old=None)
    yield dict(sc, frozen=False)
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)


def describe(sc):
    return {"tool": sc["tool"], "names": sc["log"]["un"]["names"], "sessions": sc["sessions"], "old": sc["old"]}


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def cleanup():
    repo.quiet()
    os.chdir("/")


def announced(line):
    m = re.search(r"saved to '?(.*\.(?:html|csv))", line)
    return m.group(1) if m else None


def selected(answer, n):
    if re.fullmatch("[0-9]+", answer) and 1 <= int(answer) <= n:
        return [int(answer) - 1]
    return list(range(n))


def run(sc, st):
    log, n = sc["log"], sc["log"]["n"]
    steps = table.play(log)
    xml = table.xml_of(log, steps)
    tool = repo.mod("mahjong.tenhou_record_check" if sc["tool"] == "report" else "mahjong.universe_paifu_convert")
    is_report = sc["tool"] == "report"
    st.probe(sc["tool"])
    if sc["frozen"]:
        st.probe("packaged")
    link = "http://tenhou.net/0/?%slog=%s%s" % (sc["pre"], sc["id"], sc["form"])
    if len(set(log["un"]["names"][:n])) < n:
        st.probe("same-names")
    d = disk.Disk([], st)
    work = d.path("w")

    def session(s, dirname, expected=None):
        """-> (outcome, [(path, content at announcement)], console)"""
        seen = []

        def watch(line):
            p = announced(line)
            if p is not None:
                rel = os.path.relpath(os.path.join(dirname, p), d.root)
                seen.append((rel, d.get(rel)))

        d.new_process()
        d.n = 0
        d.fired = []
        for k, kind, arg in s["disk"]:
            d.plan.setdefault(k, (kind, arg))
        con = console.Console([link] + ([] if s["eof"] or not is_report else [s["answer"]]), s["console"], watch)
        nt = net.Net({sc["id"]: xml}, s["net"], st)
        nt.limit = 10
        os.chdir(dirname)
        err = None
        cancelled = False
        try:
            with repo.Frozen(sc["frozen"] and dirname == work), nt, d, con:
                try:
                    if s["cancel"]:
                        span, frac, how = s["cancel"]
                        at = max(1, int(span * frac))

                        def die():
                            d.dead = how == "kill"

                        _, err, cancelled, lines = sched.run_with_cancel(tool.main, at, die)
                    else:
                        tool.main()
                except (Violation, MemoryError):
                    raise
                except SimCrash as e:
                    err = e
                except Exception as e:
                    err = e
        finally:
            os.chdir("/")
            repo.quiet()
        if cancelled:
            st.fault("killed" if s["cancel"][2] == "kill" else "cancelled")
        if con.broke:
            st.fault("console-broken")
        if s["eof"] and is_report:
            st.fault("console-eof")
        if nt.fired:
            st.fault("net-fault")
        fired = sorted(set(f for f in d.fired if f != "short")) + sorted(set(nt.fired)) + (["console"] if con.broke else []) + (
            ["cancel"] if cancelled else []) + (["eof"] if s["eof"] and is_report else [])
        if nt.now > 9:
            fired.append("slow")
        expect(not nt.bad_waits, "wait-beyond-timeout", lambda: repr(nt.bad_waits[:3]))
        st.sim_time += nt.now
        return err, seen, con, fired

    clean = {"answer": "", "disk": [], "net": [], "console": None, "cancel": None, "eof": False}
    try:
        os.mkdir(work)
        os.mkdir(d.path("ref"))
        # the reference: a first run in an empty directory, all players, nothing fails
        err, seen, con, fired = session(clean, d.path("ref"))
        if err is not None:
            raise Violation("raised:main:%s" % type(err).__name__, "%s\n%s" % (err, con.text[-1500:]))
        with judge("files"):
            want = {}
            expect_eq(len(seen), n if is_report else 1, "announcements", con.text[-1500:])
            for i, (rel, data) in enumerate(seen):
                name = os.path.basename(rel)
                expect(os.path.dirname(rel) == "ref", "outside-directory", rel)
                expect(data is not None, "announced-missing", rel)
                expect(name not in want, "same-file", "%s for two players" % name)
                want[name] = (i, data)
                expect_eq(d.get(rel), data, "changed-after-announcement", rel)
            expect_eq(sorted(d.names()), sorted("ref/" + x for x in want), "stray-files")
            for name, (i, data) in want.items():
                text = data.decode("utf-8")
                if is_report:
                    report.judge_report(text, steps, i, log, st, "file %s" % name, sc["id"])
                    expect(text.rstrip().endswith("</html>") and text.count("</html>") == 1, "incomplete", name)
                else:
                    commands(text, xml)
        order = sorted(want, key=lambda x: want[x][0])
        if sc["old"]:
            st.probe("overwrite")
            for name in want:
                size = {"long": 3 * len(want[name][1]), "short": 10, "bit": len(want[name][1]) * 9 // 8}[sc["old"]]
                d.put("w/" + name, b"old content " * (size // 12 + 1))
        interesting = bool(sc["old"])
        final = dict(clean, answer=sc["final"])
        for si, s in enumerate(sc["sessions"] + [final]):
            who = selected(s["answer"], n) if is_report else [0]
            allowed = [order[p] for p in who]
            st.probe("one-player" if len(who) == 1 else "all-players")
            before = {name: d.get("w/" + name) for name in want if name not in allowed}
            err, seen, con, fired = session(s, work)
            ctx = "session %d %s: fired %s, ended with %s %s\n%s" % (si, s, fired, type(err).__name__, err, con.text[-800:])
            interesting = interesting or bool(fired)
            st.state(sc["tool"], fired, type(err).__name__, len(seen), len(who))
            with judge("files"):
                names = []
                for rel, data in seen:
                    name = os.path.basename(rel)
                    expect(rel == "w/" + name, "outside-directory", rel)
                    expect(name in allowed, "not-selected", lambda: "%s: %s not in %s" % (ctx, name, allowed))
                    expect(name not in names, "announced-twice", ctx)
                    names.append(name)
                    expect(data == want[name][1], "announced-incomplete", lambda: "%s: %s: %s bytes, complete %d" % (
                        ctx, name, data and len(data), len(want[name][1])))
                for name in names:
                    expect(d.get("w/" + name) == want[name][1], "announced-changed", lambda: "%s: %s" % (ctx, name))
                if err is not None:
                    expect(fired, "raised:main:%s" % type(err).__name__, ctx)
                    if names:
                        st.probe("announced-then-died")
                if not fired:
                    expect_eq(sorted(names), sorted(allowed), "announcements", ctx)
                # nobody touches what is not his
                for name, data in before.items():
                    expect(data is None or d.get("w/" + name) == data, "other-file-changed", lambda: "%s: %s" % (ctx, name))
                if si == len(sc["sessions"]):
                    left = [f for f in d.names() if os.path.basename(f) not in want]
                    expect(not left or interesting, "stray-files", lambda: repr(left))
                    expect(not any(not f.startswith(("w/", "ref/")) for f in d.names()), "outside-directory", repr(d.names()))
            st.log(si, fired, type(err).__name__, [x for x, _ in seen], len(con.text))
        st.nontrivial = interesting
    finally:
        os.chdir("/")
        d.remove()


def commands(text, xml):
    """the converter's file describes exactly the commands of the log"""
    C = repo.mod("mahjong.record.universe.command")
    T = repo.mod("mahjong.record.universe.tenhou")
    from .c06 import compare_commands
    cmds = sut(T.to_commands, repo.load(xml))
    df = sut(C.GameCommand.read_clean_csv, io.StringIO(text), what="read_clean_csv")
    compare_commands(df, C, cmds, "converter")
