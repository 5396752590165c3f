"""C14: the flat export mirrors every event of the history."""
from .. import repo, recview, sched, server, table
from ..core import sut, judge, expect, Violation
from .c01 import probes

ID = "C14"
RUNS = {"quick": 1200, "thorough": 60000}
CPU_LIMIT = 90
RULE = ("a case is one or two simulated matches, each loaded once, and up to four tasks that export events, rounds or the whole "
        "record, cooperatively or as simulated threads switched and cancelled at seeded lines; consumers may alter the rows they "
        "received; every export is compared with the rows that follow from the table; non-trivial: at least one discard")
REAL = ["mahjong.record.reader (to_paifu)", "mahjong.record.utils.event", "mahjong.record.utils.value.meld",
        "mahjong.record.utils.bit", "mahjong.record.category"]
STUB = ["Tenhou server and clients (dst/server.py)", "thread scheduling (dst/sched.py)"]
ASSUMPTIONS = ["the abstract table model in dst/table.py and its encoding of the mjlog format",
               "an added kan is listed with the tile added; the rows of one event may come in any order"]
STATE_MEASURE = "distinct (event kind, detail, next event kind, players, mode) tuples exported"
MUST_FIRE = ["N-chi", "N-pon", "N-minkan", "N-ankan", "N-kakan", "N-kita", "chankan", "3p", "4p", "disconnect", "multi-agari",
             "abort", "threads", "coop", "cancelled", "spoiled-rows", "unknown-event", "twin-rows", "two-records"]


def gen(rng, tier, k):
    force = {"unknown": rng.choice([0.02, 0.1])} if rng.random() < 0.3 else None
    logs = [server.generate(rng, rounds=(1, 2) if tier == "quick" else (1, 8), force=force) for _ in range(rng.choice([1, 1, 1, 2]))]
    if len(logs) > 1 and rng.random() < 0.4:
        logs[1] = server.relative(rng, logs[0])
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        ops = [[rng.choice(["record", "record", "game", "game", "events", "spoil"]), rng.randrange(2), rng.randrange(8)]
               for _ in range(rng.randint(1, 3))]
        tasks.append({"ops": ops, "cancel": rng.choice([None, None, rng.randint(1, 300), rng.randint(1, 6000)])})
    n = rng.choice([1, 5, 50, 500])
    return {"logs": logs, "tasks": tasks, "mode": rng.choice(["coop", "threads"]),
            "steps": [[rng.randrange(4), rng.randint(1, n)] for _ in range(rng.choice([3, 30, 100]))],
            "focus": sched.draw_focus(rng)}


def lists(sc):
    return [["tasks"], ["steps"], ["logs"]] + [["tasks", i, "ops"] for i in range(len(sc["tasks"]))] + [
        p for i, lg in enumerate(sc["logs"]) for p in table.log_lists(lg, ("logs", i))]


def simplify(sc):
    if sc.get("focus"):
        yield dict(sc, focus=None)
    yield dict(sc, mode="coop", tasks=[dict(t, cancel=None) for t in sc["tasks"]])
    for i, lg in enumerate(sc["logs"]):
        for s in table.log_simplify(lg):
            yield dict(sc, logs=[s if j == i else x for j, x in enumerate(sc["logs"])])


def describe(sc):
    return {"mode": sc["mode"], "tasks": sc["tasks"], "players": [lg["n"] for lg in sc["logs"]],
            "events": [sum(len(r["ev"]) for r in lg["rounds"]) for lg in sc["logs"]]}


def warmup():
    repo.quiet()
    repo.mod("mahjong.record.reader")


def run(sc, st):
    if not sc["logs"]:
        return
    logs = sc["logs"]
    plays = [table.play(lg) for lg in logs]
    for lg, steps in zip(logs, plays):
        probes(st, steps, lg)
        st.sim_time += 3.0 * len(steps)
        if any(s.ev[0] == "X" for s in steps):
            st.probe("unknown-event")
        for a, b in zip(steps, steps[1:]):
            if a.ev[0] == b.ev[0] == "DORA" and a.ev[1] // 4 == b.ev[1] // 4:
                st.probe("twin-rows")
            st.state(a.ev[0], a.ev[1] if a.ev[0] == "N" else "", b.ev[0], lg["n"], sc["mode"])
        st.log(table.xml_of(lg, steps))
    if len(logs) > 1:
        st.probe("two-records")
    st.probe(sc["mode"])
    with sched.SimLocks():
        recs = [repo.load(table.xml_of(lg, steps)) for lg, steps in zip(logs, plays)]

        def do(op, li, gi, ctx):
            li %= len(logs)
            rec, lg, steps = recs[li], logs[li], plays[li]
            gi %= len(lg["rounds"])
            if op in ("record", "spoil"):
                rows = sut(rec.to_paifu, what="export")
                recview.judge_rows(rows, recview.whole_groups(steps, lg), ctx)
                if op == "spoil":
                    # what a consumer does with its rows is its own business
                    with judge("export"):
                        for r in rows[::2]:
                            r.clear()
                        del rows[::3]
                    st.fault("spoiled-rows")
            elif op == "game":
                with judge("record"):
                    game = rec.game_list[gi]
                rows = sut(game.to_paifu, what="export")
                recview.judge_rows(rows, recview.round_groups(steps, lg, gi), ctx + " round %d" % gi)
            else:
                for e, s in zip(rec.events, steps):
                    if s.rnd != gi:
                        continue
                    rows = sut(e.to_paifu, what="export")
                    recview.judge_rows(rows, [(recview.event_rows(s, lg, steps[s.i - 1]), None, "event %d <%s %s>" % (
                        s.i, s.tag, s.attrs))], ctx)

        def task(ti, t):
            for oi, (op, li, gi) in enumerate(t["ops"]):
                do(op, li, gi, "task %d operation %d (%s)" % (ti, oi, op))

        if sc["mode"] == "coop":
            for ti, t in enumerate(sc["tasks"]):
                if t["cancel"]:
                    res, err, cancelled, lines = sched.run_with_cancel(lambda: task(ti, t), t["cancel"])
                    st.log(ti, cancelled, lines)
                    if cancelled:
                        st.fault("cancelled")
                    if isinstance(err, Violation) or err is not None and not cancelled:
                        raise err
                else:
                    task(ti, t)
        elif sc["tasks"]:
            jobs = [sched.Task(lambda ti=ti, t=t: task(ti, t), t["cancel"]) for ti, t in enumerate(sc["tasks"])]
            s = sched.Sched(jobs, focus=sc.get("focus"))
            s.run(sc["steps"])
            st.log(s.trace)
            for j in jobs:
                if j.cancelled:
                    st.fault("cancelled")
                if isinstance(j.error, Violation) or j.error is not None and not j.cancelled:
                    raise j.error
        for i in range(len(logs)):
            do("record", i, 0, "afterwards")
    st.nontrivial = any(s.ev[0] == "D" for steps in plays for s in steps)
