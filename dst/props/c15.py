"""C15: a loaded record partitions and summarises the log correctly."""
from .. import repo, recview, sched, server, table
from ..core import sut, judge, expect, Violation
from .c01 import probes

ID = "C15"
RUNS = {"quick": 1500, "thorough": 60000}
CPU_LIMIT = 90
RULE = ("a case is up to three simulated matches (some the same) loaded and asked by up to four tasks, cooperatively or as "
        "simulated threads switched and cancelled at seeded lines; header, rounds, rules, players, results and what each player "
        "recognises are compared with the table; non-trivial: at least one finished round with a discard")
REAL = ["mahjong.record.reader", "mahjong.record.stage", "mahjong.record.player", "mahjong.record.utils", "mahjong.record.category"]
STUB = ["Tenhou server and clients (dst/server.py)", "thread scheduling (dst/sched.py)"]
ASSUMPTIONS = ["the abstract table model in dst/table.py and its encoding of the mjlog format",
               "the log ends with its last result, as finished Tenhou logs do"]
STATE_MEASURE = "distinct (round, honba, results, connection events around the round limits, players) tuples"
MUST_FIRE = ["3p", "4p", "disconnect", "multi-agari", "abort", "threads", "coop", "cancelled", "unknown-event", "two-records",
             "tie", "west-round", "header-connection", "draw-reason"]


def gen(rng, tier, k):
    force = {"unknown": rng.choice([0.02, 0.1])} if rng.random() < 0.3 else {}
    if rng.random() < 0.5:
        force["conn"] = rng.choice([0.02, 0.1])
    logs = [server.generate(rng, rounds=(1, 4) if tier == "quick" else (1, 12), force=force or None,
                            max_turns=rng.choice([None, 1, 8, 8, 20])) for _ in range(rng.choice([1, 1, 2]))]
    if len(logs) > 1 and rng.random() < 0.4:
        logs[1] = server.relative(rng, logs[0])
    tasks = [{"ops": [[rng.choice(["load", "ask", "ask", "recognise", "texts"]), rng.randrange(2)] for _ in range(rng.randint(1, 3))],
              "cancel": rng.choice([None, None, rng.randint(1, 300), rng.randint(1, 6000)])} for _ in range(rng.choice([1, 2, 3]))]
    n = rng.choice([1, 5, 50, 500])
    return {"logs": logs, "tasks": tasks, "mode": rng.choice(["coop", "threads"]),
            "steps": [[rng.randrange(4), rng.randint(1, n)] for _ in range(rng.choice([3, 30, 100]))],
            "focus": sched.draw_focus(rng)}


def lists(sc):
    return [["tasks"], ["steps"], ["logs"]] + [["tasks", i, "ops"] for i in range(len(sc["tasks"]))] + [
        p for i, lg in enumerate(sc["logs"]) for p in table.log_lists(lg, ("logs", i))]


def simplify(sc):
    if sc.get("focus"):
        yield dict(sc, focus=None)
    yield dict(sc, mode="coop", tasks=[dict(t, cancel=None) for t in sc["tasks"]])
    for i, lg in enumerate(sc["logs"]):
        for s in table.log_simplify(lg):
            yield dict(sc, logs=[s if j == i else x for j, x in enumerate(sc["logs"])])


def describe(sc):
    return {"mode": sc["mode"], "tasks": sc["tasks"], "players": [lg["n"] for lg in sc["logs"]],
            "rounds": [len(lg["rounds"]) for lg in sc["logs"]],
            "events": [sum(len(r["ev"]) for r in lg["rounds"]) for lg in sc["logs"]]}


def warmup():
    repo.quiet()
    repo.mod("mahjong.record.reader")


def run(sc, st):
    if not sc["logs"]:
        return
    logs = sc["logs"]
    plays = [table.play(lg) for lg in logs]
    xmls = [table.xml_of(lg, steps) for lg, steps in zip(logs, plays)]
    for lg, steps, xml in zip(logs, plays, xmls):
        probes(st, steps, lg)
        st.sim_time += 3.0 * len(steps)
        st.log(xml)
        if any(s.ev[0] == "X" for s in steps):
            st.probe("unknown-event")
        if lg["head"] or lg["head2"]:
            st.probe("header-connection")
        if len({x[0] for x in steps[-1].snap.final}) < lg["n"]:
            st.probe("tie")
        for ri, r in enumerate(lg["rounds"]):
            if r["kyoku"] >= 8:
                st.probe("west-round")
            ends = [e for e in r["ev"] if e[0] in ("AGARI", "RYU")]
            if any(e[0] == "RYU" and e[1].get("type") for e in ends):
                st.probe("draw-reason")
            st.state(r["kyoku"], min(r["honba"], 2), tuple(e[0] for e in ends), r["ev"][0][0], r["ev"][-1][0], lg["n"])
    if len(logs) > 1:
        st.probe("two-records")
    st.probe(sc["mode"])
    with sched.SimLocks():
        recs = [repo.load(x) for x in xmls]

        def do(op, li, ctx):
            li %= len(logs)
            rec, lg, steps = recs[li], logs[li], plays[li]
            if op == "load":
                rec = repo.load(xmls[li])
            if op == "recognise":
                recview.judge_recognition(rec, steps, lg, ctx)
            elif op == "texts":
                recview.judge_texts(rec.events, steps, steps, ctx)
            else:
                recview.judge_record(rec, steps, lg, ctx)

        def task(ti, t):
            for oi, (op, li) in enumerate(t["ops"]):
                do(op, li, "task %d operation %d (%s)" % (ti, oi, op))

        if sc["mode"] == "coop":
            for ti, t in enumerate(sc["tasks"]):
                if t["cancel"]:
                    res, err, cancelled, lines = sched.run_with_cancel(lambda: task(ti, t), t["cancel"])
                    st.log(ti, cancelled, lines)
                    if cancelled:
                        st.fault("cancelled")
                    if isinstance(err, Violation) or err is not None and not cancelled:
                        raise err
                else:
                    task(ti, t)
        elif sc["tasks"]:
            jobs = [sched.Task(lambda ti=ti, t=t: task(ti, t), t["cancel"]) for ti, t in enumerate(sc["tasks"])]
            s = sched.Sched(jobs, focus=sc.get("focus"))
            s.run(sc["steps"])
            st.log(s.trace)
            for j in jobs:
                if j.cancelled:
                    st.fault("cancelled")
                if isinstance(j.error, Violation) or j.error is not None and not j.cancelled:
                    raise j.error
        for i in range(len(logs)):
            do("ask", i, "afterwards")
            do("recognise", i, "afterwards")
            do("texts", i, "afterwards")
    st.nontrivial = any(s.ev[0] == "D" for steps in plays for s in steps)
