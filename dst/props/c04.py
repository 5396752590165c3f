"""C04: translations never influence each other."""
from .. import server, table, repo, sched
from ..core import sut, judge, expect, expect_eq, Violation, SimCancel

ID = "C04"
RUNS = {"quick": 500, "thorough": 40000}
CPU_LIMIT = 90
RULE = ("a case is two to four translations of one to three simulated logs (some with an event that makes translation "
        "fail) consumed under a seeded schedule: lazily interleaved with abandonment, closing, exceptions thrown in and "
        "cancellation at a line, or on threads switched at any line; non-trivial: two translations overlapped or one "
        "was abandoned, cancelled or failed before another one")
REAL = ["mahjong.record.universe.*", "mahjong.record.utils.*", "mahjong.record.reader", "Python threads (serialised)"]
STUB = ["Tenhou server and clients (dst/server.py)", "thread scheduling (dst/sched.py)"]
ASSUMPTIONS = ["alone in a fresh process is realised as alone in freshly imported modules of the code under test"]
STATE_MEASURE = "distinct (mode, interleaving of the first 12 switches, ends of the translations) tuples"
MUST_FIRE = ["coop", "threads", "abandoned", "closed", "thrown", "cancelled", "failing-event", "same-record",
             "interleaved", "strict"]
APIS = ["iter", "iter", "iter", "records", "raw", "commands", "frame"]
NAMES = ("mahjong.record.universe.tenhou", "mahjong.record.reader", "mahjong.record.util_functions")


def poison(log_ev, k, x):
    """make one event untranslatable -> xml events"""
    c = [i for i, (t, a) in enumerate(log_ev) if t in ("INIT", "N", "AGARI", "DORA", "REACH", "UN")
         and not (t == "UN" and i < 6) and not (t == "INIT" and "seed" not in a)]
    out = [(t, dict(a)) for t, a in log_ev]
    if not c:
        return out
    i = c[k % len(c)]
    t, a = out[i]
    key = {"INIT": ["ten", "hai1"], "N": ["m", "who"], "AGARI": ["sc", "hai"], "DORA": ["hai"], "REACH": ["who", "step"],
           "UN": ["n0", "n1", "n2", "n3"]}[t]
    for q in [key[x % len(key)]] + key:
        if q in a:
            if x % 2 or t == "UN":
                a[q] = "%zz" if t != "UN" else a[q]
                if t == "UN":
                    a["dan"] = "?"
            elif t != "INIT" or q != "ten":
                del a[q]
            else:
                a[q] = "x"
            break
    return out


def gen(rng, tier, k):
    logs = []
    force = {}
    if rng.random() < 0.25:
        # many kans and their indicators, often the same ones
        force = {"kan": 0.95, "triplets": 0.6, "script": 0.6, "win": 0.3, "echo": rng.choice([0, 0.9])}
    for _ in range(rng.choice([1, 2, 2, 3])):
        logs.append({"log": server.generate(rng, rounds=(1, 2), max_turns=rng.choice([3, 8, 20]),
                                            force=dict(force, unknown=rng.choice([0, 0, 0.03]))),
                     "poison": [rng.randrange(1000), rng.randrange(10)] if rng.random() < 0.3 else None})
    if len(logs) > 1 and rng.random() < (0.8 if force else 0.3):
        logs[1] = {"log": server.relative(rng, logs[0]["log"]), "poison": logs[1]["poison"]}
    mode = rng.choice(["coop", "coop", "threads"])
    tasks = []
    for _ in range(rng.randint(2, 4)):
        tasks.append({"log": rng.randrange(len(logs)), "api": rng.choice(APIS), "strict": rng.random() < 0.4,
                      "shared": rng.random() < 0.7})
    steps = []
    if mode == "coop":
        n = rng.choice([1, 2, 5, 40, 200])
        for _ in range(rng.randint(4, 40)):
            op = rng.choices(["next", "close", "throw", "cancel", "restart"], [20, 1, 1, 1, 1.5])[0]
            steps.append([rng.randrange(len(tasks)), op, rng.randint(1, n) if op == "next" else rng.choice([
                rng.randint(1, 60), rng.randint(1, 3000)])])
    else:
        n = rng.choice([1, 3, 30, 300, 3000])
        for t in tasks:
            t["cancel"] = rng.choice([None, None, None, rng.randint(1, 100), rng.randint(1, 12000)])
        steps = [[rng.randrange(len(tasks)), rng.randint(1, n)] for _ in range(rng.choice([3, 20, 80, 200]))]
    return {"logs": logs, "mode": mode, "tasks": tasks, "steps": steps,
            "focus": sched.draw_focus(rng) if mode == "threads" else None}


def lists(sc):
    return [["steps"], ["tasks"]] + [p for i, lg in enumerate(sc["logs"])
                                     for p in table.log_lists(lg["log"], ("logs", i, "log"))]


def simplify(sc):
    if sc.get("focus"):
        yield dict(sc, focus=None)
    for i, t in enumerate(sc["tasks"]):
        if t["api"] != "iter":
            yield dict(sc, tasks=[dict(u, api="iter") if j == i else u for j, u in enumerate(sc["tasks"])])
    for i, lg in enumerate(sc["logs"]):
        for s in table.log_simplify(lg["log"]):
            yield dict(sc, logs=[dict(x, log=s) if j == i else x for j, x in enumerate(sc["logs"])])


def describe(sc):
    return {"mode": sc["mode"], "tasks": sc["tasks"], "steps": len(sc["steps"]),
            "logs": [sum(len(r["ev"]) for r in lg["log"]["rounds"]) for lg in sc["logs"]]}


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def norm(c):
    with judge("command"):
        if hasattr(c, "prop"):
            return ("cmd", c.timestamp, c.event.name if c.event is not None else None, c.prop.scope.name, c.sub_scope_id,
                    c.prop.view_property.name, c.prop.update_method.name, repr(c.value), repr(c.state))
        return ("row",) + tuple(str(x) for x in c)


def make(task, rec):
    """-> iterator over normalised results"""
    T = repo.mod("mahjong.record.universe.tenhou")
    api, strict = task["api"], task["strict"]
    if api == "iter":
        return T.to_command_iter(rec, strict)
    if api in ("records", "raw"):
        return T.to_command_records(rec, raw=api == "raw", strict=strict)
    if api == "commands":
        return whole(lambda: T.to_commands(rec, strict=strict))
    return whole(lambda: frame_rows(rec))


def whole(fn):
    yield from fn()


def frame_rows(rec):
    U = repo.mod("mahjong.record.util_functions")
    df = U.parse_dataframe_from_tenhou_record(rec, return_state=False)
    with judge("frame"):
        return [tuple(r) for r in df.itertuples(index=False)]


def drain(it, n=None, held=None):
    """-> list, how it went: more, end or the error's type"""
    out = []
    while n is None or len(out) < n:
        try:
            c = next(it)
            out.append(norm(c))
            if held is not None and hasattr(c, "prop"):
                held.append((c, out[-1]))
        except StopIteration:
            return out, "end"
        except (Violation, MemoryError):
            raise
        except Exception as e:
            return out, type(e).__name__
    return out, "more"


def run(sc, st):
    if not sc["tasks"] or not sc["logs"]:
        return
    xmls = []
    for lg in sc["logs"]:
        ev = [(s.tag, s.attrs) for s in table.play(lg["log"])]
        if lg["poison"]:
            ev = poison(ev, *lg["poison"])
            st.fault("failing-event")
        st.sim_time += len(ev) * 3.0
        xmls.append(table.to_xml(ev))
    st.log(*xmls)
    tasks = [dict(t, log=t["log"] % len(xmls)) for t in sc["tasks"]]
    alone = {}
    for t in tasks:
        key = (t["log"], t["api"], t["strict"])
        if key not in alone:
            with repo.Fresh(*NAMES):
                alone[key] = drain(make(t, repo.load(xmls[t["log"]])))
    st.probe(sc["mode"])
    if any(t["strict"] for t in tasks):
        st.probe("strict")
    with sched.SimLocks(), repo.Fresh(*NAMES):
        recs = {}
        held = []
        for i, t in enumerate(tasks):
            if t["shared"]:
                if t["log"] in recs:
                    st.probe("same-record")
                else:
                    recs[t["log"]] = repo.load(xmls[t["log"]])

        def rec_of(t):
            return recs[t["log"]] if t["shared"] else repo.load(xmls[t["log"]])

        def check(i, got, end, how):
            t = tasks[i]
            want, wend = alone[(t["log"], t["api"], t["strict"])]
            ctx = lambda: "%s, translation %d (%s of log %d)" % (how, i, t["api"], t["log"])
            if end == "more":
                expect_eq(got, want[:len(got)], "other-commands", ctx)
            else:
                expect_eq(got, want, "other-commands", ctx)
                expect_eq(end, wend, "other-end", ctx)

        if sc["mode"] == "coop":
            coop(sc, st, tasks, rec_of, check, held)
        else:
            threads(sc, st, tasks, rec_of, check, held)
        # afterwards, one after the other
        for i, t in enumerate(tasks):
            got, end = drain(make(t, rec_of(t)), held=held)
            check(i, got, end, "afterwards")
        # commands handed out are what they were
        for c, was in held[::1 + len(held) // 400]:
            expect_eq(norm(c), was, "command-changed", "a command handed out earlier")


def coop(sc, st, tasks, rec_of, check, held):
    live, outs, keep = {}, {}, []
    order = []
    for i, op, n in sc["steps"]:
        i %= len(tasks)
        if i not in live:
            if op in ("close", "throw"):
                continue
            live[i] = make(tasks[i], rec_of(tasks[i]))
            outs[i] = []
            keep.append(live[i])
        if op == "next":
            got, end = drain(live[i], n, held)
            order.append(i)
            outs[i] += got
            st.log(i, len(outs[i]), end)
            check(i, outs[i], end, "interleaved")
            if end != "more":
                del live[i]
        elif op == "restart":
            # the old iterator is left behind, half consumed
            if outs[i]:
                st.fault("abandoned")
            del live[i]
        elif op == "close":
            if hasattr(live[i], "close"):
                sut(live[i].close, what="close")
                st.fault("closed")
            del live[i]
        elif op == "throw":
            if hasattr(live[i], "throw"):
                try:
                    live[i].throw(SimCancel())
                except (SimCancel, StopIteration):
                    pass
                st.fault("thrown")
            del live[i]
        elif op == "cancel":
            it = live.pop(i)
            res, err, cancelled, lines = sched.run_with_cancel(lambda: [norm(c) for c in it], n)
            st.log(i, "cancel", cancelled, lines)
            if cancelled:
                st.fault("cancelled")
    if len(set(order[1:])) > 1:
        st.probe("interleaved")
    for i in sorted(live):
        got, end = drain(live[i], held=held)
        outs[i] += got
        check(i, outs[i], end, "finally")
    st.state("coop", tuple(order[:12]), tuple(sorted(live)))
    st.nontrivial = len(order) > 1


def threads(sc, st, tasks, rec_of, check, held):
    jobs = []
    for t in tasks:
        rec = rec_of(t)
        jobs.append(sched.Task(lambda t=t, rec=rec: drain(make(t, rec), held=held), t.get("cancel")))
    s = sched.Sched(jobs, focus=sc.get("focus"))
    s.run(sc["steps"])
    st.log(s.trace)
    st.probe("switches", s.switches)
    for i, j in enumerate(jobs):
        if j.cancelled:
            st.fault("cancelled")
            expect(j.error is not None or isinstance(j.result, tuple), "no-result", lambda: repr(j.result))
            if isinstance(j.error, Violation):
                raise j.error
        else:
            if isinstance(j.error, Violation):
                raise j.error
            if j.error is not None:
                raise Violation("thread-error", repr(j.error))
            check(i, j.result[0], j.result[1], "on threads")
    st.state("threads", tuple(x[0] for x in s.trace[:12]), tuple(j.cancelled for j in jobs))
    st.nontrivial = s.switches > len(jobs)
