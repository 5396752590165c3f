"""C17: one loaded record serves all uses, in any order, with the same results."""
import contextlib

from .. import net, recview, repo, sched, server, table
from ..core import sut, judge, expect, expect_eq, Violation

ID = "C17"
RUNS = {"quick": 300, "thorough": 20000}
CPU_LIMIT = 240
RULE = ("a case is one or two simulated matches, each loaded once, one checker, and up to five tasks of seeded uses (trackers, "
        "translations whole or half consumed, replayed tables, exports, summaries, event texts, reports of the record or of its link, uses that fail), run one "
        "after the other or as simulated threads switched and cancelled at seeded lines; each result is compared with the same use "
        "alone on a newly loaded record with the code imported anew; non-trivial: at least two uses of one record")
REAL = ["mahjong.record.*", "mahjong.record.checker", "mahjong.tenhou_record_check", "mahjong.record.universe.*", "mahjong.container.*",
        "mahjong.tile", "pandas", "jinja2"]
STUB = ["Tenhou server and clients (dst/server.py)", "network (dst/net.py, no faults here)", "thread scheduling (dst/sched.py)", "a fresh process (the package imported anew)"]
ASSUMPTIONS = ["a fresh process is represented by importing the package anew in the same interpreter",
               "threads are switched between source lines outside the inner search of the analyser (that is C12's)"]
STATE_MEASURE = "distinct (mode, use, use before it on the same record, cancelled) tuples"
MUST_FIRE = ["threads", "coop", "cancelled", "fails", "two-records", "twins", "half-consumed", "track", "collect", "commands", "strict", "frame",
             "states", "paifu", "summary", "report", "link", "page", "texts", "recognise", "bad-player", "bad-type", "poisoned"]
NAMES = ("mahjong.record", "mahjong.record.checker", "mahjong.record.reader", "mahjong.record.state", "mahjong.record.util_functions",
         "mahjong.record.universe.executor", "mahjong.record.universe.tenhou", "mahjong.tenhou_record_check")
# kept between fresh processes, because the search is slow before it is compiled; sharing of tiles and hands is C12's
KEEP = ("mahjong.container", "mahjong.tile")
HOT = ("container/", "tile/", "record/category.py")
USES = ["track", "track", "track", "collect", "collect", "commands", "commands", "strict", "strict", "frame", "frame", "states", "paifu", "paifu", "summary", "summary", "report", "report", "report", "link", "link", "page", "texts", "texts", "recognise", "half", "half", "bad-player", "bad-type"]


LINK = "http://tenhou.net/0/?log=2019010100gm-00a9-0000-%08x"


def gen(rng, tier, k):
    logs = [server.generate(rng, rounds=(1, 2), max_turns=rng.choice([1, 3, 3, 6, 12]), force={"unknown": rng.choice([0, 0, 0.05])})
            for _ in range(rng.choice([1, 1, 2]))]
    twins = rng.random() < 0.4
    if twins:
        # a second match which summaries do not tell from the first
        logs = [logs[0], table.twin(logs[0])]
    elif rng.random() < 0.3:
        logs = [logs[0], server.cousin(rng, logs[0])]
    tasks = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        tasks.append({"ops": [[rng.choice(USES), rng.randrange(2), rng.randrange(4), rng.choice([1, 5, 40, 300])]
                              for _ in range(rng.randint(1, 3))],
                      "cancel": rng.choice([None, None, rng.randint(1, 500), rng.randint(1, 20000)])})
    n = rng.choice([3, 30, 300, 3000])
    if twins:
        for t in tasks:
            if rng.random() < 0.7:
                o = rng.choice(t["ops"])
                t["ops"].insert(rng.randint(0, len(t["ops"])), [o[0], 1 - o[1]] + o[2:])
    return {"logs": logs, "tasks": tasks, "mode": rng.choice(["coop", "threads"]), "poison": rng.choice([None, None, None, rng.random()]),
            "steps": [[rng.randrange(5), rng.randint(1, n)] for _ in range(rng.choice([3, 30, 100]))],
            "focus": sched.draw_focus(rng)}


def lists(sc):
    return [["tasks"], ["steps"], ["logs"]] + [["tasks", i, "ops"] for i in range(len(sc["tasks"]))] + [
        p for i, lg in enumerate(sc["logs"]) for p in table.log_lists(lg, ("logs", i))]


def simplify(sc):
    if sc.get("focus"):
        yield dict(sc, focus=None)
    yield dict(sc, mode="coop")
    yield dict(sc, tasks=[dict(t, cancel=None) for t in sc["tasks"]])
    if sc["poison"] is not None:
        yield dict(sc, poison=None)
    for i, lg in enumerate(sc["logs"]):
        for s in table.log_simplify(lg):
            yield dict(sc, logs=[s if j == i else x for j, x in enumerate(sc["logs"])])


def describe(sc):
    return {"mode": sc["mode"], "tasks": sc["tasks"], "players": [lg["n"] for lg in sc["logs"]], "poison": sc["poison"],
            "events": [sum(len(r["ev"]) for r in lg["rounds"]) for lg in sc["logs"]]}


def warmup():
    repo.quiet()
    for m in NAMES + ("mahjong.container.pattern.reasoning",):
        repo.mod(m)


def meld(m):
    return [type(m).__name__, sorted(m.self_tiles), sorted(m.borrowed_tiles), m.from_who]


def command(c):
    return [c.timestamp, c.event.name if c.event is not None else None, c.prop.scope.name, str(c.sub_scope_id),
            c.prop.view_property.name, c.prop.update_method.name, repr(c.value), repr(c.state)]


def use(op, rec, checker, p, n, li):
    """one use of a record -> a plain value"""
    S = repo.mod("mahjong.record.state")
    T = repo.mod("mahjong.record.universe.tenhou")
    U = repo.mod("mahjong.record.util_functions")
    p %= len(rec.players)
    if op == "track":
        pl = rec.players[p]
        hand, melds, thrown = S.PlayerHand(pl), S.PlayerMeld(pl), S.DiscardTiles(pl)
        dora, unseen = S.DoraIndicators(), S.InvisibleTiles(len(rec.players))
        out = []
        for e in rec.events:
            hand, melds, thrown, dora, unseen = (x.passed_events([e]) for x in (hand, melds, thrown, dora, unseen))
            out.append([sorted(hand.value), [meld(m) for m in melds.value], list(thrown.value), list(dora.value), sorted(unseen.value)])
        return out
    if op == "collect":
        st = S.GameStateCollection(**{"p%d" % q.index: S.PlayerHand(q) for q in rec.players})
        return [[sorted(v.value) for v in vars(s.value).values()] for s in st.with_key_events(rec.events)]
    if op in ("commands", "strict"):
        got = T.to_commands(rec, strict=op == "strict")
        out = [command(c) for c in got]
        got.clear()                 # the list is the caller's own
        return out
    if op == "half":
        out = []
        for c in T.to_command_iter(rec, False):
            out.append(command(c))
            if len(out) >= n:
                break
        return out
    if op == "frame":
        df = U.parse_dataframe_from_tenhou_record(rec, return_state=False)
        out = [list(df.columns), df.to_csv()]
        df.drop(df.index, inplace=True)
        return out
    if op == "states":
        a, b = U.parse_dataframe_from_tenhou_record(rec)
        out = [a.to_csv(), b.to_csv()]
        for df in (a, b):
            df.drop(df.index[::2], inplace=True)
        return out
    if op == "paifu":
        rows = rec.to_paifu()
        out = [{k: str(v) for k, v in row.items()} for row in rows]
        for row in rows[::2]:
            row["note"] = row.pop("player", None)
        rows.clear()
        return out
    if op == "summary":
        return [str(rec), str(rec.game_type), [str(x) for x in rec.players], [str(g) for g in rec.game_list],
                list(rec.end_score), list(rec.end_point),
                [[tuple(g.game_index()), g.sub_game_index(), g.richii_counts(), g.initial_dora(), g.east_index] for g in rec.game_list]]
    if op == "texts":
        return [str(e) for e in rec.events]
    if op == "recognise":
        return [[bool(q.is_draw(e)), bool(q.is_discard(e)), bool(q.is_open_hand(e)), bool(q.is_reach(e)), bool(q.is_win(e))]
                for e in rec.events for q in rec.players]
    if op == "report":
        return checker.parse(rec, p)
    if op == "link":
        return checker.parse(LINK % li, p)
    if op == "page":
        M = repo.mod("mahjong.tenhou_record_check")
        return list(M.render_template(rec.players[p], rec, checker.template, log_id="2019010100gm-00a9-0000-%08x" % n))
    if op == "bad-player":
        return checker.parse(rec, len(rec.players) + n)
    if op == "bad-type":
        return checker.parse(rec.events, p)
    raise KeyError(op)


def outcome(op, rec, checker, p, n, li):
    try:
        return ("result", use(op, rec, checker, p, n, li))
    except Violation:
        raise
    except Exception as e:
        return ("error", type(e).__name__)


def run(sc, st):
    if not sc["logs"] or not sc["tasks"]:
        return
    logs = sc["logs"]
    plays = [table.play(lg) for lg in logs]
    xmls = []
    for li, (lg, steps) in enumerate(zip(logs, plays)):
        ev = [(s.tag, s.attrs) for s in steps]
        if sc["poison"] is not None and li == 0:
            # one event the translation fails at
            i = min(len(ev) - 2, 5 + int(sc["poison"] * len(ev)))
            ev.insert(i, ("REACH", {"who": "0", "step": "zwei"}))
            st.fault("poisoned")
        xmls.append(table.to_xml(ev))
        st.sim_time += 3.0 * len(steps)
    st.log(*xmls)
    with contextlib.ExitStack() as stack:
        if any(o[0] == "link" for t in sc["tasks"] for o in t["ops"]):
            # the checker fetches the same logs itself, over a network without faults
            stack.enter_context(net.Net({(LINK % i).partition("=")[2]: x for i, x in enumerate(xmls)}, [], st))
        judge_uses(sc, st, logs, plays, xmls)


def judge_uses(sc, st, logs, plays, xmls):
    if len(logs) > 1:
        st.probe("two-records")
        if [s.tag for s in plays[0]] != [s.tag for s in plays[1]] and [len(x) for x in plays[:1]] == [len(x) for x in plays[1:]]:
            st.probe("twins")
    st.probe(sc["mode"])
    alone = {}

    def key(op, li, p, n):
        li %= len(logs)
        return (op, li, p % logs[li]["n"], n if op in ("half", "page", "bad-player") else 0)

    for t in sc["tasks"]:
        for o in t["ops"]:
            k = key(*o)
            if k not in alone:
                with repo.Fresh(*NAMES, keep=KEEP):
                    rec = repo.load(xmls[k[1]])
                    checker = sut(repo.mod("mahjong.record.checker").TenhouChecker)
                    alone[k] = outcome(k[0], rec, checker, k[2], k[3], k[1])
                st.probe("half-consumed" if k[0] == "half" else k[0])
                if alone[k][0] == "error":
                    st.probe("fails")
                    if k[0] not in ("bad-player", "bad-type", "strict") and sc["poison"] is None:
                        raise Violation("use-fails:%s:%s" % (k[0], alone[k][1]), "use %s of a new record fails" % (k,))
    uses = 0
    with sched.SimLocks(), repo.Fresh(*NAMES, keep=KEEP):
        recs = [repo.load(x) for x in xmls]
        checker = sut(repo.mod("mahjong.record.checker").TenhouChecker)
        last = [None] * len(recs)

        def do(o, ctx):
            k = key(*o)
            got = outcome(k[0], recs[k[1]], checker, k[2], k[3], k[1])
            want = alone[k]
            st.state(sc["mode"], k[0], last[k[1]], ctx.split()[0])
            last[k[1]] = k[0]
            if got != want:
                a, b = got[1], want[1]
                if got[0] == want[0] == "result" and isinstance(a, (list, str)) and type(a) is type(b):
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    a, b = a[max(0, i - 20):i + 200] if isinstance(a, str) else a[i:i + 1], b[max(0, i - 20):i + 200] if isinstance(
                        b, str) else b[i:i + 1]
                raise Violation("other-result:%s" % k[0], "%s: %s of record %d, player %d: %s\n got: %r\nwant: %s %r" % (
                    ctx, k[0], k[1], k[2], got[0], a, want[0], b))

        def task(ti, t):
            for oi, o in enumerate(t["ops"]):
                do(o, "task %d operation %d" % (ti, oi))

        uses += sum(len(t["ops"]) for t in sc["tasks"])
        if sc["mode"] == "coop":
            for ti, t in enumerate(sc["tasks"]):
                if t["cancel"]:
                    res, err, cancelled, lines = sched.run_with_cancel(lambda: task(ti, t), t["cancel"], skip=HOT)
                    st.log(ti, cancelled, lines)
                    if cancelled:
                        st.fault("cancelled")
                    if isinstance(err, Violation) or err is not None and not cancelled:
                        raise err
                else:
                    task(ti, t)
        else:
            jobs = [sched.Task(lambda ti=ti, t=t: task(ti, t), t["cancel"]) for ti, t in enumerate(sc["tasks"])]
            s = sched.Sched(jobs, skip=HOT, focus=sc.get("focus"))
            s.run(sc["steps"])
            st.log(s.trace)
            for j in jobs:
                if j.cancelled:
                    st.fault("cancelled")
                if isinstance(j.error, Violation) or j.error is not None and not j.cancelled:
                    raise j.error
        for ti, t in enumerate(sc["tasks"]):
            for o in t["ops"]:
                do(o, "afterwards, task %d" % ti)
        if sc["poison"] is None:
            for rec, lg, steps in zip(recs, logs, plays):
                recview.judge_record(rec, steps, lg, "afterwards")
    st.nontrivial = uses > 1
