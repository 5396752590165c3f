"""C08: the efficiency report judges every discard of the player correctly."""
from .. import server, table, repo, report, sched, ref, net
from ..core import sut, judge, expect, expect_eq, Violation

ID = "C08"
RUNS = {"quick": 560, "thorough": 40000}
CPU_LIMIT = 240
RULE = ("a case is one simulated match and the reports of seeded players from one checker, some of them cancelled midway "
        "first; every row is compared with an independent calculation; non-trivial: at least one discard was judged")
REAL = ["mahjong.record.checker", "mahjong.tenhou_record_check (analysis and template)", "mahjong.record.state",
        "mahjong.container.*", "mahjong.tile", "mahjong.record.reader", "jinja2"]
STUB = ["Tenhou server and clients (dst/server.py)", "network (dst/net.py, no faults here)"]
ASSUMPTIONS = ["the reference arithmetic in dst/ref.py: complete hands use no kind more than four times within the concealed "
               "hand; thirteen orphans is not a hand type of the tool"]
STATE_MEASURE = "distinct (best steps, melds left, steps lost, useful count bucket, riichi) tuples judged"
MUST_FIRE = ["best", "worse-count", "worse-steps", "after-riichi", "before-riichi", "complete-hand", "seven-pairs",
             "kita-held", "cancelled", "judged", "link", "packaged", "nothing-useful-left"]
NAMES = ("mahjong.record.checker", "mahjong.record.reader")
FORMS = ["http://tenhou.net/0/?log=%s", "http://tenhou.net/0/?log=%s&tw=2", "https://tenhou.net/3/?tw=1&log=%s&ts=4",
         "http://tenhou.net/0/?log=%s#top", "http://tenhou.net/0/?dialog=no&log=%s", "http://tenhou.net/0/?tw=3&log=%s"]


def gen(rng, tier, k):
    cfg = server.config(rng)
    cfg["yao"] = rng.choice([0.0, 0.0, 0.0, 0.1])
    log = server.generate(rng, rounds=rng.choice([1, 1, 1, 2]), max_turns=rng.choice([2, 6, 12, 24, 24, 60]), cfg=cfg,
                          force={"unknown": rng.choice([0, 0, 0.02])})
    n = log["n"]
    ops = [[rng.choice(["report", "report", "report", "link", "cancel"]), rng.randrange(n), rng.choice([10, 1000, 30000])]
           for _ in range(rng.choice([1, 1, 2]))]
    if ops[-1][0] == "cancel":
        ops.append(["report", ops[-1][1], 0])
    return {"log": log, "ops": [[o, p, rng.randint(1, m) if m else 0] for o, p, m in ops],
            "frozen": rng.random() < 0.15, "id": "20%02d%02d0100gm-0089-0000-%08x" % (rng.randint(9, 29), rng.randint(1, 12), rng.getrandbits(32))}


def lists(sc):
    return [["ops"]] + table.log_lists(sc["log"])


def simplify(sc):
    yield dict(sc, frozen=False)
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)


def describe(sc):
    return {"ops": sc["ops"], "names": sc["log"]["un"]["names"], "events": [len(r["ev"]) for r in sc["log"]["rounds"]]}


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def run(sc, st):
    with repo.Frozen(sc["frozen"]):
        judge_all(sc, st)


def judge_all(sc, st):
    log = sc["log"]
    if sc["frozen"]:
        st.probe("packaged")
    steps = table.play(log)
    xml = table.xml_of(log, steps)
    rec = repo.load(xml)
    C = repo.mod("mahjong.record.checker")
    checker = sut(C.TenhouChecker)
    judged = 0
    for op, p, n in sc["ops"]:
        if op == "cancel":
            _, err, c, lines = sched.run_with_cancel(lambda: checker.parse(rec, p), n)
            if c:
                st.fault("cancelled")
            elif isinstance(err, Exception):
                raise Violation("raised:parse:%s" % type(err).__name__, err)
            st.log("cancel", p, c)
            continue
        if op == "link":
            st.probe("link")
            # the record is fetched by the checker itself, over a network without faults
            with net.Net({sc["id"]: xml}, [], st):
                page = sut(checker.parse, FORMS[n % len(FORMS)] % sc["id"], p, generate_filename=bool(n % 2), what="parse")
            html = page if isinstance(page, str) else next(x for x in page if "<html" in x)
        else:
            html = sut(checker.parse, rec, p, what="parse")
        got = report.judge_report(html, steps, p, log, st, "player %d" % p, sc["id"] if op == "link" else None)
        judged += got
        st.log("report", p, got, len(html))
    st.probe("judged", judged)
    st.sim_time += len(steps) * 3.0
    st.nontrivial = judged > 0
