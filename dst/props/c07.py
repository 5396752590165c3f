"""C07: a fetch returns the whole record or fails, within its timeout."""
import xml.etree.ElementTree as ET

from .. import server, table, repo, net
from ..core import sut, judge, expect, expect_eq, Violation

ID = "C07"
RUNS = {"quick": 1500, "thorough": 80000}
CPU_LIMIT = 90
RULE = ("a case is a sequence of loads by URL of the logs one simulated server holds, each over a seeded network: framing, "
        "fragmentation, delays, compression, redirects and faults; non-trivial: at least one load met a fault")
REAL = ["mahjong.record.reader", "mahjong.record.checker", "requests", "urllib3", "http.client", "xml parser"]
STUB = ["name resolution, TCP and HTTP server (dst/net.py)", "clock and sleep (virtual)", "Tenhou game server (dst/server.py)"]
ASSUMPTIONS = ["TCP delivers uncorrupted bytes in order; TLS is not used by the fixed API address",
               "the time name resolution takes is the resolver's, not the server's"]
STATE_MEASURE = "distinct (fault kinds met, framing, outcome, timeout) tuples"
MUST_FIRE = ["net-dns", "net-refuse", "net-unreach", "net-connstall", "net-sendreset", "net-reset", "net-stall", "net-fin",
             "net-garbage", "net-empty", "net-page", "net-badchunk", "net-badgzip", "net-loop", "late", "redirected",
             "recovered", "gzip", "chunked", "unknown-id", "second-address", "idle-connections"]
NAMES = ("mahjong.record.reader", "mahjong.record.checker", "mahjong.record.util_functions")
FORMS = ["http://tenhou.net/0/?log=%s", "http://tenhou.net/0/?log=%s&tw=2", "https://tenhou.net/3/?tw=1&log=%s&ts=4",
         "http://tenhou.net/0/?log=%s#top", "tenhou.net/0/?log=%s", "http://tenhou.net/4/?lang=en&log=%s",
         "http://tenhou.net/0/?dialog=no&log=%s", "http://tenhou.net/5/?blog=1&ts=3&log=%s&tw=0",
         "http://tenhou.net/0/?log=%s&dialog=no#log=x", "http://tenhou.net/0/?tw=0&log=%%s", "http://tenhou.net/0/?log=%s&log2=1"]
ENCODED = 9     # the form with the id percent-encoded


def gen(rng, tier, k):
    n = rng.choice([1, 1, 2, 3])
    logs, ids = [], []
    base = "20%02d%02d%02d%02dgm-%04x-%s-" % (rng.randint(9, 29), rng.randint(1, 12), rng.randint(1, 28),
                                               rng.randint(0, 23), rng.choice([0xa9, 0xe1, 0x29, 0x89]),
                                               rng.choice(["0000", "0000", "10011", "7994"]))
    hexa = rng.choice(["%08x", "%08x", "%08X", "x%012x", "X1%08x"]) % rng.getrandbits(32)
    tiny = rng.random() < 0.04
    for i in range(n):
        logs.append(server.generate(rng, rounds=rng.choice([1, 1, 1, 3]) if not tiny else 1,
                                    max_turns=1 if tiny else rng.choice([1, 4, 12, None]),
                                    n=None if i == 0 else rng.choice([None, len(logs[0]["un"]["names"])]),
                                    force={"unknown": rng.choice([0, 0, 0.03])}))
        # sometimes nothing but the case of a letter tells two ids apart
        last = "0123456789abcdefABCDEF"
        at = last.index(hexa[-1])
        ids.append(base + hexa[:-1] + last[(at + (6 if 10 <= at < 16 else 1) * i) % 22])
    if n > 1 and rng.random() < 0.3:
        logs[1] = server.relative(rng, logs[0])
    calls = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        timeout = rng.choice([None, 3, 3, 10, 0.5, 60])
        eff = 3 if timeout is None else timeout
        script = []
        if rng.random() < 0.7:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                script.append(net.fault(rng, eff))
                if rng.random() < 0.3:
                    script.insert(rng.randrange(len(script)), net.benign(rng, eff))
        else:
            script = [net.benign(rng, eff) for _ in range(rng.choice([1, 1, 2, 3]))]
        calls.append({"id": rng.randrange(n) if rng.random() < 0.93 else None, "form": rng.randrange(len(FORMS)),
                      "timeout": timeout, "script": script, "idle": rng.choice([None, None, "fin", "lost"]),
                      "api": "checker" if tiny and rng.random() < 0.6 else rng.choice(["url", "url", "util"]),
                      "addrs": rng.choice([1, 1, 1, 2, 3])})
    return {"logs": logs, "ids": ids, "calls": calls}


def lists(sc):
    out = [["calls"]] + [["calls", i, "script"] for i in range(len(sc["calls"]))]
    for i in range(len(sc["logs"])):
        out += table.log_lists(sc["logs"][i], ("logs", i))
    return out


def simplify(sc):
    for i, lg in enumerate(sc["logs"]):
        for new in table.log_simplify(lg):
            yield dict(sc, logs=sc["logs"][:i] + [new] + sc["logs"][i + 1:])
    for i, c in enumerate(sc["calls"]):
        for key, val in (("form", 0), ("idle", None), ("api", "url"), ("addrs", 1), ("timeout", None)):
            yield dict(sc, calls=sc["calls"][:i] + [dict(c, **{key: val})] + sc["calls"][i + 1:])


def describe(sc):
    return {"ids": sc["ids"], "calls": [dict(c, script=c["script"][:2]) for c in sc["calls"]]}


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def content(record):
    return [(e.tag, list(e.attrib.items())) for e in record.events]


def run(sc, st):
    texts = {i: table.xml_of(lg) for i, lg in zip(sc["ids"], sc["logs"])}
    truth = {i: [(e.tag, list(e.attrib.items())) for e in ET.fromstring(x)] for i, x in texts.items()}
    R = repo.mod("mahjong.record.reader")
    U = repo.mod("mahjong.record.util_functions")
    C = repo.mod("mahjong.record.checker")
    pages = {}
    checker = None
    nt = net.Net(texts, [], st)
    with nt:
        # after all of it the network is healthy
        final = []
        for i in range(len(sc["ids"])):
            last = [c for c in sc["calls"] if c["id"] == i and c["api"] != "checker"][-1:]
            # the same call again, as the user would make it
            final += [dict(c, script=[], idle=None, addrs=1) for c in last]
            final.append({"id": i, "form": 0, "timeout": None, "script": [], "idle": None, "api": "url", "addrs": 1})
        for ci, c in enumerate(sc["calls"] + final):
            log_id = sc["ids"][c["id"]] if c["id"] is not None else "2000010100gm-0001-0000-00000000"
            url = FORMS[c["form"]].replace("%%s", "%s") % (log_id if c["form"] != ENCODED else log_id.replace("-", "%2D"))
            nt.script = list(c["script"])
            nt.looping = False
            nt.addrs, nt.refuse_addrs = c["addrs"], {"10.1.0.1"} if c["addrs"] > 1 else set()
            nt.fired, nt.bad_waits = [], []
            default = 10 if c["api"] == "checker" else 3
            nt.limit = default if c["timeout"] is None else c["timeout"]
            if c["idle"]:
                nt.idle(c["idle"])
                if ci:
                    st.probe("idle-connections")
            start, r0 = nt.now, len(nt.requests)
            args = [url] + ([0] if c["api"] == "checker" else [])
            kw = {} if c["timeout"] is None else {"timeout": c["timeout"]}
            if c["api"] == "checker" and checker is None:
                checker = sut(C.TenhouChecker)
            fn = {"url": R.from_url, "util": U.tenhou_record_from_url}.get(c["api"]) or checker.parse
            try:
                got, err = fn(*args, **kw), None
            except Violation:
                raise
            except Exception as e:
                got, err = None, e
            took = nt.now - start
            st.sim_time += took
            ctx = "call %d %s timeout=%r network=%r fired=%s" % (ci, url, c["timeout"], c["script"], nt.fired)
            expect(not nt.bad_waits, "wait-beyond-timeout", lambda: "%s: %r" % (ctx, nt.bad_waits[:3]))
            slow = any(b.get("slow") or b["kind"] == "slowconn" for b in c["script"])
            healthy = not nt.fired and not slow
            if healthy and took > 0.9 * nt.limit:
                healthy = False         # a caller may also bound the whole load
            if slow and err is not None:
                st.probe("late")
            if len(nt.requests) - r0 > 1:
                st.probe("redirected")
            for b in c["script"]:
                for what in ("chunked", "gzip"):
                    if what in (b.get("framing"), b.get("encoding")):
                        st.probe(what)
            if c["addrs"] > 1:
                st.probe("second-address")
            st.state(sorted(set(nt.fired)), [b.get("framing") for b in c["script"]][:1], type(err).__name__, c["timeout"])
            st.log(ci, nt.fired, type(err).__name__, round(took, 4), nt.reads)
            if c["id"] is None:
                st.probe("unknown-id")
                expect(err is not None, "record-of-nothing", ctx)
                continue
            if err is not None:
                expect(not healthy, "failed-on-healthy-network", lambda: "%s: %s %s" % (ctx, type(err).__name__, err))
                continue
            if c["api"] == "checker":
                with judge("report"):
                    expect(isinstance(got, str) and len(got) > 1000, "report", ctx)
                    # log_url differs between URL forms
                    pages.setdefault((log_id, c["form"]), got)
                    expect_eq(got, pages[log_id, c["form"]], "report", ctx)
                continue
            with judge("record"):
                expect_eq(content(got), truth[log_id], "other-record", ctx)
                expect(sum(len(g.events) for g in got.game_list) > 0, "other-record", ctx)
            if nt.fired:
                st.probe("loaded-despite-fault")
            if ci >= len(sc["calls"]):
                st.probe("recovered")
    st.nontrivial = any(c["script"] for c in sc["calls"])
