"""C02: universal replay reproduces the table after every event."""
from .. import server, table, repo, unistate
from ..core import sut, judge, expect, expect_eq, Violation
from .c01 import probes

ID = "C02"
RUNS = {"quick": 900, "thorough": 20000}
CPU_LIMIT = 90
RULE = ("a case is one simulated match and one seeded pipeline schedule: translation and replay run as cooperating tasks "
        "(eager, lazy, interleaved, several replays at once, a replay that dies at any command and is restarted); "
        "non-trivial: at least one discard")
REAL = ["mahjong.record.universe.*", "mahjong.record.utils.*", "mahjong.record.reader", "mahjong.record.player"]
STUB = ["Tenhou server and clients (dst/server.py)"]
ASSUMPTIONS = ["the abstract table model in dst/table.py and its encoding of the mjlog format",
               "an added kan may be kept as a triplet and a lone tile in the list of melds"]
STATE_MEASURE = "distinct (event kind, detail, following event kind) tuples replayed"
MUST_FIRE = ["crash-restart", "N-chi", "N-pon", "N-minkan", "N-ankan", "N-kakan", "N-kita", "chankan", "3p", "4p",
             "disconnect", "multi-agari", "abort"]


def gen(rng, tier, k):
    log = server.generate(rng, rounds=(1, 3) if tier == "quick" else (1, 8))
    return {"log": log, "mode": rng.choice(["eager", "lazy", "pair", "crash", "lenient"]),
            "turns": [[rng.randrange(4), rng.choice([1, 1, 2, 5, 20, 100])] for _ in range(rng.randint(1, 30))],
            "crash": rng.random()}


def lists(sc):
    return [["turns"]] + table.log_lists(sc["log"])


def simplify(sc):
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)
    for m in ("eager", "lazy"):
        yield dict(sc, mode=m)


def describe(sc):
    return {"players": sc["log"]["n"], "rounds": len(sc["log"]["rounds"]), "mode": sc["mode"],
            "events": sum(len(r["ev"]) for r in sc["log"]["rounds"])}


def warmup():
    repo.quiet()
    for m in ("mahjong.record.universe.executor", "mahjong.record.universe.tenhou", "mahjong.record.reader"):
        repo.mod(m)


class Replay:
    """one consumer of commands; checks the state after the last command of each event"""

    def __init__(self, states, cmds, steps, log, nm, ctx):
        self.it = states
        self.cmds = cmds
        self.i = 0
        self.steps, self.log, self.nm, self.ctx = steps, log, nm, ctx
        self.prev = None
        self.done = False

    def close_event(self, ts):
        if self.prev is not None:
            unistate.compare(self.prev, self.steps[ts].snap, self.steps[ts], self.log, self.nm, self.ctx)

    def step(self, st):
        if self.done:
            return
        try:
            state = next(self.it)
        except StopIteration:
            self.done = True
            if self.prev is not None:
                self.close_event(self.prev["global"]["time"]["timestamp"])
            return
        except Exception as e:
            raise Violation("replay-raised:%s" % type(e).__name__, "%s: after %d commands: %s" % (self.ctx, self.i, e))
        cmd = self.cmds[self.i]
        with judge("state"):
            ts = state["global"]["time"]["timestamp"]
            if self.prev is not None:
                before = self.prev["global"]["time"]["timestamp"]
                if before != ts:
                    self.close_event(before)
            part = state[cmd.prop.scope]
            part = part[self.nm.id(cmd.sub_scope_id)] if cmd.prop.scope == self.nm.S.player else part["single"]
            have = part[cmd.prop.view_property]
        expect(have == cmd.state, "command-state", "%s: command %d %s: replay holds %r" % (self.ctx, self.i, cmd, have))
        self.prev = state
        self.i += 1
        st.probe("commands")


def run(sc, st):
    log = sc["log"]
    steps = table.play(log)
    probes(st, steps, log)
    for a, b in zip(steps, steps[1:]):
        st.state(a.ev[0], a.ev[1] if a.ev[0] == "N" else "", b.ev[0], b.ev[1] if b.ev[0] == "N" else "", log["n"])
    T = repo.mod("mahjong.record.universe.tenhou")
    X = repo.mod("mahjong.record.universe.executor")
    nm = unistate.Names(repo)
    record = repo.load(table.xml_of(log, steps))
    mode = sc["mode"]
    strict = mode != "lenient"
    st.log(mode, sc["turns"], table.xml_of(log, steps))

    if mode == "lazy":
        # the replay pulls commands out of a running translation
        cmds = []

        def tee():
            for c in T.to_command_iter(record, strict):
                cmds.append(c)
                yield c

        r = Replay(iter(X.GameExecutor(strict_mode=strict).execute(tee())), cmds, steps, log, nm, "lazy replay")
        while not r.done:
            r.step(st)
        unistate.group_by_event(cmds, steps, "lazy translation")
    else:
        cmds = sut(T.to_commands, record, strict=strict)
        unistate.group_by_event(cmds, steps, "translation")
        reps = []
        count = 3 if mode == "pair" else 1
        for i in range(count):
            ex = sut(X.GameExecutor, strict_mode=strict)
            reps.append(Replay(iter(sut(ex.execute, cmds)), cmds, steps, log, nm, "replay %d" % i))
        for who, k in sc["turns"]:
            r = reps[who % len(reps)]
            for _ in range(k):
                r.step(st)
        if mode == "crash":
            # this replay dies; a new one starts from the log
            cut = int(sc["crash"] * len(cmds))
            while reps[0].i < cut and not reps[0].done:
                reps[0].step(st)
            st.fault("crash-restart")
            record2 = repo.load(table.xml_of(log, steps))
            cmds = sut(T.to_commands, record2, strict=strict)
            reps.append(Replay(iter(sut(X.GameExecutor(strict_mode=strict).execute, cmds)), cmds, steps, log, nm,
                               "restarted replay"))
        for r in reps:
            while not r.done and not (mode == "crash" and r is reps[0]):
                r.step(st)
    st.sim_time += len(steps) * 3.0
    st.nontrivial = any(s.ev[0] == "D" for s in steps)
