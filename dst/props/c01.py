"""C01: game-state trackers equal the real table after every event."""
from .. import server, table, repo
from ..core import sut, judge, expect, expect_eq, Violation

ID = "C01"
RUNS = {"quick": 1300, "thorough": 30000}
CPU_LIMIT = 60
RULE = ("a case is one simulated match (server, 3-4 clients, connection loss) and one seeded schedule in which the "
        "trackers of every player are advanced singly, in batches, lazily, in collections, and resumed from earlier "
        "values; non-trivial: at least one round with a draw and a discard")
REAL = ["mahjong.record.state", "mahjong.record.player", "mahjong.record.utils", "mahjong.record.reader"]
STUB = ["Tenhou server and clients (dst/server.py)"]
ASSUMPTIONS = ["the abstract table model in dst/table.py and its encoding of the mjlog format"]
STATE_MEASURE = "distinct (tracker, mode, kind of last event, seat relation) tuples reached"
MUST_FIRE = ["resume", "N-chi", "N-pon", "N-minkan", "N-ankan", "N-kakan", "N-kita", "tile0-discard", "chankan", "3p", "4p",
             "disconnect", "multi-agari", "abort", "unknown-event"]

MODES = ["scan", "passed", "with", "key"]


def gen(rng, tier, k):
    log = server.generate(rng, rounds=(1, 3) if tier == "quick" else (1, 8), force={"unknown": rng.choice([0, 0, 0.03])})
    ops = []
    for _ in range(rng.randint(0, 40)):
        if rng.random() < 0.25:
            ops.append(["resume", rng.randrange(64), rng.randrange(1000)])
        else:
            ops.append([rng.choice(MODES), rng.randrange(64), rng.choice([0, 1, 1, 2, 3, 5, 8, 30, 200])])
    return {"log": log, "ops": ops, "rest": [rng.choice(MODES[:3]) for _ in range(8)], "chunk": rng.randint(1, 40)}


def lists(sc):
    return [["ops"]] + table.log_lists(sc["log"])


def simplify(sc):
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)
    if sc["ops"]:
        yield dict(sc, ops=[])
    yield dict(sc, rest=["scan"] * 8)


def describe(sc):
    return {"players": sc["log"]["n"], "rounds": len(sc["log"]["rounds"]),
            "events": sum(len(r["ev"]) for r in sc["log"]["rounds"]), "schedule": sc["ops"][:12]}


def warmup():
    repo.quiet()
    for m in ("mahjong.record.state", "mahjong.record.reader"):
        repo.mod(m)


def meld_view(m):
    return (frozenset(m.self_tiles), frozenset(m.borrowed_tiles), (m.from_who if m.borrowed_tiles else None))


def truth(kind, p, snap):
    if kind == "dora":
        return list(snap.dora)
    if kind == "unseen":
        return set(snap.invisible)
    pl = snap.players[p]
    if kind == "hand":
        return set(pl.hand)
    if kind == "discards":
        return [t for t, _ in pl.discards]
    return [(m.own, m.called, m.frm if m.called else None) for m in pl.melds]


def view(kind, value):
    if kind == "melds":
        return [meld_view(m) for m in value]
    if kind in ("hand", "unseen"):
        expect(len(value) == len(set(value)), "shape", "tiles counted twice: %r" % (value,))
        return set(value)
    return list(value)


def probes(st, steps, log):
    st.probe("%dp" % log["n"])
    prev = None
    for s in steps:
        e = s.ev
        if e[0] == "N":
            st.probe("N-" + e[1])
        elif e[0] == "AGARI":
            if prev and prev[0] == "N":
                st.probe("chankan")
            if prev and prev[0] == "AGARI":
                st.probe("multi-agari")
        elif e[0] == "RYU" and e[1].get("type"):
            st.probe("abort")
        elif e[0] == "BYE":
            st.fault("disconnect")
        elif e[0] == "UN":
            st.fault("reconnect")
        elif e[0] == "D" and e[2] == 0:
            st.probe("tile0-discard")
        elif e[0] == "X":
            st.probe("unknown-event")
        if e[0] not in ("BYE", "UN", "X"):
            prev = e


def run(sc, st):
    log = sc["log"]
    steps = table.play(log)
    n = log["n"]
    probes(st, steps, log)
    S = repo.mod("mahjong.record.state")
    record = repo.load(table.xml_of(log, steps))
    with judge("record.events"):
        events = list(record.events)
        expect_eq(len(events), len(steps), "events", "number of events loaded")
    initial = table.Table(log).snap
    snaps = [initial] + [s.snap for s in steps]

    class Cursor:
        def __init__(self, parts, state):
            self.parts = parts        # [(name in the collection or None, kind, player)]
            self.state = state
            self.pos = 0              # events seen
            self.saved = [(0, state, self.values(state))]

        def values(self, state):
            with judge("tracker.value"):
                if self.parts[0][0] is None:
                    return [state.value]
                return [getattr(state.value, name).value for name, _, _ in self.parts]

        def check(self, mode):
            vals = self.values(self.state)
            for (name, kind, p), v in zip(self.parts, vals):
                with judge("tracker.value"):
                    got = view(kind, v)
                want = truth(kind, p, snaps[self.pos])
                if got != want:
                    ev = steps[self.pos - 1] if self.pos else None
                    raise Violation("tracker-%s" % kind, "player %s after event %d %s (mode %s)\n got %r\nwant %r" % (
                        p, self.pos - 1, ev and (ev.tag, ev.attrs), mode, got, want))
                last = steps[self.pos - 1].ev if self.pos else ["start"]
                st.state(kind, mode, last[0], last[1] if last[0] == "N" else "", p == (last[2] if last[0] == "N" else
                                                                                         last[1] if len(last) > 1 else 0))
            self.saved.append((self.pos, self.state, vals))

        def advance(self, mode, k):
            k = min(k, len(events) - self.pos)
            batch = events[self.pos:self.pos + k]
            st.log(mode, k, self.pos)
            if mode == "scan":
                for e in batch:
                    self.state = sut(self.state.scan, e, what="scan")
                    self.pos += 1
                    self.check(mode)
            elif mode == "with":
                it = sut(self.state.with_events, batch, what="with_events")
                for e in batch:
                    self.state = sut(next, it, what="with_events")
                    self.pos += 1
                    self.check(mode)
            elif mode == "passed":
                self.state = sut(self.state.passed_events, iter(batch) if k % 2 else batch, what="passed_events")
                self.pos += k
                self.check(mode)
            else:
                last = self.state
                for s in sut(self.state.with_key_events, batch, what="with_key_events"):
                    last = s
                self.state = last
                self.pos += k
                self.check(mode)

    def make():
        cs = []
        for p in range(n):
            pl = record.players[p]
            cs.append(Cursor([(None, "hand", p)], sut(S.PlayerHand, pl)))
            cs.append(Cursor([(None, "melds", p)], sut(S.PlayerMeld, pl)))
            cs.append(Cursor([(None, "discards", p)], sut(S.DiscardTiles, pl)))
        cs.append(Cursor([(None, "dora", None)], sut(S.DoraIndicators)))
        cs.append(Cursor([(None, "unseen", None)], sut(S.InvisibleTiles, n)))
        parts, kw = [], {}
        for p in range(n):
            pl = record.players[p]
            for kind, cls in (("hand", S.PlayerHand), ("melds", S.PlayerMeld), ("discards", S.DiscardTiles)):
                name = "%s%d" % (kind, p)
                parts.append((name, kind, p))
                kw[name] = sut(cls, pl)
        parts += [("dora", "dora", None), ("unseen", "unseen", None)]
        kw["dora"], kw["unseen"] = sut(S.DoraIndicators), sut(S.InvisibleTiles, n)
        cs.append(Cursor(parts, sut(S.GameStateCollection, **kw)))
        return cs

    cursors = make()
    for c in cursors:
        c.check("start")
    for op in sc["ops"]:
        c = cursors[op[1] % len(cursors)]
        if op[0] == "resume":
            st.fault("resume")
            i = op[2] % len(c.saved)
            pos, state, vals = c.saved[i]
            c.state, c.pos = state, pos
            c.check("resumed")
        else:
            c.advance(op[0], op[2])
    for i, c in enumerate(cursors):
        mode = sc["rest"][i % len(sc["rest"])]
        while c.pos < len(events):
            c.advance(mode, sc["chunk"])
    for c in cursors:
        for pos, state, vals in c.saved:
            with judge("tracker.value"):
                now = [view(kind, v) for (_, kind, _), v in zip(c.parts, vals)]
                again = [view(kind, v) for (_, kind, _), v in zip(c.parts, c.values(state))]
            want = [truth(kind, p, snaps[pos]) for _, kind, p in c.parts]
            expect_eq(now, want, "value-changed", "value handed out after event %d changed later" % (pos - 1))
            expect_eq(again, want, "tracker-changed", "tracker after event %d changed later" % (pos - 1))
    st.sim_time += len(steps) * 3.0
    st.nontrivial = any(s.ev[0] == "D" for s in steps)
