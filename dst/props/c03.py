"""C03: strict replay rejects exactly the logs that contradict themselves."""
import unicodedata
from collections import Counter
from urllib.parse import quote, unquote

from .. import server, table, repo, ref
from ..core import sut, judge, expect, expect_eq, Violation, Invalid

ID = "C03"
RUNS = {"quick": 2200, "thorough": 60000}
CPU_LIMIT = 60
RULE = ("a case is one simulated match whose log then loses, repeats, reorders or alters events or gains events of "
        "unknown kind, replayed strictly and leniently through a lazily coupled translation; non-trivial: at least one "
        "fault was applied")
REAL = ["mahjong.record.universe.*", "mahjong.record.utils.*", "mahjong.record.reader"]
STUB = ["Tenhou server and clients (dst/server.py)", "log corruption (this module)"]
ASSUMPTIONS = ["the reference replayer in dst/props/c03.py: asserted facts are player names, scores at the start and end of "
               "rounds, and the winner's hand; a removed tile is identified by its spelling"]
STATE_MEASURE = "distinct (faults applied, kind of contradiction, mode) tuples"
MUST_FIRE = ["drop", "dup", "swap", "move", "tile", "sc", "ten", "name", "hai", "who", "unknown", "delta", "bare", "aka", "rename",
             "contradiction:score", "contradiction:hand", "contradiction:name", "contradiction:missing", "accepted"]
KINDS = ["drop", "dup", "swap", "move", "tile", "sc", "ten", "name", "hai", "who", "unknown", "delta", "rename", "bare", "aka"]


def other_name(name, x):
    """a name that is not the same, often by very little"""
    for i in range(10):
        new = [name + "x", "Z", name.swapcase(), name + " ", " " + name, name.upper(), name + "\u3000", name[::-1],
               unicodedata.normalize("NFD", name), name.replace("0", "O") + "\u200b"][(x + i) % 10]
        if new != name and new.strip():
            return new


def applied(base, faults, n):
    """the faulty log: list of (tag, attrs); records which faults took effect"""
    log = [(t, dict(a)) for t, a in base]
    done = []

    def pick(pred, k):
        c = [i for i in range(first, len(log)) if pred(*log[i])]
        return c[k % len(c)] if c else None

    for f in faults:
        kind, k, x = f
        first = next(i for i, (t, a) in enumerate(log) if t == "INIT")
        i = None
        if kind in ("drop", "dup", "swap", "move"):
            i = first + k % (len(log) - first)
            if "owari" in log[i][1]:
                continue
            if kind == "drop":
                if i == first:
                    continue
                del log[i]
            elif kind == "dup":
                log.insert(i, (log[i][0], dict(log[i][1])))
            elif kind == "swap":
                if i + 1 >= len(log) or "owari" in log[i + 1][1] or i == first:
                    continue
                log[i], log[i + 1] = log[i + 1], log[i]
            else:
                if i == first:
                    continue
                e = log.pop(i)
                log.insert(first + 1 + x % (len(log) - first - 1), e)
        elif kind == "bare":
            # a draw is lost, or another tile, of a client that has called as often as anyone in the log
            best, calls = 0, Counter()
            where = []
            for j in range(first, len(log)):
                t, a = log[j]
                if t == "INIT":
                    calls = Counter()
                elif t == "N":
                    calls[int(a["who"])] += 1
                elif t[0] in "TUVW" and t[1:].isdigit() and calls["TUVW".index(t[0])]:
                    c = calls["TUVW".index(t[0])]
                    if c > best:
                        best, where = c, []
                    if c == best:
                        where.append(j)
            if not where:
                continue
            i = where[k % len(where)]
            if x % 2:
                del log[i]
            else:
                log[i] = (log[i][0][0] + str((int(log[i][0][1:]) + [4, 36, 60][x % 3]) % 136), {})
        elif kind == "tile":
            i = pick(lambda t, a: t[0] in "TUVWDEFG" and t[1:].isdigit(), k)
            if i is None:
                continue
            t = log[i][0]
            log[i] = (t[0] + str((int(t[1:]) + [1, 4, 2, 17, 36, 60][x % 6]) % 136), {})
        elif kind in ("sc", "delta"):
            i = pick(lambda t, a: "sc" in a, k)
            if i is None:
                continue
            v = log[i][1]["sc"].split(",")
            j = (x % n) * 2 + (kind == "delta")
            v[j] = str(int(v[j]) + [1, -1, 10, 7, 100][x % 5])
            log[i][1]["sc"] = ",".join(v)
        elif kind == "ten":
            i = pick(lambda t, a: t == "INIT", k)
            v = log[i][1]["ten"].split(",")
            v[x % n] = str(int(v[x % n]) + [1, -10, 5][x % 3])
            log[i][1]["ten"] = ",".join(v)
        elif kind == "name":
            i = pick(lambda t, a: t == "UN" and any(a.get("n%d" % j) for j in range(n)), k)
            if i is None:
                continue
            key = sorted(q for q in log[i][1] if q in ("n0", "n1", "n2", "n3") and log[i][1][q])[0]
            log[i][1][key] = quote(other_name(unquote(log[i][1][key]), x))
        elif kind == "rename":
            # a second full list of players, possibly with another name
            un = next(dict(a) for t, a in log if t == "UN")
            if x % 3:
                un["n%d" % (x % n)] = quote(other_name(unquote(un["n%d" % (x % n)]), x // 3))
            log.insert(first + k % (len(log) - first - 1), ("UN", un))
        elif kind == "hai":
            i = pick(lambda t, a: t == "AGARI", k)
            if i is None:
                continue
            a = log[i][1]
            v = a["hai"].split(",")
            j = x % len(v)
            if v[j] == a["machi"]:
                j = (j + 1) % len(v)
            if v[j] == a["machi"]:
                continue
            if x % 4 == 3 and len(v) > 1:
                del v[j]
            else:
                v[j] = str((int(v[j]) + [1, 4, 36][x % 3]) % 136)
            a["hai"] = ",".join(v)
        elif kind == "aka":
            # a five of the winner's hand becomes the red one, or the other way round
            c = [j for j in range(len(log)) if log[j][0] == "AGARI" and any(
                int(q) // 4 in (4, 13, 22) and q != log[j][1]["machi"] for q in log[j][1]["hai"].split(","))]
            if not c:
                continue
            i = c[k % len(c)]
            a = log[i][1]
            v = a["hai"].split(",")
            f = [j for j, q in enumerate(v) if int(q) // 4 in (4, 13, 22) and q != a["machi"]]
            j = f[x % len(f)]
            q = int(v[j])
            v[j] = str(q + 1 if q % 4 == 0 else q - q % 4)
            a["hai"] = ",".join(v)
        elif kind == "who":
            i = pick(lambda t, a: t in ("N", "REACH", "BYE") and "who" in a, k)
            if i is None:
                continue
            log[i][1]["who"] = str((int(log[i][1]["who"]) + 1 + x) % n)
        elif kind == "unknown":
            i = k % (len(log) - 1)
            log.insert(i, (["CHAT", "ZZ", "INIT2", "T", "DORAS", "n", "T5A", "D7_", "U1.5", "NN", "DORA2", "N7", "AGARI2", "BYE0", "REACH1", "UN2", 
                               "RYUUKYOKU3", "SHUFFLE1", "GO0", "TAIKYOKU2"][x % 20], [{}, {"who": "1"}, {"hai": "3"}][x % 3]))
        done.append(kind)
    return log, done


KNOWN = ("SHUFFLE", "GO", "UN", "BYE", "TAIKYOKU", "INIT", "N", "DORA", "REACH", "AGARI", "RYUUKYOKU")


def known(tag):
    return tag in KNOWN or tag[0] in "TUVWDEFG" and tag[1:].isdigit()


def loadable(log):
    ends = None
    if "owari" not in log[-1][1]:
        return False
    for t, a in log:
        if t == "INIT":
            if ends == 0:
                return False
            ends = 0
        elif t in ("AGARI", "RYUUKYOKU") and ends is not None:
            ends += 1
    return True


def nums(s):
    return [int(x) for x in s.split(",")]


def meld_own(m):
    """tiles taken out of the caller's hand, decoded independently of the code under test"""
    m = int(m)
    kui = m & 3
    if m & 4:
        t6 = m >> 10
        r, base = t6 % 3, t6 // 3
        k = base // 7 * 9 + base % 7
        t = [(k + i) * 4 + (m >> s & 3) for i, s in enumerate((3, 5, 7))]
        del t[r]
        return t
    if m & 8:
        u, t7 = m >> 5 & 3, m >> 9
        t = [t7 // 3 * 4 + i for i in range(4) if i != u]
        del t[t7 % 3]
        return t
    if m & 16:
        return [(m >> 9) // 3 * 4 + (m >> 5 & 3)]
    if m & 32:
        return [m >> 8]
    t = [(m >> 8) // 4 * 4 + i for i in range(4)]
    if kui:
        t.remove(m >> 8)
    return t


class Ref:
    """names, hands and scores as the log tells them; mode strict or lenient"""

    def __init__(self, n, strict):
        self.n, self.strict = n, strict
        self.names = [None] * n
        self.hands = [None] * n
        self.scores = [None] * n
        self.fail = None      # (kind, fatal in both modes)

    def differs(self, what):
        if self.strict and self.fail is None:
            self.fail = what

    def remove(self, p, ids):
        for t in ids:
            s = ref.tile_str(t)
            if self.hands[p][s] <= 0:
                self.fail = self.fail or "missing"
                return
            self.hands[p][s] -= 1

    def settle(self, a):
        sc = nums(a["sc"])
        for p in range(self.n):
            if self.scores[p] is not None and self.scores[p] != sc[2 * p] * 100:
                self.differs("score")
            self.scores[p] = sc[2 * p] * 100 + sc[2 * p + 1] * 100

    def feed(self, tag, a):
        """-> the kind of contradiction found in this event, or None"""
        self.fail = None
        if tag == "UN":
            for p in range(self.n):
                if a.get("n%d" % p, "").strip():
                    nm = unquote(a["n%d" % p])
                    if self.names[p] is not None and self.names[p] != nm:
                        self.differs("name")
                    self.names[p] = nm
        elif tag == "INIT":
            ten = nums(a["ten"])
            for p in range(self.n):
                self.hands[p] = Counter(ref.tile_str(t) for t in nums(a["hai%d" % p]))
                if self.scores[p] is not None and self.scores[p] != ten[p] * 100:
                    self.differs("score")
                self.scores[p] = ten[p] * 100
        elif tag == "N":
            self.remove(int(a["who"]), meld_own(a["m"]))
        elif tag == "REACH":
            if a["step"] == "2":
                self.scores[int(a["who"])] -= 1000
        elif tag == "AGARI":
            who = int(a["who"])
            hand = Counter(ref.tile_str(t) for t in nums(a["hai"]))
            if who != int(a["fromWho"]):
                hand[ref.tile_str(int(a["machi"]))] -= 1
            if +hand != +self.hands[who]:
                self.differs("hand")
            self.hands[who] = hand
            self.settle(a)
        elif tag == "RYUUKYOKU":
            if "sc" in a:
                self.settle(a)
        elif tag[0] in "TUVW" and tag[1:].isdigit():
            p = "TUVW".index(tag[0])
            if p < self.n:
                self.hands[p][ref.tile_str(int(tag[1:]))] += 1
        elif tag[0] in "DEFG" and tag[1:].isdigit():
            self.remove("DEFG".index(tag[0]), [int(tag[1:])])
        return self.fail


def gen(rng, tier, k):
    kinds = rng.sample(KINDS, rng.randint(1, 4))
    force = {"script": 0.9, "scripts": ["calls4"]} if "bare" in kinds else {}
    log = server.generate(rng, rounds=(1, 3), max_turns=rng.choice([None, 12, 25]), force=force)
    base = [(s.tag, s.attrs) for s in table.play(log)]
    for _ in range(20):
        faults = [[rng.choice(kinds), rng.randrange(10000), rng.randrange(60)] for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6]))]
        if force and rng.random() < 0.5:
            faults = [["bare", rng.randrange(10000), rng.randrange(60)]]
        if loadable(applied(base, faults, log["n"])[0]):
            break
    else:
        faults = []
    return {"log": log, "faults": faults}


def lists(sc):
    return [["faults"]] + table.log_lists(sc["log"])


def simplify(sc):
    for lg in table.log_simplify(sc["log"]):
        yield dict(sc, log=lg)


def describe(sc):
    return {"players": sc["log"]["n"], "events": sum(len(r["ev"]) for r in sc["log"]["rounds"]), "faults": sc["faults"]}


def warmup():
    repo.quiet()
    for m in ("mahjong.record.universe.executor", "mahjong.record.universe.tenhou", "mahjong.record.reader"):
        repo.mod(m)


def run(sc, st):
    base = [(s.tag, s.attrs) for s in table.play(sc["log"])]
    n = sc["log"]["n"]
    log, done = applied(base, sc["faults"], n)
    if not loadable(log):
        raise Invalid("not loadable")
    for k in done:
        st.fault(k)
    xml = table.to_xml(log)
    st.log(xml)
    F = repo.mod("mahjong.record.universe.format")
    T = repo.mod("mahjong.record.universe.tenhou")
    X = repo.mod("mahjong.record.universe.executor")
    P = F.PlayerView
    record = repo.load(xml)

    for strict in (True, False):
        rf = Ref(n, strict)
        pulled, yielded = [], []

        def tee():
            for c in T.to_command_iter(record, False):
                pulled.append(c.timestamp)
                yield c

        err = None
        last_state = {}
        try:
            for state in X.GameExecutor(strict_mode=strict).execute(tee()):
                with judge("state"):
                    ts = state["global"]["time"]["timestamp"]
                yielded.append(ts)
                last_state[ts] = state
        except Exception as e:
            err = e
        want_fail, why = None, None
        prev = None
        for i, (tag, a) in enumerate(log):
            if not known(tag):
                expect(i not in last_state, "unknown-contributed", "event %d <%s> contributed a command" % (i, tag))
                continue
            why = rf.feed(tag, a)
            if why:
                want_fail = i
                break
            if i not in last_state:
                raise Violation("stopped-early" if err else "event-lost", "%s: event %d <%s %s> was not replayed, %s" % (
                    "strict" if strict else "lenient", i, tag, a, "replay raised %s: %s" % (type(err).__name__, err)
                    if err else "but no error was raised"))
            prev = i
            with judge("state"):
                part = last_state[i][F.ViewScope.player]
                for p in range(n):
                    pp = part[F.PlayerId(p)]
                    for key, want, name in ((P.name, rf.names[p], "name"), (P.score, rf.scores[p], "score")):
                        got = pp.get(key, None)
                        expect(got == want, "adopted-" + name, lambda: "%s: after event %d <%s %s> player %d %s %r, expected %r"
                               % ("strict" if strict else "lenient", i, tag, a, p, name, got, want))
                    if rf.hands[p] is not None:
                        got = +Counter(pp[P.hand])
                        expect(got == +rf.hands[p], "adopted-hand", lambda: "%s: after event %d <%s %s> player %d hand %r, "
                               "expected %r" % ("strict" if strict else "lenient", i, tag, a, p, got, +rf.hands[p]))
        mode = "strict" if strict else "lenient"
        st.state(tuple(sorted(set(done))), why, mode)
        if want_fail is None:
            expect(err is None, "rejected", lambda: "%s replay rejected a consistent log: %s: %s" % (
                mode, type(err).__name__, err))
            if strict:
                st.probe("accepted")
        else:
            st.probe("contradiction:" + why)
            ctx = lambda: "%s: event %d <%s %s> contradicts the replayed state (%s)" % (
                mode, want_fail, log[want_fail][0], log[want_fail][1], why)
            expect(err is not None, "accepted-" + why, ctx)
            expect(max(pulled, default=-1) <= want_fail, "late-" + why, lambda: ctx() + ", noticed at event %d only" %
                   max(pulled))
    # strict translation
    unknown = [i for i, (tag, a) in enumerate(log) if not known(tag)]
    rf = Ref(n, False)
    fatal = any(rf.feed(t, a) == "missing" for t, a in log)
    if not fatal:
        try:
            strict_cmds = T.to_commands(record, strict=True)
            err = None
        except Exception as e:
            err = e
        if unknown:
            expect(err is not None, "unknown-accepted", "strict translation accepted <%s>" % log[unknown[0]][0])
        else:
            expect(err is None, "strict-translation", lambda: "strict translation of known events raised %s: %s" % (
                type(err).__name__, err))
        if unknown:
            keep = [i for i in range(len(log)) if i not in set(unknown)]
            clean = repo.load(table.to_xml([log[i] for i in keep]))
            want = [tuple(c.to_record()) for c in sut(T.to_commands, clean, strict=False)]
            got = [tuple(c.to_record()) for c in sut(T.to_commands, record, strict=False)]
            want = [(keep[w[0]],) + w[1:] for w in want]
            expect_eq(got, want, "unknown-changed-others", lambda: "events of unknown kind at %s" % unknown)
    st.sim_time += len(log) * 3.0
    st.nontrivial = bool(done)
