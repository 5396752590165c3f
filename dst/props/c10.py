"""C10: the win-rate tool counts exactly the winning experiments."""
import math
import re

from .. import repo, ref, server, console, chance
from ..core import sut, judge, expect, expect_eq, Violation

ID = "C10"
RUNS = {"quick": 900, "thorough": 40000}
CPU_LIMIT = 120
RULE = ("a case is one seeded hand, draws and experiments answered to the tool on a simulated console, run with the same "
        "seeded chance under two clocks; every draw is recorded and every experiment judged by the reference; non-trivial: "
        "some experiment wins and some does not, or the clock is irregular")
REAL = ["mahjong.win_rate_demo.main", "mahjong.container.*", "mahjong.tile", "numpy"]
STUB = ["console (dst/console.py)", "clock and randomness (dst/chance.py)"]
ASSUMPTIONS = ["hands hold no tile more than four times, draws do not exceed the 122 remaining tiles, at least one experiment",
               "draws are what the wall's sample method yields; C11 decides whether those are right"]
STATE_MEASURE = "distinct (distinct tiles, draws bucket, experiments bucket, fraction of winning discards bucket) tuples"
MUST_FIRE = ["asked-again", "default-1000", "some-win", "none-win", "all-win", "pairs-win", "clock-backwards", "clock-stalled",
             "clock-slow", "progress", "red-five", "all-drawn"]
NAMES = ("mahjong.win_rate_demo",)
LINE = re.compile(r"^discard (\S+): (\S+)% win rate \((\d+)/(\d+)\), (\S+)% rough pick rate, (\S+)% accurate pick rate$")


def text_of(rng, tiles):
    """notation in a seeded order"""
    t = list(tiles)
    if rng.random() < 0.5:
        rng.shuffle(t)
    else:
        t.sort()
    out, i = "", 0
    while i < len(t):
        c = t[i] // 36
        j = i
        while j < len(t) and t[j] // 36 == c:
            out += ref.tile_str(t[j])[0]
            j += 1
        out += ref.COLORS[c]
        i = j
    return out + rng.choice(["", "", " ", "\t", "!", "99"])


def hand(rng, n):
    free = set(range(136))
    style = rng.choice(["near", "near", "pairs", "random", "wide", "complete"])
    if style == "random":
        return rng.sample(range(136), n)
    if style == "wide":
        return [k * 4 + rng.randrange(4) for k in rng.sample(range(34), n)] if n <= 34 else rng.sample(range(136), n)
    block = server.complete_block(rng, free, 4, {"complete": 0}.get(style, rng.choice([1, 1, 2])), pairs=style == "pairs")
    block = list(block)
    rest = [t for t in range(136) if t not in block]
    rng.shuffle(rest)
    while len(block) < n:
        block.append(rest.pop())
    rng.shuffle(block)
    return block[:n]


def gen(rng, tier, k):
    answers = []
    wrong = rng.choice([0, 0, 0, 1, 2])
    for _ in range(wrong):
        answers.append(rng.choice(["", "abc", "123m", text_of(rng, hand(rng, 13)), text_of(rng, hand(rng, 15)), "z", "0z8z9z",
                                   "11111111111111"]))
    tiles = hand(rng, 14)
    answers.append(text_of(rng, tiles))
    draws = rng.choice([0, 1, 1, 2, 3, 5, 8, 12, 18, 18, 25])
    n = rng.choice([1, 2, 10, 30, 30, 60])
    blank = rng.random() < 0.03
    if rng.random() < 0.03:
        draws, n, blank = rng.choice([60, 100, 121, 122]), rng.choice([1, 2]), False
    if blank:
        draws = rng.choice([0, 1, 3])
    clocks = [rng.choice([[0.0], [0.001], [0.3, 0.0], [1.5], [100.0], [1e6, -1e6], [-1.0], [-5.0, 0.1], [0.9999, 1.0001],
                          [3600.0, 0.0, 0.0], [4000.0], [0.01, 0.01, 90000.0, 0.01], [3.2e7], [1e9, 0.1], [round(rng.uniform(-3, 3), 3) for _ in range(rng.randint(1, 6))]])
              for _ in range(2)]
    return {"answers": answers, "tiles": tiles, "wrong": wrong, "draws": draws, "n": None if blank else n,
            "blank": rng.choice(["", " ", "  \t"]), "clocks": clocks,
            "mode": rng.choice(["seed", "seed", "seed", "seed", "mixed", "zero", "one", "grid"]), "seed": rng.getrandbits(40)}


def lists(sc):
    return []


def simplify(sc):
    if sc["wrong"]:
        yield dict(sc, answers=sc["answers"][-1:], wrong=0)
    for n in (1, 2, 5, (sc["n"] or 1000) // 2, (sc["n"] or 1000) - 1):
        if 1 <= n < (sc["n"] or 1000):
            yield dict(sc, n=n)
    for d in (0, 1, 2, sc["draws"] // 2, sc["draws"] - 1):
        if 0 <= d < sc["draws"]:
            yield dict(sc, draws=d)
    yield dict(sc, mode="seed")
    yield dict(sc, clocks=[[0.001], [0.001]])
    yield dict(sc, seed=1)


def describe(sc):
    return sc


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def session(sc, ci, st):
    W = repo.mod("mahjong.win_rate_demo")
    D = repo.mod("mahjong.container.distribution")
    drawn = []
    patched = []
    for cls in (D.TileDistribution, D.StaticWall):
        if "sample" in vars(cls):
            orig = vars(cls)["sample"]

            def sample(self, *a, _orig=orig, **kw):
                rec = []
                drawn.append(rec)
                for t in _orig(self, *a, **kw):
                    rec.append(t)
                    yield t

            patched.append((cls, orig))
            cls.sample = sample
    answers = sc["answers"] + [str(sc["draws"]), sc["blank"] if sc["n"] is None else str(sc["n"])]
    con = console.Console(answers)
    clock = chance.Clock(sc["clocks"][ci], W)
    try:
        with chance.Chance(sc["mode"], sc["seed"]), con, clock:
            err = None
            try:
                W.main()
            except (Violation, MemoryError):
                raise
            except Exception as e:
                import traceback
                err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-800:])
                kind = type(e).__name__
        if err:
            raise Violation("raised:main:%s" % kind, "%s\n%s" % (err, con.text[-500:]))
    finally:
        for cls, orig in patched:
            cls.sample = orig
    st.sim_time += clock.covered
    return con, drawn


def run(sc, st):
    first = None
    total = 1000 if sc["n"] is None else sc["n"]
    if sc["n"] is None:
        st.probe("default-1000")
    if sc["wrong"]:
        st.probe("asked-again")
    irregular = False
    for ci in range(2):
        steps = sc["clocks"][ci]
        for name, cond in (("clock-backwards", min(steps) < 0), ("clock-stalled", max(steps) <= 0), ("clock-slow", max(steps) > 1)):
            if cond:
                st.fault(name)
                irregular = True
        con, drawn = session(sc, ci, st)
        if "Experiments " in con.text:
            st.probe("progress")
        with judge("listing"):
            expect_eq(con.asked, len(sc["answers"]) + 2, "questions", con.text[:600])
            again = con.text.count("Input hand:")
            expect_eq(again, len(sc["answers"]), "questions", con.text[:600])
            lines = [LINE.match(ln) for ln in con.lines() if ln.startswith("discard")]
            expect(all(lines), "listing-format", con.text[-800:])
            rows = [m.groups() for m in lines]
        with judge("draws"):
            expect_eq(len(drawn), total, "experiments", "experiments drawn")
            draws = []
            for rec in drawn:
                expect_eq(len(rec), sc["draws"], "draws", "draws of one experiment")
                c = [0] * 34
                for t in rec:
                    c[ref.kind_of_tile(t)] += 1
                draws.append(tuple(c))
                expect(all(a + b <= 4 for a, b in zip(c, ref.counts(sc["tiles"]))), "draws", lambda: "%s were drawn" % rec)
        if first is None:
            first = (rows, draws)
            c14 = ref.counts(sc["tiles"])
            kinds = [k for k in range(34) if c14[k]]
            wins = {}
            with judge("listing"):
                for k in kinds:
                    c13 = ref.add(c14, k, -1)
                    hits = 0
                    for d in draws:
                        t = tuple(a + b for a, b in zip(c13, d))
                        if ref.contains_win(t):
                            hits += 1
                            if ref.normal_cost(t) > 0:
                                st.probe("pairs-win")
                    wins[k] = hits
                expect_eq(sorted(ref.kind_of_str(r[0]) for r in rows), kinds, "tiles-listed", "")
                for tile, rate, hit, out_of, rough, acc in rows:
                    k = ref.kind_of_str(tile)
                    expect_eq((int(hit), int(out_of)), (wins[k], total), "win-count", "discard %s" % tile)
                    expect_eq(rate, "%.2f" % (wins[k] * 100 / total), "win-rate", "discard %s" % tile)
                    expect(math.isfinite(float(rough)) and math.isfinite(float(acc)), "rate-not-a-number", repr((rough, acc)))
                rates = [float(r[5]) for r in rows]
                expect(all(a >= b for a, b in zip(rates, rates[1:])), "order", repr(rates))
                expect(abs(sum(rates) - 100) <= 0.01 * len(rates) + 1e-9 * max(abs(r) for r in rates), "pick-rates-sum", repr(rates))
            for k in kinds:
                st.probe("all-win" if wins[k] == total else "none-win" if wins[k] == 0 else "some-win")
            st.state(len(kinds), sc["draws"] // 4, total // 10, sum(wins.values()) * 8 // (total * len(kinds)))
            st.log(sc["tiles"], rows)
            mixed = any(0 < w < total for w in wins.values())
        else:
            expect_eq(draws, first[1], "clock-changes-draws", "")
            expect_eq(rows, first[0], "clock-changes-listing", "clocks %s" % sc["clocks"])
    if any(t in ref.REDS for t in sc["tiles"]):
        st.probe("red-five")
    if sc["draws"] == 122:
        st.probe("all-drawn")
    st.nontrivial = mixed or irregular
