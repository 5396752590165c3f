"""C11: wall draws are without replacement and proportional to what is left."""
import math

from .. import repo, ref, chance, sched
from ..core import sut, judge, expect, expect_eq, Violation

ID = "C11"
RUNS = {"quick": 6000, "thorough": 300000}
CPU_LIMIT = 120
RULE = ("a case is one seeded wall from which several drawings are consumed in a seeded interleaving, abandoned, restarted or "
        "cancelled, under fair or extreme chance; every 40th case is a statistical one over thousands of drawings; "
        "non-trivial: at least one tile was drawn")
REAL = ["mahjong.container.distribution", "mahjong.container.set", "mahjong.tile"]
STUB = ["randomness (dst/chance.py)"]
ASSUMPTIONS = ["walls of ordinary tiles (a red five counts as a five)",
               "a deviation is reported when its chance probability is below 1e-9 per test"]
STATE_MEASURE = "distinct (wall size bucket, kinds bucket, drawings, chance mode, operation) tuples"
MUST_FIRE = ["drained", "interleaved", "abandoned", "cancelled", "statistics", "extreme-chance", "single-kind", "shared-wall",
             "picked", "reused-tileset", "whole-wall"]
NAMES = ("mahjong.container.distribution", "mahjong.container.utils")


def gen(rng, tier, k):
    stat = k % 40 == 7
    style = rng.choice(["full", "minus", "few", "few", "one", "lopsided", "lopsided"])
    c = [0] * 34
    if style in ("full", "minus"):
        c = [4] * 34
        for _ in range(0 if style == "full" else rng.randint(1, 100)):
            i = rng.randrange(34)
            c[i] = max(0, c[i] - 1)
    elif style == "one":
        c[rng.choice([0, 33, rng.randrange(34)])] = rng.randint(1, 4)
    else:
        for i in rng.sample(range(34), rng.randint(2, 8)):
            c[i] = rng.randint(1, 4)
        if style == "lopsided":
            c[rng.choice([0, 33, rng.randrange(34)])] = rng.choice([1, 9, 40])
    if not any(c):
        c[5] = 1
    if stat:
        if k % 80 == 7:
            # a small wall, drawn to the last tile
            while sum(c) > 14:
                i = rng.choice([i for i in range(34) if c[i]])
                c[i] = rng.randint(0, c[i] - 1) if sum(c) > c[i] else rng.randint(1, 12)
        return {"stat": True, "wall": c, "prefix": rng.choice([0, 1, 1, 2]), "n": 1500 if tier == "quick" else 6000,
                "seed": rng.getrandbits(40), "nested": rng.random() < 0.3, "more": rng.choice([0, 0, 0, 1, 2, 1000])}
    total = sum(c)
    n = rng.randint(1, 4)
    draws = [min(total, rng.choice([0, 1, 2, total, total, total - 1, rng.randint(0, total)])) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(1, 40)):
        ops.append([rng.randrange(n), rng.choices(["next", "restart", "cancel", "pick"], [20, 1, 1, 2])[0],
                    rng.choice([1, 1, 2, 5, 30, 200])])
    return {"stat": False, "wall": c, "draws": draws, "ops": ops, "mode": rng.choice(["seed", "seed", "mixed", "zero", "one",
                                                                                     "grid"]),
            "seed": rng.getrandbits(40), "same": rng.random() < 0.8}


def lists(sc):
    return [] if sc["stat"] else [["ops"]]


def simplify(sc):
    if sc["stat"]:
        yield dict(sc, prefix=0)
        return
    for i, x in enumerate(sc["wall"]):
        if x and sum(sc["wall"]) > 1:
            w = list(sc["wall"])
            w[i] = 0
            if sum(w):
                yield dict(sc, wall=w, draws=[min(d, sum(w)) for d in sc["draws"]])
    yield dict(sc, mode="seed")
    for i, x in enumerate(sc["draws"]):
        if x > 1:
            yield dict(sc, draws=sc["draws"][:i] + [x // 2] + sc["draws"][i + 1:])


def describe(sc):
    return dict(sc, wall="".join(ref.kind_str(k) + "*%d " % v for k, v in enumerate(sc["wall"]) if v))


def warmup():
    repo.quiet()
    for m in NAMES:
        repo.mod(m)


def tiles_of(c):
    U = repo.mod("mahjong.container.utils")
    out = {}
    S = repo.mod("mahjong.container.set").TileSet
    ts = S()
    for k, v in enumerate(c):
        if v:
            (t,) = list(U.tiles_from_string(ref.kind_str(k)))
            ts[t] = v
    return ts


def count(ts):
    c = [0] * 34
    for t, v in ts.items():
        c[ref.kind_of_tile(t)] += v
    return c


def run(sc, st):
    D = repo.mod("mahjong.container.distribution")
    if sc["stat"]:
        return statistics(sc, st, D)
    tiles = tiles_of(sc["wall"])
    wall = sut(D.StaticWall, tiles)
    walls = [wall] if sc["same"] else [sut(D.StaticWall, tiles) for _ in sc["draws"]]
    if sc["same"] and len(sc["draws"]) > 1:
        st.probe("shared-wall")
    elif len(sc["draws"]) > 1:
        st.probe("reused-tileset")
    if sum(1 for x in sc["wall"] if x) == 1:
        st.probe("single-kind")
    if sc["mode"] != "seed":
        st.fault("extreme-chance")
    live, got = {}, {}
    drawn = 0
    seen_order = []

    def fresh(i):
        live[i] = sut(walls[i % len(walls)].sample, sc["draws"][i], what="sample")
        got[i] = [0] * 34

    def unchanged(ctx):
        with judge("wall"):
            expect_eq(count(tiles), sc["wall"], "wall-changed", ctx)
            for w in walls:
                ws = [w.weight_of(t) for t in D.TileDistribution.ALL_TILES]
                have = [0] * 34
                for t, x in zip(D.TileDistribution.ALL_TILES, ws):
                    have[ref.kind_of_tile(t)] += x
                expect_eq(have, sc["wall"], "wall-changed", ctx)
                expect_eq(list(w.weights()), ws, "weights", ctx)

    def step(i, ctx):
        """-> False at the end"""
        try:
            t = next(live[i])
        except StopIteration:
            expect_eq(sum(got[i]), sc["draws"][i], "draws-missing", ctx)
            if sum(got[i]) == sum(sc["wall"]):
                expect_eq(got[i], sc["wall"], "drained", ctx)
                st.probe("drained")
            return False
        except (Violation, MemoryError):
            raise
        except Exception as e:
            raise Violation("raised:sample:%s" % type(e).__name__, "%s: %s" % (ctx, e))
        with judge("tile"):
            k = ref.kind_of_tile(t)
        got[i][k] += 1
        expect(got[i][k] <= sc["wall"][k], "drawn-too-often", lambda: "%s: %s drawn %d times of %d" % (
            ctx, ref.kind_str(k), got[i][k], sc["wall"][k]))
        expect(sum(got[i]) <= sc["draws"][i], "draws-extra", ctx)
        st.log(i, k)
        return True

    with chance.Chance(sc["mode"], sc["seed"]):
        for i in range(len(sc["draws"])):
            fresh(i)
        for oi, (i, op, n) in enumerate(sc["ops"]):
            i %= len(sc["draws"])
            ctx = "operation %d (%s of drawing %d)" % (oi, op, i)
            if op == "restart":
                st.fault("abandoned")
                fresh(i)
            elif op == "cancel":
                it = live[i]
                _, err, c, _ = sched.run_with_cancel(lambda: next(it, None), n)
                if c:
                    st.fault("cancelled")
                fresh(i)
            elif op == "pick":
                # the wall after one tile has gone
                ks = [k for k in range(34) if sc["wall"][k]]
                k = ks[n % len(ks)]
                with judge("pick"):
                    t = next(t for t in tiles if ref.kind_of_tile(t) == k)
                    w2 = sut(walls[i % len(walls)].pick, t, what="pick")
                    have = [0] * 34
                    for t2 in D.TileDistribution.ALL_TILES:
                        have[ref.kind_of_tile(t2)] += w2.weight_of(t2)
                    expect_eq(have, list(ref.add(tuple(sc["wall"]), k, -1)), "pick", ctx)
                st.probe("picked")
                unchanged(ctx)
            else:
                for _ in range(n):
                    if not step(i, ctx):
                        fresh(i)
                        break
                    drawn += 1
                seen_order.append(i)
            st.state(sum(sc["wall"]) // 20, sum(1 for x in sc["wall"] if x) // 4, len(sc["draws"]), sc["mode"], op)
        unchanged("meanwhile")
        for i in range(len(sc["draws"])):
            while step(i, "finishing drawing %d" % i):
                drawn += 1
    if len(set(seen_order)) > 1:
        st.probe("interleaved")
    unchanged("at the end")
    st.sim_time += drawn * 1.0
    st.nontrivial = drawn > 0


def statistics(sc, st, D):
    """the draw after a given prefix of draws is proportional to what is left"""
    st.probe("statistics")
    wall = sut(D.StaticWall, tiles_of(sc["wall"]))
    total = sum(sc["wall"])
    prefix = min(sc["prefix"], total - 1)
    # how many tiles are asked for, of which the first prefix + 1 are looked at
    size = min(total, prefix + 1 + sc["more"])
    if size > 20:
        size = prefix + 1
    if size == total:
        st.probe("whole-wall")
    tables = {}
    with chance.Chance("seed", sc["seed"]):
        for _ in range(sc["n"]):
            other = sut(wall.sample, 1) if sc["nested"] else None
            with judge("tile"):
                d = []
                for t in wall.sample(size):
                    d.append(ref.kind_of_tile(t))
                    if other is not None:
                        next(other, None)
                del d[prefix + 1:]
            key = tuple(sorted(d[:-1]))
            tables.setdefault(key, [0] * 34)[d[-1]] += 1
    # the marginal of the first draw, and the last one given what was drawn before
    first = [0] * 34
    used = 0
    for key, obs in sorted(tables.items()):
        left = list(sc["wall"])
        for k in key:
            left[k] -= 1
        judge_table(obs, left, "after %s" % [ref.kind_str(k) for k in key])
        used += 1
    st.state(total // 20, prefix, used)
    st.log(sorted(tables.items()))
    st.sim_time += sc["n"] * (prefix + 1.0)


def judge_table(obs, left, ctx):
    n, total = sum(obs), sum(left)
    for k in range(34):
        expect(left[k] > 0 or obs[k] == 0, "drawn-too-often", lambda: "%s: %s" % (ctx, ref.kind_str(k)))
        p = left[k] / total
        expect(tail(obs[k], n, p) > 1e-10, "not-proportional", lambda: "%s: %s was drawn %d of %d times, %d of %d are left" % (
            ctx, ref.kind_str(k), obs[k], n, left[k], total))


def tail(x, n, p):
    """two-sided bound on the probability of a count as far from n*p as x (Chernoff)"""
    if n == 0 or p in (0.0, 1.0):
        return 1.0 if x == n * p else 0.0
    q = x / n
    kl = 0.0
    if q > 0:
        kl += q * math.log(q / p)
    if q < 1:
        kl += (1 - q) * math.log((1 - q) / (1 - p))
    return 2 * math.exp(-n * kl)
