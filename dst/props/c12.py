"""C12: shared tiles and hands survive concurrency and cancellation."""
from collections import Counter
from functools import lru_cache

from .. import repo, ref, sched, server
from ..core import sut, judge, expect, expect_eq, Violation, SimCancel

ID = "C12"
RUNS = {"quick": 1200, "thorough": 60000}
CPU_LIMIT = 120
RULE = ("a case is up to four tasks of seeded tile and hand operations over shared hands, patterns, analysers and half-consumed "
        "iterators, run as simulated threads switched at seeded source lines (or cooperatively), cold or warm, some operations "
        "cancelled at a seeded line; every answer is compared with an independent calculation, everything is asked again "
        "afterwards; non-trivial: at least two tasks or a cancellation")
REAL = ["mahjong.tile.definition", "mahjong.container.set", "mahjong.container.utils", "mahjong.container.pattern.win",
        "mahjong.container.pattern.reasoning"]
STUB = ["thread scheduling (dst/sched.py: real threads, one at a time, switched at seeded lines)", "locks of the code under test"]
ASSUMPTIONS = ["threads are switched between source lines, not within one",
               "one iterator is not advanced by two threads at once"]
STATE_MEASURE = "distinct (mode, cold, operation, hand size, cancelled at line bucket) tuples"
MUST_FIRE = ["cold", "warm", "threads", "coop", "cancelled", "half-consumed", "tile", "parse", "match", "sel", "iter", "steps",
             "useful", "batch", "plain", "brute", "cmp", "show", "arith", "cancelled-cold", "far"]
COLD = ("mahjong.container.utils", "mahjong.container.pattern.win")
WARM = COLD + ("mahjong.container.pattern.reasoning",)
SIZES = [13, 14, 14, 14, 11, 8, 5, 10, 7, 4, 2, 1, 17]


def hand(rng, size=None):
    n = size or rng.choice(SIZES)
    style = rng.choice(["near", "near", "pairs", "complete", "flush"] * 4 + ["far"])
    free = set(range(136))
    if style == "flush":
        c = rng.randrange(3)
        tiles = rng.sample(range(c * 36, c * 36 + 36), min(n, 14))
    elif style == "far":
        # mostly terminals and honours of different kinds
        kinds = [0, 8, 9, 17, 18, 26] + list(range(27, 34))
        rng.shuffle(kinds)
        kinds += rng.sample([k for k in range(34) if k not in kinds], 4)
        del kinds[:rng.randrange(3)]
        tiles = [k * 4 + rng.randrange(4) for k in kinds[:n]]
    else:
        tiles = list(server.complete_block(rng, free, 4, 0 if style == "complete" else rng.choice([1, 1, 2]),
                                           pairs=style == "pairs"))
        rest = [t for t in range(136) if t not in tiles]
        rng.shuffle(rest)
        while len(tiles) < n:
            tiles.append(rest.pop())
        if n < 13:
            tiles.sort()
        tiles = tiles[:n]
    rng.shuffle(tiles)
    return tiles


def gen(rng, tier, k):
    alike = rng.random() < 0.4          # hands of one size, asked of the same analysers
    size = rng.choice(SIZES)
    hands = [hand(rng, size if alike else None) for _ in range(rng.randint(2 if alike else 1, 3))]
    if rng.random() < 0.3:
        hands.append(list(hands[0]))
    pats = [rng.choice([["n", 1, 4], ["n", 1, 3], ["n", 1, 2], ["n", 1, 1], ["n", 1, 0], ["n", 0, 4], ["n", 2, 1], ["u", 7, 0],
                        ["u", 7, 0], ["u", 3, 0]]) for _ in range(rng.randint(1, 3))]
    cold = rng.random() < (0.3 if alike else 0.6)
    mode = rng.choice(["threads", "threads", "coop"])
    tasks = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 5)):
            name = rng.choice(["tile", "tile", "parse", "match", "sel", "iter", "iter", "cmp", "show", "arith", "edit", "pair"] +
                              ([] if cold else ["steps", "useful", "batch", "steps", "useful"] * (2 if alike else 1)))
            ops.append([name, rng.randrange(4), rng.randrange(2) if alike else rng.randrange(4), rng.randrange(37), rng.choice([1, 1, 2, 5, 100])])
        tasks.append({"ops": ops, "cancel": None if k % 3 == 0 else rng.choice([None, None, rng.randint(1, 40), rng.randint(1, 400),
                                                        rng.randint(1, 5000)])})
    n = rng.choice([1, 1, 3, 30, 300])
    return {"hands": hands, "pats": pats, "cold": cold, "mode": mode, "tasks": tasks,
            "after": [[rng.choice(["steps", "useful", "batch", "sel", "match", "show"]), rng.randrange(4), rng.randrange(4), 0, 1]
                      for _ in range(2)],
            "steps": [[rng.randrange(len(tasks)), rng.randint(1, n)] for _ in range(rng.choice([3, 20, 100, 300]))],
            "focus": sched.draw_focus(rng)}


def lists(sc):
    return [["tasks"]] + [["tasks", i, "ops"] for i in range(len(sc["tasks"]))] + [["steps"], ["after"]] + [
        ["hands", i] for i in range(len(sc["hands"]))]


def simplify(sc):
    if sc.get("focus"):
        yield dict(sc, focus=None)
    if len(sc["hands"]) > 1:
        yield dict(sc, hands=sc["hands"][:1])
    if len(sc["pats"]) > 1:
        yield dict(sc, pats=sc["pats"][:1])
    for i, t in enumerate(sc["tasks"]):
        if t["cancel"]:
            yield dict(sc, tasks=[dict(u, cancel=None) if j == i else u for j, u in enumerate(sc["tasks"])])
    yield dict(sc, mode="coop")
    yield dict(sc, cold=False)


def describe(sc):
    return {"hands": ["".join(ref.tile_str(t) for t in h) for h in sc["hands"]], "pats": sc["pats"], "cold": sc["cold"],
            "mode": sc["mode"], "tasks": sc["tasks"]}


def warmup():
    repo.quiet()
    for m in WARM:
        repo.mod(m)


# ---------------------------------------------------------------------------------- reference answers
def notation(tiles):
    out = ""
    for c in range(4):
        part = "".join(ref.tile_str(t)[0] for t in tiles if t // 36 == c)
        if part:
            out += part + ref.COLORS[c]
    return out


@lru_cache(maxsize=20000)
def decompositions(c34, pat):
    kind, pairs, melds = pat
    out = set()
    if kind == "u":
        ks = [k for k in range(34) if c34[k] >= 2]

        def pick(i, chosen):
            if len(chosen) == pairs:
                out.add(tuple((k, k) for k in chosen))
                return
            for j in range(i, len(ks)):
                pick(j + 1, chosen + (ks[j],))
        pick(0, ())
        return frozenset(out)
    units = [(k, k) for k in range(34)] + [(k, k, k) for k in range(34)] + [
        (k, k + 1, k + 2) for k in range(27) if k % 9 < 7]

    def go(i, c, p, m, chosen):
        if p == 0 and m == 0:
            out.add(tuple(sorted(chosen)))
            return
        for j in range(i, len(units)):
            u = units[j]
            if (p if len(u) == 2 else m) == 0:
                continue
            if all(c[k] >= u.count(k) for k in u):
                d = list(c)
                for k in u:
                    d[k] -= 1
                go(j, d, p - (len(u) == 2), m - (len(u) == 3), chosen + (u,))
    go(0, list(c34), pairs, melds, ())
    return frozenset(out)


def unit_view(units):
    """a list of tile sets -> sorted tuple of kind tuples"""
    return tuple(sorted(tuple(sorted(k for t, n in u.items() for k in [ref.kind_of_tile(t)] * n)) for u in units))


def counts_of(ts):
    c = [0] * 34
    for t, n in ts.items():
        c[ref.kind_of_tile(t)] += n
    return tuple(c)


class World:
    """the objects all tasks share"""

    def __init__(self, sc):
        self.sc = sc
        self.U = repo.mod("mahjong.container.utils")
        self.W = repo.mod("mahjong.container.pattern.win")
        self.D = repo.mod("mahjong.tile.definition")
        self.R = None
        self.texts = [notation(h) for h in sc["hands"]]
        self.c34 = [ref.counts(h) for h in sc["hands"]]
        self.hands = [None] * len(self.texts)
        self.pats = [None] * len(sc["pats"])
        self.analysers = {}
        self.looks = {}

    def reasoning(self):
        self.R = repo.mod("mahjong.container.pattern.reasoning")

    def hand(self, i):
        i %= len(self.texts)
        if self.hands[i] is None:
            h = self.U.tile_set_from_string(self.texts[i])
            if self.hands[i] is None:
                self.hands[i] = h
                self.looks[i] = look(h)
        return self.hands[i]

    def pat(self, j):
        j %= len(self.sc["pats"])
        if self.pats[j] is None:
            kind, a, b = self.sc["pats"][j]
            self.pats[j] = self.W.NormalTypeWin(a, b) if kind == "n" else self.W.UniquePairs(a)
        return self.pats[j]

    def analyser(self, i, j):
        """an analyser for hand i: (analyser, kind, melds)"""
        n = sum(self.c34[i % len(self.c34)])
        kind = "pairs" if n >= 13 and j % 3 == 2 else "normal"
        melds = min(4, n // 3)
        key = (kind, melds)
        if key not in self.analysers:
            self.analysers[key] = self.R.HeuristicPatternMatchWaiting(
                self.W.UniquePairs() if kind == "pairs" else self.W.NormalTypeWin(melds=melds))
        return self.analysers[key], kind, melds

    def plain(self, name, kind, melds):
        """the analysers that search without heuristics, one instance of each for everyone"""
        key = (name, kind, melds)
        if key not in self.analysers:
            self.analysers[key] = getattr(self.R, name)(self.W.UniquePairs() if kind == "pairs" else
                                                        self.W.NormalTypeWin(melds=melds))
        return self.analysers[key]

    def unchanged(self, ctx):
        with judge("hand"):
            for i, want in sorted(self.looks.items()):
                expect_eq(look(self.hands[i]), want, "hand-changed", "%s: hand %s" % (ctx, self.texts[i]))
                expect_eq(counts_of(self.hands[i]), self.c34[i], "hand-wrong", ctx)


def look(h):
    return [(t.color, t.number, n) for t, n in h.items()]


def tile_facts(t):
    def kinds(ts):
        return None if ts is None else counts_of(ts)
    nx = t.next()
    return (str(t), t.color, t.number, bool(t.is_suit()), None if nx is None else ref.kind_of_tile(nx), kinds(t.flush()),
            kinds(t.triplet()), kinds(t.pair()))


def true_facts(x):
    red = x >= 34
    k = (4, 13, 22)[x - 34] if red else x
    c = ref.COLORS[k // 9]
    n = k % 9 + 1
    vec = lambda *ks: tuple(ks.count(i) for i in range(34))
    return ("%d%s" % (0 if red else n, c), c, 0 if red else n, k < 27, k + 1 if k < 27 and n < 9 else None,
            vec(k, k + 1, k + 2) if k < 27 and n < 8 else None, vec(k, k, k), vec(k, k))


def operate(w, op, local, st):
    """-> (got, want)"""
    name, a, b, x, n = op
    hi = a % len(w.texts)
    c = w.c34[hi]
    pat = tuple(w.sc["pats"][b % len(w.sc["pats"])])
    if name == "tile":
        text = true_facts(x)[0]
        if x >= 34:
            (t,) = list(w.U.tiles_from_string(text))
        else:
            t = w.D.Tile(int(text[0]), text[1])
        other = true_facts((x * 7 + a) % 34)[0]
        o = w.D.Tile(int(other[0]), other[1])
        k1, k2 = ref.kind_of_str(text), ref.kind_of_str(other)
        key = lambda k: (ref.COLORS[k // 9], k % 9)
        return ((tile_facts(t), t == o, t != o, t < o, t > o, t <= o, hash(t) == hash(o) or t != o),
                (true_facts(x), k1 == k2, k1 != k2, key(k1) < key(k2), key(k1) > key(k2), key(k1) <= key(k2), True))
    if name == "parse":
        h = w.U.tile_set_from_string(w.texts[hi])
        return (counts_of(h), len(h), look(h)), (c, sum(c), look(w.hand(hi)))
    if name == "match":
        if sum(c) > 14 and pat[0] == "n" and pat[2] == 4 and len(set(c)) > 4:
            pat = ("n", 1, 4)
        return bool(w.pat(b).match(w.hand(hi))), bool(decompositions(c, tuple(w.sc["pats"][b % len(w.sc["pats"])])))
    if name == "sel":
        p = w.pat(b)
        got = list(p.win_selections(w.hand(hi))) if x % 2 else list(p.unique_win_selections(w.hand(hi)))
        views = [unit_view(u) for u in got]
        if x % 2:
            views = sorted(set(views))
        return sorted(views), sorted(decompositions(c, pat))
    if name == "iter":
        once = x % 2 == 1
        key = (hi, b % len(w.sc["pats"]), x % 2)
        if key not in local:
            p = w.pat(b)
            local[key] = [(p.unique_win_selections if once else p.win_selections)(w.hand(hi)), set()]
        it, seen = local[key]
        for _ in range(n):
            try:
                u = next(it)
            except StopIteration:
                del local[key]
                return sorted(seen), sorted(decompositions(c, pat))
            v = unit_view(u)
            if once and v in seen:
                return v, "each only once"
            seen.add(v)
            if v not in decompositions(c, pat):
                return v, "one of %s" % sorted(decompositions(c, pat))
        st.probe("half-consumed")
        return None, None
    if name == "pair":
        # two iterators of one pattern over one or two hands, read in turns
        p = w.pat(b)
        hj = (a + n % 2) % len(w.texts)
        its = [(p.unique_win_selections if x % 2 else p.win_selections)(w.hand(i)) for i in (hi, hj)]
        seen = [[], []]
        at = 0
        while its[0] or its[1]:
            for _ in range(1 + (x >> (at % 4)) % 3):
                if its[at % 2]:
                    try:
                        seen[at % 2].append(unit_view(next(its[at % 2])))
                    except StopIteration:
                        its[at % 2] = None
            at += 1
        return ([sorted(v) if x % 2 else sorted(set(v)) for v in seen],
                [sorted(decompositions(w.c34[i], pat)) for i in (hi, hj)])
    if name == "edit":
        # a hand of one's own, changed in place between two questions
        none = w.U.tile_set_from_string("")
        h = w.hand(hi)
        h = (w.U.tile_set_from_string(w.texts[hi]) if x % 6 == 0 else h.copy() if x % 6 == 1 else h + none if x % 6 == 2 else
             h - none if x % 6 == 3 else h & h if x % 6 == 4 else h | none)
        held = [k for k in range(34) if c[k]]
        gone = held[x % len(held)]
        new = [k for k in range(34) if c[k] < 4 and k != gone][(x * 7 + n) % 30]
        d = list(c)
        d[gone] -= 1
        d[new] += 1
        d = tuple(d)
        (more,) = list(w.U.tiles_from_string("%d%s" % (new % 9 + 1, ref.COLORS[new // 9])))
        an = None
        if w.R:
            an, kind, melds = w.analyser(hi, b)
            if ref.cost(c, kind, melds) > 4 or ref.cost(d, kind, melds) > 5 or (kind == "normal" and sum(c) > 3 * melds + 2):
                an = None

        def ask():
            if an:
                return an.before_waiting_step(h)
            return bool(w.pat(b).match(h)) if sum(c) <= 14 else len(h)

        def right(v):
            if an:
                return ref.cost(v, kind, melds) - 1
            return bool(decompositions(v, pat)) if sum(c) <= 14 else sum(v)

        first = ask()
        for t in list(h):
            if ref.kind_of_tile(t) == gone:
                h[t] -= 1
                if not h[t]:
                    del h[t]
                break
        h[more] += 1
        return ((first, ask(), counts_of(h), counts_of(w.U.tile_set_from_string(w.texts[hi]))), (right(c), right(d), d, c))
    if name == "show":
        h = w.hand(hi)
        text = str(h)
        back = [0] * 34
        for t in w.U.tiles_from_string(text):
            back[ref.kind_of_tile(t)] += 1
        listed = [0] * 34
        for t in h.tiles():
            listed[ref.kind_of_tile(t)] += 1
        return ((tuple(back), repr(h) == text, len(h), tuple(listed)), (c, True, sum(c), c))
    if name in ("cmp", "arith"):
        hj = b % len(w.texts)
        d = w.c34[hj]
        p, q = w.hand(hi), w.hand(hj)
        if name == "cmp":
            order = lambda v: [((ref.COLORS[k // 9], k % 9), v[k]) for k in range(34) if v[k]]
            contained = all(s <= r for r, s in zip(c, d))
            return ((p == q, p != q, p < q, p > q, p <= q, bool(p.contains(q)), p.exclude(q) is not None),
                    (c == d, c != d, order(c) < order(d), order(c) > order(d), order(c) <= order(d), contained, contained))
        vec = lambda f: tuple(f(r, s) for r, s in zip(c, d))
        return ((counts_of(p + q), counts_of(p - q), counts_of(p & q), counts_of(p | q)),
                (vec(lambda r, s: r + s), vec(lambda r, s: max(0, r - s)), vec(min), vec(max)))
    an, kind, melds = w.analyser(hi, b)
    h = w.hand(hi)
    cost = ref.cost(c, kind, melds)
    # every line is traced in threads and where something is cancelled: far hands would take minutes
    traced = w.sc["mode"] == "threads" or any(t["cancel"] for t in w.sc["tasks"])
    if cost > (5 if traced else 8 if name == "batch" else 9) or (kind == "normal" and sum(c) > 3 * melds + 2):
        return None, None
    kinds = lambda ts: sorted(ref.kind_of_tile(t) for t in ts)
    if name in ("steps", "useful"):
        if x % 5 == 3 and cost <= (1 if sum(c) > 8 else 2):
            an = w.plain("PatternMatchWaiting", kind, melds)
            st.probe("plain")
        elif x % 5 == 4 and cost <= 1 and sum(c) <= 8:
            an = w.plain("BruteForceWaiting", kind, melds)
            st.probe("brute")
    if cost > 6:
        st.probe("far")
    if name == "steps":
        return an.before_waiting_step(h), cost - 1
    if name == "useful":
        if cost == 0:
            return None, None
        if x % 2:
            return kinds(an.useful_tiles(h)), sorted(ref.useful(c, kind, melds))
        s, u = an.waiting_and_useful_tiles(h)
        return (s, kinds(u)), (cost - 1, sorted(ref.useful(c, kind, melds)))
    if name == "batch":
        if sum(c) != (14 if kind == "pairs" else 3 * melds + 2):
            return None, None
        got = [(ref.kind_of_tile(t), s, kinds(u)) for t, s, u in an.batch_waiting_and_useful_tiles(h)]
        want = []
        for k in range(34):
            if c[k]:
                c13 = ref.add(c, k, -1)
                v = ref.cost(c13, kind, melds)
                if cost == 0 or v == cost:
                    want.append((k, v - 1, sorted(ref.useful(c13, kind, melds))))
        return sorted(got), want
    raise ValueError(name)


def run(sc, st):
    if not sc["tasks"] or not sc["hands"] or not sc["pats"] or any(not h for h in sc["hands"]):
        return
    st.probe("cold" if sc["cold"] else "warm")
    st.probe(sc["mode"])
    with sched.SimLocks():
        if sc["cold"]:
            with repo.Fresh(*COLD):
                body(sc, st)
        else:
            body(sc, st)


def body(sc, st):
    w = World(sc)
    if not sc["cold"]:
        w.reasoning()
    cancels = [0]

    def perform(ti, oi, op, local):
        ctx = "task %d operation %d %s on %s" % (ti, oi, op, w.texts)
        try:
            got, want = operate(w, op, local, st)
        except (Violation, MemoryError, SimCancel):
            raise
        except Exception as e:
            import traceback
            raise Violation("raised:%s:%s" % (op[0], type(e).__name__), "%s: %s\n%s" % (ctx, e, traceback.format_exc()[-1200:]))
        if got is not None or want is not None:
            expect_eq(got, want, "wrong-" + op[0], ctx)
            st.probe(op[0])
        if sc["mode"] == "coop":
            w.unchanged(ctx)

    if sc["mode"] == "threads":
        def task(ti, t):
            local = {}
            for oi, op in enumerate(t["ops"]):
                try:
                    perform(ti, oi, op, local)
                except SimCancel:
                    cancels[0] += 1
                    local.clear()       # what was cancelled is of no more use
        jobs = [sched.Task(lambda ti=ti, t=t: task(ti, t), t["cancel"]) for ti, t in enumerate(sc["tasks"])]
        s = sched.Sched(jobs, focus=sc.get("focus"))
        s.run(sc["steps"])
        st.log(s.trace)
        st.probe("switches", s.switches)
        for j in jobs:
            if j.cancelled:
                st.fault("cancelled")
                if sc["cold"]:
                    st.fault("cancelled-cold")
            if isinstance(j.error, Violation):
                raise j.error
            if j.error is not None and not isinstance(j.error, SimCancel):
                raise Violation("thread-error", repr(j.error))
    else:
        locals_ = [{} for _ in sc["tasks"]]
        at = [0] * len(sc["tasks"])
        order = [i % len(sc["tasks"]) for i, _ in sc["steps"]] + list(range(len(sc["tasks"]))) * 6
        for ti in order:
            t = sc["tasks"][ti]
            oi = at[ti]
            if oi >= len(t["ops"]):
                continue
            at[ti] += 1
            if t["cancel"] and oi == 0:
                res, err, c, lines = sched.run_with_cancel(lambda: perform(ti, oi, t["ops"][oi], locals_[ti]), t["cancel"])
                st.log(ti, oi, c, lines)
                if c:
                    st.fault("cancelled")
                    if sc["cold"]:
                        st.fault("cancelled-cold")
                    locals_[ti].clear()
                elif isinstance(err, Exception):
                    raise err
            else:
                perform(ti, oi, t["ops"][oi], locals_[ti])
            st.log(ti, oi)
    for t in sc["tasks"]:
        for op in t["ops"]:
            st.state(sc["mode"], sc["cold"], op[0], len(sc["hands"][op[1] % len(sc["hands"])]), (t["cancel"] or 0) // 20 % 20)
    # afterwards everything is asked again, alone
    w.reasoning()
    w.unchanged("afterwards")
    mode, sc["mode"] = sc["mode"], "coop"
    for ti, t in enumerate(sc["tasks"]):
        for oi, op in enumerate(t["ops"]):
            perform("again %d" % ti, oi, op, {}) if isinstance(ti, str) else perform(ti, oi, op[:4] + [1000], {})
    for oi, op in enumerate(sc["after"]):
        perform(-1, oi, op, {})
    for x in range(37):
        perform(-2, x, ["tile", x, 0, x, 1], {})
    sc["mode"] = mode
    st.sim_time += sum(len(t["ops"]) for t in sc["tasks"]) * 0.001
    st.nontrivial = len(sc["tasks"]) > 1 or any(t["cancel"] for t in sc["tasks"])
