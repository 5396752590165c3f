"""Independent reference mahjong arithmetic (34-kind count vectors).

Nothing here is shared with the code under test: a hand is a tuple of 34 counts, and the cost of a
hand is the number of tiles missing from the closest complete hand that uses no kind more than four
times.  Steps ("shanten") = cost - 1.
"""
from functools import lru_cache

INF = 99
KINDS = 34


@lru_cache(maxsize=200000)
def suit_table(counts, honor):
    """table[m][p]: least number of missing tiles to form m melds and p pairs from this suit."""
    n = len(counts)
    st = {(0, 0, 0, 0): 0}
    for i in range(n):
        ns = {}
        have = counts[i]
        seqs = (0,) if honor or i > n - 3 else range(0, 5)
        for (a, b, m, p), c in st.items():
            for s in seqs:
                if m + s > 4 or s + a + b > 4:
                    break
                for t in (0, 1):
                    if m + s + t > 4:
                        break
                    for q in (0, 1):
                        if p + q > 1:
                            break
                        used = s + a + b + 3 * t + 2 * q
                        if used > 4:
                            continue
                        k = (s, a, m + s + t, p + q)
                        v = c + (used - have if used > have else 0)
                        if v < ns.get(k, INF):
                            ns[k] = v
        st = ns
    out = [[INF, INF] for _ in range(5)]
    for (a, b, m, p), c in st.items():
        if c < out[m][p]:
            out[m][p] = c
    return tuple(map(tuple, out))


@lru_cache(maxsize=200000)
def normal_cost(c34, melds=4):
    cur = {(0, 0): 0}
    for k in range(4):
        tab = suit_table(tuple(c34[k * 9:k * 9 + 9]) if k < 3 else tuple(c34[27:34]), k == 3)
        ns = {}
        for (m, p), c in cur.items():
            for dm in range(melds - m + 1):
                for dp in range(2 - p):
                    v = c + tab[dm][dp]
                    if v < ns.get((m + dm, p + dp), INF):
                        ns[(m + dm, p + dp)] = v
        cur = ns
    return cur[(melds, 1)]


@lru_cache(maxsize=50000)
def pairs_cost(c34, pairs=7):
    two = min(pairs, sum(1 for x in c34 if x >= 2))
    one = min(pairs - two, sum(1 for x in c34 if x >= 1) - sum(1 for x in c34 if x >= 2))
    rest = pairs - two - one
    return one + 2 * rest


def cost(c34, kind, melds=4):
    return normal_cost(c34, melds) if kind == "normal" else pairs_cost(c34)


def add(c34, k, d=1):
    lst = list(c34)
    lst[k] += d
    return tuple(lst)


def useful(c34, kind, melds=4):
    base = cost(c34, kind, melds)
    return {k for k in range(KINDS) if c34[k] < 4 and cost(add(c34, k), kind, melds) < base}


def analyse(c34, closed, melds):
    """steps and useful kinds of a hand after a discard, hand types merged."""
    n = normal_cost(c34, melds)
    best, us = n, set(useful(c34, "normal", melds))
    if closed:
        p = pairs_cost(c34)
        if p < n:
            best, us = p, useful(c34, "pairs")
        elif p == n:
            us = us | useful(c34, "pairs")
    return best - 1, us


def counts(ids):
    c = [0] * KINDS
    for i in ids:
        c[i // 4] += 1
    return tuple(c)


def complete(c34, closed, melds):
    return normal_cost(c34, melds) == 0 or (closed and pairs_cost(c34) == 0)


@lru_cache(maxsize=100000)
def contains_win(c34, melds=4):
    """the multiset contains melds+pair or seven distinct pairs (c34 may hold more tiles than a hand)"""
    return normal_cost(c34, melds) == 0 or (melds == 4 and pairs_cost(c34) == 0)


COLORS = "mpsz"
REDS = (16, 52, 88)


def tile_str(i):
    if i in REDS:
        return "0" + COLORS[i // 36]
    return "%d%s" % (i % 36 // 4 + 1, COLORS[i // 36])


def kind_str(k):
    return "%d%s" % (k % 9 + 1, COLORS[k // 9])


def kind_of_str(s):
    n = int(s[:-1])
    return COLORS.index(s[-1]) * 9 + (n or 5) - 1


def kind_of_tile(t):
    """kind of a Tile-like object of the code under test (public number and color)"""
    return COLORS.index(t.color) * 9 + ((t.number or 5) - 1)
