"""A seeded simulated Tenhou server with three or four simulated clients.

generate(rng, **limits) plays a match and returns the abstract log.  Every choice - the deal, what the
clients do, which of them lose the connection and when they return - comes from rng.
"""
import copy

from . import ref, table
from .core import Invalid
from .table import Table, all_tiles

NAMES = ["NA", "null", "nan", "None", "007", "123", "1.5", "1e5", "True", "true", "-", "NoName", "名無し", "ⓝⓐ", "A,B",
         "say\"hi\"", "it's", "<b>x</b>", "&amp;", "a&b", "{{7*7}}", "{% x %}", "50%", "%41", "%s", "a+b", "a b", "x=y",
         "[1]", "[]", "{}", "a;b", "ＡＢ", "日本語の名前", "é", "😀", "a/b", "..", "../up", "a\\b", "#1", "?log=x", "~", "`",
         "|", "*", "CON", "N/A", "inf", "0", "00", "-1", "(^^)", "'", "\"", "<>", "PlayerView.name", "ViewScope.game",
         "$HOME", "x ", " x", "A", "B", "か\u3099", "e\u0301", "\uf9dc", "ﬁn", "Å", "\u212b", "ǅ", "İ", "ß", "ẞ"]

HEAVY = {"names": True}


def uniq_names(rng, n, plain):
    if plain:
        return ["P%d" % i for i in range(n)] + [""] * (4 - n)
    out = []
    while len(out) < n:
        x = rng.choice(NAMES) if rng.random() < 0.8 else "".join(rng.choice("abcXYZ0123456789 .-_あ漢字") for _ in range(
            rng.randint(1, 8))).strip()
        if x and (x not in out or rng.random() < 0.1):
            out.append(x)
    return out + [""] * (4 - n)


def complete_block(rng, free, n, tenpai_gap, pairs=False, melds=4):
    """tiles (indices) of a complete hand drawn from free, minus tenpai_gap random ones"""
    by = {}
    for t in free:
        by.setdefault(t // 4, []).append(t)
    for v in by.values():
        v.sort()
        rng.shuffle(v)
    out = []

    def take(k, c):
        got = by[k][:c]
        by[k] = by[k][c:]
        out.extend(got)

    kinds = sorted(by)
    if pairs:
        ks = [k for k in kinds if len(by[k]) >= 2]
        for k in rng.sample(ks, min(7, len(ks))):
            take(k, 2)
    else:
        suits = rng.choice([[0, 1, 2, 3], [0, 1, 2, 3], [0, 3], [1], [2], [1, 2], [0]])
        for _ in range(melds):
            for _try in range(60):
                if rng.random() < 0.6:
                    k = rng.choice(kinds)
                    if k >= 27 or k % 9 > 6 or k // 9 not in suits and _try < 40:
                        continue
                    if all(len(by.get(k + i, ())) >= 1 for i in range(3)):
                        for i in range(3):
                            take(k + i, 1)
                        break
                else:
                    k = rng.choice(kinds)
                    if len(by[k]) >= 3:
                        take(k, 3)
                        break
        for _try in range(60):
            k = rng.choice(kinds)
            if len(by[k]) >= 2:
                take(k, 2)
                break
    rng.shuffle(out)
    return out[:max(0, len(out) - tenpai_gap)][:13]


def deal(rng, n, cfg):
    free = set(all_tiles(n))
    hands = []
    for p in range(n):
        h = []
        x = rng.random()
        if x < cfg["near"]:
            h = complete_block(rng, free, n, rng.choice([1, 1, 2, 3, 4]), pairs=rng.random() < cfg["pairs"])
        elif x < cfg["near"] + cfg["triplets"]:
            ks = sorted({t // 4 for t in free})
            rng.shuffle(ks)
            for k in ks:
                c = sorted(t for t in free if t // 4 == k)
                take = rng.choice([2, 3, 3, 4])
                if len(c) >= take and len(h) + take <= 13:
                    rng.shuffle(c)
                    h += c[:take]
                if len(h) >= 10:
                    break
        elif x < cfg["near"] + cfg["triplets"] + cfg["yao"]:
            h = [t for t in sorted(free) if t // 4 >= 27 or t // 4 % 9 in (0, 8)]
            rng.shuffle(h)
            h = h[:rng.randint(9, 11)]
        free -= set(h)
        hands.append(h)
    rest = sorted(free)
    rng.shuffle(rest)
    for h in hands:
        while len(h) < 13:
            h.append(rest.pop())
        if rng.random() < 0.5:
            rng.shuffle(h)
        else:
            h.sort()
    return hands, rest


def config(rng, tier="quick"):
    """swarm parameters of one match"""
    return {
        "greedy": rng.choice([0.0, 0.5, 0.9, 1.0, 1.0]),
        "near": rng.choice([0.1, 0.4, 0.7, 0.95]),
        "pairs": rng.choice([0.0, 0.15, 0.5]),
        "triplets": rng.choice([0.0, 0.2, 0.5]),
        "yao": rng.choice([0.0, 0.0, 0.2]),
        "chi": rng.choice([0.0, 0.1, 0.5]),
        "pon": rng.choice([0.0, 0.2, 0.7]),
        "kan": rng.choice([0.0, 0.3, 0.9]),
        "kita": rng.choice([0.3, 0.9, 1.0]),
        "riichi": rng.choice([0.0, 0.4, 0.9]),
        "win": rng.choice([0.3, 0.8, 1.0]),
        "conn": rng.choice([0.0, 0.0, 0.01, 0.03, 0.08]),
        "unknown": 0.0,
        "abort": rng.choice([0.0, 0.3, 1.0]),
        "stop": rng.choice([0.0, 0.0, 0.01, 0.05]),
        "feed": rng.choice([0.0, 0.1, 0.4]),
        "script": rng.choice([0.0, 0.15, 0.5]),
        "echo": rng.choice([0.0, 0.0, 0.3, 0.9]),
    }


def turned(ev, d, n):
    """the event with every seat moved on by d"""
    def seat(p):
        return (p + d) % n

    def per_seat(a):
        return None if a is None else [a[(p - d) % n] for p in range(n)]

    k = ev[0]
    if k in ("T", "D", "R", "BYE", "UN"):
        return [k, seat(ev[1])] + list(ev[2:])
    if k == "N":
        if ev[1] in ("chi", "pon", "minkan"):
            return ["N", ev[1], seat(ev[2]), seat(ev[3])] + list(ev[4:])
        return ["N", ev[1], seat(ev[2])] + list(ev[3:])
    if k == "AGARI":
        a = dict(ev[1])
        a.update(who=seat(a["who"]), delta=per_seat(a["delta"]))
        a["from"] = seat(a["from"])
        return ["AGARI", a]
    if k == "RYU":
        a = dict(ev[1])
        a["delta"] = per_seat(a.get("delta"))
        if "show" in a:
            a["show"] = [seat(p) for p in a["show"]]
        return ["RYU", a]
    return list(ev)


def echo(tb, r, kyoku, honba, n):
    """the play of an earlier round once more, by other clients: the dealer's seat decides which; None if it cannot be"""
    d = (kyoku % 4 - r["kyoku"] % 4) % n
    new = {"kyoku": kyoku, "honba": honba, "dice": r["dice"], "dora": r["dora"],
           "hands": [r["hands"][(p - d) % n] for p in range(n)],
           "ev": [turned(e, d, n) for e in r["ev"] if e[0] not in ("BYE", "UN", "X")]}
    trial = copy.deepcopy(tb)
    try:
        trial.init(new)
        for e in new["ev"]:
            if e[0] == "R" and trial.scores[e[1]] < 10:
                return None
            trial.event(e)
    except Invalid:
        return None
    if trial.phase != "end":
        return None
    tb.__dict__.update(trial.__dict__)
    return new


def cousin(rng, log):
    """another match with the same course of play, by other players, perhaps in other seats"""
    n = log["n"]
    new = copy.deepcopy(log)
    d = rng.choice([0] + [d for d in range(1, n) if all(r["kyoku"] % 4 + d < n for r in log["rounds"])])
    for part in ("head", "head2"):
        new[part] = [turned(e, d, n) for e in new[part]]
    for r in new["rounds"]:
        r["kyoku"] += d
        r["hands"] = [r["hands"][(p - d) % n] for p in range(n)]
        r["ev"] = [turned(e, d, n) for e in r["ev"]]
    if rng.random() < 0.7:
        new["un"] = {"names": uniq_names(rng, n, rng.random() < 0.3), "dan": [rng.randint(0, 20) for _ in range(n)],
                     "rate": ["%.2f" % rng.uniform(900, 2400) for _ in range(n)], "sx": [rng.choice("MFC") for _ in range(n)]}
    if rng.random() < 0.5:
        for b in (1, 2, 5, 6, 7, 8):
            if rng.random() < 0.3:
                new["go"] ^= 1 << b
    if rng.random() < 0.5:
        new["start"] = [x + rng.choice([0, 0, 10, 50]) for x in new["start"]]
    try:
        table.play(new)
    except Invalid:
        return copy.deepcopy(log)
    return new


GO_BITS = [1, 2, 3, 5, 6, 7, 8, 9, 10]


def generate(rng, rounds=2, max_turns=None, n=None, cfg=None, plain_names=None, force=None):
    cfg = dict(cfg or config(rng))
    if force:
        cfg.update(force)
    n = n or rng.choice([3, 4, 4])
    go = rng.choice([0, 1, 1, 1])
    for b in GO_BITS:
        if rng.random() < 0.3:
            go |= 1 << b
    if n == 3:
        go |= 16
    start = [350] * 3 if n == 3 else [250] * 4
    if rng.random() < 0.3:
        few = rng.choice([[0, 5, 9, 10, 11, -13, 100, 250, 250, 250, 999, 1200], [0, 0, 10]])
        start = [rng.choice(few) for _ in range(n)]
    plain = plain_names if plain_names is not None else rng.random() < 0.4
    log = {
        "n": n, "go": go, "lobby": rng.choice([0, 0, 1234]), "start": start,
        "un": {"names": uniq_names(rng, n, plain), "dan": [rng.randint(0, 20) for _ in range(n)],
               "rate": ["%.2f" % rng.choice([1500.0, rng.uniform(900, 2400), rng.randint(1000, 2300), 2000.5])
                        for _ in range(n)],
               "sx": [rng.choice("MFC") for _ in range(n)]},
        "oya": 0,
        "shuffle": rng.choice([None, "mt19937ar-sha512-n288-base64,lFmMTd6CQTlzQY+Ba/==", "mt19937ar,ABC,DEF"]),
        "uma": rng.choice([[20, 0, -20], [30, 0, -30], [15, 0, -15.5]] if n == 3 else
                          [[20, 10, -10, -20], [15, 5, -5, -15], [46, 10, -20, -36], [5.5, 1.5, -2, -5], [7.25, 0.5, -0.75, -7]]),
        "decimals": rng.choice([1, 1, 1, 2]),
        "point_float": rng.random() < 0.7,
        "safe": rng.choice(["", "/", "+", "!*'()", ""]),
        "decl": rng.random() < 0.5, "sep": rng.choice(["", "", "\n"]),
        "head": [], "head2": [], "rounds": [],
        "sticks": rng.choice([0, 0, 0, 1, 12]),
    }
    tb = Table(log)
    away = [False] * n

    def conn(dst, prob):
        """seeded connection loss and return"""
        for p in range(n):
            if rng.random() < prob * (4 if away[p] else 1):
                away[p] = not away[p]
                ev = ["BYE" if away[p] else "UN", p]
                tb.event(ev)
                dst.append(ev)
        if rng.random() < cfg["unknown"]:
            dst.append(["X", rng.choice(["CHAT", "SAIKAI", "PROF", "FURITEN", "ZZ", "Q12", "H5", "NODE", "INIT2", "DORAX", "T5A", "V2X", "U6Z", "W7B", "D7_", "E8X",
                                         "F9Y", "G10.", "UNO",
                                         "NN", "AGARI2", "T1.5", "REACH1", "G"]),
                        rng.choice([{}, {"a": "1"}, {"who": "0", "text": "x&<>\""}, {"n": "2"},
                                    {"who": "1", "text": "\u9cf4\u304d\u307e\u3059 \xe9\u20ac\U0001f004"}])])

    for _ in range(rng.choice([0, 0, 1, 2])):
        conn(log["head"], cfg["conn"])
    for _ in range(rng.choice([0, 0, 1])):
        conn(log["head2"], cfg["conn"])
    kyoku = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7] if n == 4 else [0, 0, 1, 2, 4, 5, 6])
    if not go >> 3 & 1:
        kyoku %= 4
        if n == 3 and kyoku == 3:
            kyoku = 0
    honba = rng.choice([0, 0, 0, 1, 3, 11])
    want = rounds if isinstance(rounds, int) else rng.randint(*rounds)
    for ri in range(want):
        r = echo(tb, rng.choice(log["rounds"]), kyoku, honba, n) if ri and rng.random() < cfg.get("echo", 0) else None
        if r:
            result = rng.choice(["dealer", "draw", "win"])
        else:
            r, result = play_round(rng, tb, n, kyoku, honba, cfg, conn, max_turns)
        log["rounds"].append(r)
        if result == "dealer":
            honba += 1
        else:
            kyoku += 1
            if n == 3 and kyoku % 4 == 3:
                kyoku += 1
            honba = honba + 1 if result == "draw" else 0
        if kyoku // 4 > (2 if go >> 3 & 1 else 1):
            break
    return log


def relative(rng, log):
    """a second match easily taken for the first"""
    return table.twin(log) if rng.random() < 0.5 else cousin(rng, log)


SCRIPTS = ["kaze4", "multiron", "multiron", "chankan", "chankan", "kitaron", "reach4", "kanfest", "calls4", "calls4",
           "kakans"]


def script_deal(rng, n, cfg, name, dealer):
    """a deal and client habits that make a rare history likely"""
    free = set(all_tiles(n))
    hands = [[] for _ in range(n)]
    habit = {"first": {}, "decline": set(), "pon": None, "pons": None, "next": [], "cfg": {}}

    def give(p, tiles):
        hands[p] += tiles
        free.difference_update(tiles)

    def copies(k, c):
        x = sorted(t for t in free if t // 4 == k)
        rng.shuffle(x)
        return x[:c]

    def waiting_hand(p, k, style):
        """thirteen tiles waiting for kind k"""
        if style == "tanki":
            give(p, copies(k, 1))
            give(p, complete_block(rng, free, n, 0)[:12])
        else:
            give(p, copies(k - 1, 1) + copies(k + 1, 1))
            b = complete_block(rng, free - set(copies(k, 4)), n, 0, melds=3)
            give(p, b[:11])

    if name == "kaze4" and n == 4:
        w = rng.randint(27, 30)
        for p in range(n):
            t = copies(w, 1)
            give(p, t)
            habit["first"][p] = t[0]
        habit["cfg"] = {"abort": 1.0, "pon": 0.0, "kan": 0.0, "win": 0.0, "riichi": 0.0}
    elif name == "multiron":
        k = rng.choice([9, 18]) + rng.randint(1, 7)
        v = rng.randrange(n)
        t = copies(k, 1)
        give(v, t)
        habit["first"][v] = t[0]
        for p in rng.sample([p for p in range(n) if p != v], rng.randint(2, n - 1)):
            waiting_hand(p, k, "kanchan")
        habit["cfg"] = {"win": 1.0, "greedy": 1.0, "pon": 0.0, "chi": 0.0, "kan": 0.0,
                        "riichi": rng.choice([0.0, 1.0])}
    elif name == "chankan":
        k = rng.choice([9, 18]) + rng.randint(1, 7)
        a, b, c = rng.sample(range(n), 3)
        t = copies(k, 4)
        give(a, t[:3])
        give(c, t[3:])
        habit["first"][c] = t[3]
        habit["decline"].add((b, "discard"))
        habit["pon"] = a
        waiting_hand(b, k, "kanchan")
        habit["cfg"] = {"win": rng.choice([0.0, 1.0, 1.0]), "greedy": 1.0, "pon": 0.0, "chi": 0.0, "kan": 1.0,
                        "riichi": 0.0}
    elif name == "kitaron" and n == 3:
        a, b = rng.sample(range(n), 2)
        give(a, copies(30, 1))
        waiting_hand(b, 30, "tanki")
        habit["decline"].add((b, "discard"))
        habit["cfg"] = {"kita": 1.0, "win": 1.0, "keepkita": b}
    elif name == "reach4":
        for p in range(n):
            give(p, complete_block(rng, free, n, 1))
        habit["cfg"] = {"riichi": 1.0, "win": 0.0, "pon": 0.0, "chi": 0.0, "kan": 0.0, "abort": 1.0, "greedy": 1.0}
    elif name == "kanfest":
        p = rng.randrange(n)
        ks = sorted({t // 4 for t in free})
        rng.shuffle(ks)
        for k in ks[:3]:
            give(p, copies(k, 4))
        habit["cfg"] = {"kan": 1.0, "pon": 0.9, "win": 0.3}
    elif name in ("calls4", "kakans"):
        # one client is fed up to four triplets, often of neighbouring tiles, then perhaps the fourth copies
        p = rng.randrange(n)
        k = rng.choice([9, 18]) + rng.randint(0, 5)
        ks = [k + i for i in range(4)] if rng.random() < 0.6 else rng.sample(sorted({t // 4 for t in free}), 4)
        ks = ks[:4 if name == "calls4" else rng.choice([2, 3])]
        rng.shuffle(ks)
        others = [q for q in range(n) if q != p]
        for i, x in enumerate(ks):
            c = copies(x, 4)
            give(p, c[:2])
            q = others[i % len(others)]
            give(q, c[2:3])
            habit["first"].setdefault(q, []).append(c[2])
            if rng.random() < 0.6:
                habit["next"].append(c[3])
        habit["pons"] = p
        habit["cfg"] = {"pon": 0.0, "chi": 0.0, "kan": rng.choice([0.0, 1.0]) if name == "calls4" else 1.0, "riichi": 0.0,
                        "win": rng.choice([0.0, 0.5, 1.0]), "greedy": 1.0}
    rest = sorted(free)
    rng.shuffle(rest)
    for h in hands:
        del h[13:]
    used = {t for h in hands for t in h}
    rest = [t for t in all_tiles(n) if t not in used]
    rest.sort()
    rng.shuffle(rest)
    for h in hands:
        while len(h) < 13:
            h.append(rest.pop())
    return hands, rest, habit


def play_round(rng, tb, n, kyoku, honba, cfg, conn, max_turns):
    habit = {"first": {}, "decline": set(), "pon": None, "pons": None, "next": [], "cfg": {}}
    if rng.random() < cfg.get("script", 0):
        hands, wall, habit = script_deal(rng, n, cfg, rng.choice(cfg.get("scripts", SCRIPTS)), kyoku % 4)
        cfg = dict(cfg, **habit["cfg"])
    else:
        hands, wall = deal(rng, n, cfg)
    dead, live = wall[:14], wall[14:]
    dora0 = dead.pop()
    rinshan = dead[:8 if n == 3 else 4]
    doras = dead[len(rinshan):]
    if n == 3 and len(doras) < 4:
        doras = dead[8:] + live[:4]
        live = live[4:]
    if rng.random() < 0.25:
        # indicators turned over one after another are of the same kind
        for i in range(len(doras) - 1):
            for j, t in enumerate(live):
                if t // 4 == doras[i + 1] // 4:
                    live[j], doras[i] = doras[i], t
                    break
    r = {"kyoku": kyoku, "honba": honba, "dice": [rng.randint(0, 5), rng.randint(0, 5)], "dora": dora0, "hands": hands,
         "ev": []}
    ev = r["ev"]
    if cfg["feed"] and rng.random() < 0.8:
        # put useful tiles near the front of the wall, so that calls and wins are frequent
        live.sort(key=lambda t: rng.random() - cfg["feed"] * any(t // 4 == x // 4 for h in hands for x in h[:8]))
        live.reverse()
    for t in habit["next"]:
        if t in live:
            live.remove(t)
            live.insert(max(0, len(live) - rng.randint(4, 16)), t)
    tb.init(r)

    def do(*e):
        e = list(e)
        tb.event(e)
        ev.append(e)

    def plc(p):
        return tb.players[p]

    def melds_of(p):
        return [m for m in plc(p).melds if m.kind != "kita"]

    def c34(p, extra=None):
        h = plc(p).hand
        return ref.counts(h | {extra} if extra is not None else h)

    def can_win(p, extra=None):
        ms = melds_of(p)
        return ref.complete(c34(p, extra), not ms, 4 - len(ms))

    def pick_discard(p, forbid=()):
        h = sorted(plc(p).hand - set(forbid)) or sorted(plc(p).hand)
        t = habit["first"].pop(p, None)
        if isinstance(t, list):
            if t[1:]:
                habit["first"][p] = t[1:]
            t = t[0]
        if t in h:
            return t
        if rng.random() >= cfg["greedy"]:
            return rng.choice(h)
        ms = melds_of(p)
        base = c34(p)
        best, bt = None, []
        for t in h:
            c = ref.add(base, t // 4, -1)
            v = ref.normal_cost(c, 4 - len(ms))
            if not ms:
                v = min(v, ref.pairs_cost(c))
            if best is None or v < best:
                best, bt = v, []
            if v == best:
                bt.append(t)
        return rng.choice(bt)

    def payments(who, frm, amount):
        d = [0] * n
        if who == frm:
            for p in range(n):
                if p != who:
                    d[p] -= amount
                    d[who] += amount
        else:
            d[frm] -= amount
            d[who] += amount
        return d

    def agari(who, frm, tile):
        amount = rng.choice([3, 10, 13, 20, 39, 77, 80, 120, 160, 320, 480])
        limit = rng.choice([0, 0, 0, 1, 2, 3, 4, 5])
        a = {"who": who, "from": frm, "tile": tile, "delta": payments(who, frm, amount),
             "ten": [rng.choice([20, 25, 30, 40, 50, 110]), amount * 100, limit]}
        if limit == 5:
            a["yakuman"] = sorted(rng.sample(range(37, 52), rng.choice([1, 1, 2, 3])))
        else:
            ids = sorted(rng.sample(range(0, 37), rng.randint(1, 4)))
            ids += [x for x in (52, 54, 53) if rng.random() < 0.4]
            a["yaku"] = [[i, rng.choice([0, 1, 1, 2, 3, 5, 13])] for i in ids]
        if plc(who).riichi:
            left = sorted(tb.free)
            a["ura"] = rng.sample(left, min(len(left), len(tb.dora)))
        do("AGARI", a)

    def ron_round(frm, tile):
        """clients that win on this tile, in seat order after frm"""
        who = [(frm + i) % n for i in range(1, n)]
        who = [p for p in who if can_win(p, tile) and rng.random() < cfg["win"] and
               not ((p, "discard") in habit["decline"] and tb.phase == "draw")]
        if not who:
            return False
        if len(who) == 3 and rng.random() < cfg["abort"]:
            if tb.pending2 is not None:
                do("R", tb.pending2, 2)
            do("RYU", {"type": "ron3", "delta": [0] * n if rng.random() < 0.5 else None, "show": who})
            return "draw"
        for p in who:
            conn(ev, cfg["conn"])
            agari(p, frm, tile)
        return "dealer" if kyoku % 4 in who else "win"

    cur = kyoku % 4
    kans = []
    pending_dora = 0
    first_turn = [True] * n
    calls = 0
    turns = 0
    need_draw = True

    def reveal():
        nonlocal pending_dora
        while pending_dora:
            pending_dora -= 1
            if doras and len(tb.dora) < 5:
                do("DORA", doras.pop())

    def abort(typ, show=()):
        if tb.pending2 is not None:
            do("R", tb.pending2, 2)
        do("RYU", {"type": typ, "delta": [0] * n if rng.random() < 0.3 else None, "show": list(show)})
        return r, "draw"

    while True:
        if rng.random() < cfg["stop"] or (max_turns and turns >= max_turns):
            live = live[:0] if need_draw else live
        if need_draw:
            if not live:
                tenpai = [p for p in range(n) if rng.random() < 0.5]
                delta = [0] * n
                k = len(tenpai)
                if 0 < k < n:
                    pot = 30 if n == 4 else 20
                    unit = {1: (30, 10), 2: (15, 15), 3: (10, 30)}[k] if n == 4 else {1: (20, 10), 2: (10, 20)}[k]
                    delta = [unit[0] if p in tenpai else -unit[1] for p in range(n)]
                a = {"delta": delta, "show": tenpai}
                x = rng.random()
                if x < 0.1:
                    a["type"] = "nm"
                elif x < 0.2:
                    a["delta"] = None
                if tb.pending2 is not None:
                    do("R", tb.pending2, 2)
                do("RYU", a)
                return r, "dealer" if kyoku % 4 in tenpai else "draw"
            do("T", cur, live.pop())
            turns += 1
        need_draw = True
        conn(ev, cfg["conn"])
        # ---------------------------------------------------------------- own turn
        own_draw = plc(cur).drawn is not None
        again = True
        while again and own_draw:
            again = False
            if can_win(cur) and rng.random() < cfg["win"]:
                agari(cur, cur, plc(cur).drawn)
                return r, "dealer" if kyoku % 4 == cur else "win"
            h = plc(cur).hand
            if first_turn[cur] and not calls and rng.random() < cfg["abort"]:
                if len({t // 4 for t in h if t // 4 >= 27 or t // 4 % 9 in (0, 8)}) >= 9:
                    return abort("yao9", [cur])
            if n == 3 and rinshan:
                ks = [t for t in sorted(h) if 120 <= t < 124 and (not plc(cur).riichi or t == plc(cur).drawn)]
                if cfg.get("keepkita") == cur:
                    ks = ks[1:]
                if ks and rng.random() < cfg["kita"]:
                    t = rng.choice(ks)
                    do("N", "kita", cur, t)
                    calls += 1
                    conn(ev, cfg["conn"])
                    res = ron_round(cur, t) if rng.random() < 0.5 else False
                    if res:
                        return r, res
                    do("T", cur, rinshan.pop())
                    again = True
                    continue
            if rinshan and rng.random() < cfg["kan"] and len(kans) < 4:
                quads = [k for k in sorted({t // 4 for t in h}) if all(k * 4 + i in h for i in range(4))]
                if plc(cur).riichi:
                    quads = [k for k in quads if plc(cur).drawn // 4 == k]
                adds = [t for t in sorted(h) if any(m.kind == "pon" and min(m.own) // 4 == t // 4 for m in plc(cur).melds)]
                if quads and len(melds_of(cur)) < 4:
                    do("N", "ankan", cur, rng.choice(quads) * 4 + rng.randint(0, 3))
                    if rng.random() < 0.8:
                        pending_dora += 1
                        reveal()
                    else:
                        pending_dora += 1
                elif adds and not plc(cur).riichi:
                    t = rng.choice(adds)
                    do("N", "kakan", cur, t)
                    conn(ev, cfg["conn"])
                    res = ron_round(cur, t)
                    if res:
                        return r, res
                    pending_dora += 1
                    if rng.random() < 0.3:
                        reveal()
                else:
                    break
                calls += 1
                kans.append(cur)
                do("T", cur, rinshan.pop())
                if rng.random() < 0.3:
                    reveal()
                again = True
        # ---------------------------------------------------------------- discard
        pl = plc(cur)
        decl = False
        if pl.riichi:
            t = pl.drawn
        else:
            t = pick_discard(cur)
            ms = melds_of(cur)
            if all(m.kind == "ankan" for m in ms) and tb.scores[cur] >= 10 and len(live) >= 4 and \
                    rng.random() < cfg["riichi"] and own_draw:
                c = ref.add(c34(cur), t // 4, -1)
                if min(ref.normal_cost(c, 4 - len(ms)), 99 if ms else ref.pairs_cost(c)) == 1:
                    do("R", cur, 1)
                    decl = True
                    conn(ev, cfg["conn"])
        do("D", cur, t)
        first_turn[cur] = False
        if rng.random() < 0.6:
            reveal()
        conn(ev, cfg["conn"] / 2)
        res = ron_round(cur, t)
        if res:
            return r, res
        if decl:
            do("R", cur, 2)
        reveal()
        if rng.random() < cfg["abort"]:
            if n == 4 and not calls and turns == 4 and all(len(plc(p).discards) == 1 for p in range(4)):
                ks = {plc(p).discards[0][0] // 4 for p in range(4)}
                if len(ks) == 1 and 27 <= min(ks) < 31:
                    return abort("kaze4")
            if n == 4 and all(plc(p).riichi for p in range(n)):
                return abort("reach4", range(4))
            if len(kans) == 4 and len(set(kans)) > 1:
                return abort("kan4")
        # ---------------------------------------------------------------- calls
        called = False
        for i in range(1, n):
            p = (cur + i) % n
            h = plc(p).hand
            if plc(p).riichi or not live:
                continue
            same = sorted(x for x in h if x // 4 == t // 4)
            force = p in (habit["pon"], habit["pons"]) and len(same) >= 2
            if not force and len(same) == 3 and rinshan and len(kans) < 4 and rng.random() < cfg["kan"]:
                do("N", "minkan", p, cur, t, same)
                kans.append(p)
                pending_dora += 1
                calls += 1
                if rng.random() < 0.3:
                    reveal()
                do("T", p, rinshan.pop())
                if rng.random() < 0.3:
                    reveal()
                cur, called, need_draw = p, True, False
                break
            if len(same) >= 2 and (rng.random() < cfg["pon"] or force):
                if force:
                    habit["pon"] = None
                own = sorted(rng.sample(same, 2))
                do("N", "pon", p, cur, t, own)
                calls += 1
                cur, called, need_draw = p, True, False
                break
        if not called and n == 4 and live and t // 4 < 27 and rng.random() < cfg["chi"]:
            p = (cur + 1) % n
            if not plc(p).riichi:
                k = t // 4
                opts = []
                for a, b in ((-2, -1), (-1, 1), (1, 2)):
                    if 0 <= k % 9 + a and k % 9 + b <= 8:
                        x = [y for y in plc(p).hand if y // 4 == k + a]
                        y = [y for y in plc(p).hand if y // 4 == k + b]
                        if x and y:
                            opts.append((sorted(x), sorted(y)))
                if opts:
                    x, y = rng.choice(opts)
                    do("N", "chi", p, cur, t, sorted([rng.choice(x), rng.choice(y)]))
                    calls += 1
                    cur, called, need_draw = p, True, False
        if not called:
            cur = (cur + 1) % n
