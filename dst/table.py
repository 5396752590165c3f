"""Ground truth: an independent model of a Tenhou table.

A scenario holds *abstract* events; play() validates them against the rules the log format implies
(raising Invalid for anything a real server would not emit, so that minimisation stays inside legal
histories), derives every dependent attribute (scores, deposits, final result) and yields one Step per
log event: the XML tag and attributes the server writes, and an immutable snapshot of the table after it.
"""
from collections import namedtuple
from urllib.parse import quote

from . import ref
from .core import Invalid

Meld = namedtuple("Meld", "kind own called frm added")
Player = namedtuple("Player", "hand drawn melds discards turn riichi score bonus shown away dealer")
Snap = namedtuple("Snap", "players dora invisible wind round honba deposit started nobody_win reason win self_win "
                          "lose yaku final")
Step = namedtuple("Step", "i tag attrs snap ev rnd")

EMPTY = Player(frozenset(), None, (), (), 0, None, None, (), (), None, None)

DRAW, DISCARD = "TUVW", "DEFG"
RANKS = ["新人"] + ["%d級" % k for k in range(9, 0, -1)] + [c + "段" for c in "初二三四五六七八九十"] + ["天鳳位"]
REASONS = {"kaze4": "四風連打", "yao9": "九種九牌", "ron3": "三家和了", "reach4": "四家立直", "kan4": "四槓散了",
           "nm": "流局滿貫"}


def require(cond, why):
    if not cond:
        raise Invalid(why)


def all_tiles(n):
    return frozenset(t for t in range(136) if n == 4 or not 4 <= t < 32)


def encode_meld(m, who):
    """-> the number in the attribute m of an N event"""
    kui = (m.frm - who) % 4
    if m.kind == "kita":
        (t,) = m.own
        return 0x20 | (t << 8)
    if m.kind in ("ankan", "minkan"):
        if m.kind == "minkan":
            (t,) = m.called
        else:
            t = m.added if m.added is not None else min(m.own)
            kui = 0
        return kui | (t << 8)
    if m.kind == "chi":
        tiles = sorted(m.own | m.called)
        (c,) = m.called
        t6 = (tiles[0] // 36 * 7 + tiles[0] % 36 // 4) * 3 + tiles.index(c)
        h = [x % 4 for x in tiles]
        return kui | 4 | h[0] << 3 | h[1] << 5 | h[2] << 7 | t6 << 10
    # pon / kakan: the number describes the pon and the tile which is not (was not) part of it
    if m.kind == "pon":
        tiles = sorted(m.own | m.called)
        unused = ({0, 1, 2, 3} - {x % 4 for x in tiles}).pop()
        flag = 8
    else:
        tiles = sorted((m.own | m.called) - {m.added})
        unused = m.added % 4
        flag = 0x10
    (c,) = m.called
    t7 = tiles[0] // 4 * 3 + tiles.index(c)
    return kui | flag | unused << 5 | t7 << 9


def csv(xs):
    return ",".join(str(x) for x in xs)


def num(x):
    """how the server prints a point"""
    return str(x)


class Table:
    def __init__(self, log):
        self.log = log
        self.n = log["n"]
        require(self.n in (3, 4), "players")
        self.players = [EMPTY] * self.n
        self.away = [False] * self.n
        self.sticks = log.get("sticks", 0)
        self.scores = None
        self.snap = Snap((EMPTY,) * self.n, (), all_tiles(self.n), None, None, None, None, False, None, None,
                         None, None, None, None, None)
        self.phase = "head"
        self.turn = None
        self.last = None           # (who, tile) that may be claimed
        self.robbed = None
        self.pending2 = None       # step 2 of a declaration is owed
        self.declared = None
        self.ended = 0

    def put(self, p, **kw):
        self.players[p] = self.players[p]._replace(**kw)

    def commit(self, **kw):
        self.snap = self.snap._replace(players=tuple(self.players), **kw)

    # ------------------------------------------------------------------ header
    def header(self):
        log = self.log
        un = log["un"]
        out = []
        if log.get("shuffle"):
            out.append(("SHUFFLE", {"seed": log["shuffle"], "ref": ""}, ["SHUFFLE"]))
        require(bool(int(log["go"]) >> 4 & 1) == (self.n == 3), "type")
        out.append(("GO", {"type": str(log["go"]), "lobby": str(log.get("lobby", 0))}, ["GO"]))
        attrs = {"n%d" % i: (quote(un["names"][i], safe=log.get("safe", "")) if i < self.n else "") for i in range(4)}
        pad = [] if self.n == 4 else [0]
        attrs["dan"] = csv(un["dan"][:self.n] + pad)
        attrs["rate"] = csv(un["rate"][:self.n] + (["1500.00"] if self.n == 3 else []))
        attrs["sx"] = csv(un["sx"][:self.n] + (["M"] if self.n == 3 else []))
        out.append(("UN", attrs, ["UN0"]))
        return out

    def ten(self):
        return csv(self.scores + ([0] if self.n == 3 else []))

    # ------------------------------------------------------------------ rounds
    def init(self, r):
        require(self.phase in ("head", "end"), "round begins inside a round")
        if self.scores is None:
            self.scores = list(self.log["start"])
        n = self.n
        hands = [list(h) for h in r["hands"]]
        require(len(hands) == n and all(len(h) == 13 for h in hands), "hands")
        used = [t for h in hands for t in h] + [r["dora"]]
        require(len(set(used)) == len(used) and set(used) <= all_tiles(n), "tiles")
        self.free = set(all_tiles(n)) - set(used)
        self.kinds = 0
        oya = r["kyoku"] % 4
        require(oya < n, "dealer")
        for p in range(n):
            self.players[p] = Player(frozenset(hands[p]), None, (), (), 0, False, self.scores[p] * 100, (), (),
                                     self.players[p].away, p == oya)
        self.turn, self.phase, self.last, self.robbed, self.pending2, self.declared = oya, "draw", None, None, None, None
        self.ended = 0
        self.deposit = self.sticks
        attrs = {"seed": csv([r["kyoku"], r["honba"], self.sticks] + list(r["dice"]) + [r["dora"]]),
                 "ten": self.ten(), "oya": str(oya)}
        for p in range(n):
            attrs["hai%d" % p] = csv(hands[p])
        if n == 3:
            attrs["hai3"] = ""
        self.dora = (r["dora"],)
        self.commit(dora=self.dora, invisible=all_tiles(n) - {r["dora"]}, wind=r["kyoku"] // 4, round=r["kyoku"] % 4,
                    honba=r["honba"], deposit=self.sticks * 1000, started=True)
        self.honba = r["honba"]
        return "INIT", attrs

    def owed(self, what):
        require(self.pending2 is None, "second step of the declaration must come before " + what)

    def event(self, ev):
        k = ev[0]
        return getattr(self, "ev_" + k)(*ev[1:])

    def ev_X(self, tag, attrs):
        return tag, dict(attrs)

    def ev_BYE(self, p):
        require(p < self.n and not self.away[p], "already away")
        self.away[p] = True
        self.put(p, away=True)
        self.commit()
        return "BYE", {"who": str(p)}

    def ev_UN(self, p):
        require(p < self.n and self.away[p], "not away")
        self.away[p] = False
        self.put(p, away=False)
        self.commit()
        return "UN", {"n%d" % p: quote(self.log["un"]["names"][p], safe=self.log.get("safe", ""))}

    def ev_T(self, p, t):
        require(p < self.n, "seat")
        require(self.phase in ("draw", "rinshan") and self.turn == p and t in self.free, "draw")
        self.owed("draw")
        self.free.discard(t)
        self.put(p, hand=self.players[p].hand | {t}, drawn=t)
        self.phase, self.last, self.robbed = "act", None, None
        self.commit()
        return DRAW[p] + str(t), {}

    def ev_D(self, p, t):
        require(self.phase == "act" and self.turn == p and t in self.players[p].hand, "discard")
        pl = self.players[p]
        self.put(p, hand=pl.hand - {t}, drawn=None, discards=pl.discards + ((t, t != pl.drawn),), turn=pl.turn + 1)
        self.phase, self.turn, self.last = "draw", (p + 1) % self.n, (p, t)
        if self.declared == p:
            self.declared, self.pending2 = None, p
        self.commit(invisible=self.snap.invisible - {t})
        return DISCARD[p] + str(t), {}

    def ev_R(self, p, step):
        pl = self.players[p]
        if step == 1:
            require(self.phase == "act" and self.turn == p and not pl.riichi and self.declared is None, "declare")
            require(all(m.kind in ("ankan", "kita") for m in pl.melds), "declare with an open hand")
            self.put(p, riichi=True)
            self.declared = p
            self.commit()
            return "REACH", {"who": str(p), "step": "1"}
        require(self.pending2 == p, "deposit")
        self.pending2 = None
        self.scores[p] -= 10
        self.sticks += 1
        self.put(p, score=self.scores[p] * 100)
        self.commit()
        return "REACH", {"who": str(p), "ten": self.ten(), "step": "2"}

    def ev_DORA(self, t):
        require(self.phase in ("act", "rinshan", "draw") and t in self.free and len(self.dora) < 5, "dora")
        self.free.discard(t)
        self.dora += (t,)
        self.commit(dora=self.dora, invisible=self.snap.invisible - {t})
        return "DORA", {"hai": str(t)}

    def ev_N(self, kind, p, *rest):
        pl = self.players[p]
        require(self.declared is None, "call between declaration and discard")
        self.owed("call")
        if kind in ("chi", "pon", "minkan"):
            frm, called, own = rest
            own = frozenset(own)
            require(self.phase == "draw" and self.last == (frm, called) and p != frm and own <= pl.hand, "call")
            require(not pl.riichi, "call after riichi")
            ks = sorted(t // 4 for t in own | {called})
            if kind == "chi":
                require(self.n == 4 and p == (frm + 1) % 4 and len(own) == 2 and len(set(ks)) == 3, "chi")
                require(ks[2] - ks[0] == 2 and ks[0] // 9 == ks[2] // 9 and ks[0] < 27, "chi")
            else:
                require(len(own) == (2 if kind == "pon" else 3) and len(set(ks)) == 1, kind)
            m = Meld(kind, own, frozenset([called]), frm, None)
            self.put(p, hand=pl.hand - own, melds=pl.melds + (m,), drawn=None, shown=pl.shown + tuple(sorted(own)))
            self.phase = "rinshan" if kind == "minkan" else "act"
            gone = own
        else:
            (t,) = rest
            require(self.phase == "act" and self.turn == p and t in pl.hand and not (pl.drawn is None), "own meld")
            if kind == "kita":
                require(self.n == 3 and 120 <= t < 124, "kita")
                m = Meld("kita", frozenset([t]), frozenset(), p, None)
                gone = m.own
                self.put(p, hand=pl.hand - gone, melds=pl.melds + (m,), drawn=None, shown=pl.shown + (t,),
                         bonus=pl.bonus + (t,))
            elif kind == "ankan":
                gone = frozenset(range(t // 4 * 4, t // 4 * 4 + 4))
                require(gone <= pl.hand, "ankan")
                m = Meld("ankan", gone, frozenset(), p, t)
                self.put(p, hand=pl.hand - gone, melds=pl.melds + (m,), drawn=None,
                         shown=pl.shown + tuple(sorted(gone)))
            else:
                require(kind == "kakan" and not pl.riichi, "kakan")
                old = [x for x in pl.melds if x.kind == "pon" and min(x.own) // 4 == t // 4]
                require(len(old) == 1, "no pon to extend")
                m = Meld("kakan", old[0].own | {t}, old[0].called, old[0].frm, t)
                gone = frozenset([t])
                self.put(p, hand=pl.hand - gone, melds=tuple(m if x is old[0] else x for x in pl.melds), drawn=None,
                         shown=pl.shown + (t,))
            self.phase, self.robbed = "rinshan", (p, t)
        self.turn = p
        self.last = None
        self.commit(invisible=self.snap.invisible - gone)
        return "N", {"who": str(p), "m": str(encode_meld(m, p))}

    def sc(self, delta):
        out = []
        for p in range(4):
            if p < self.n:
                out += [self.scores[p], delta[p]]
            else:
                out += [0, 0]
        return csv(out)

    def finish(self, delta):
        for p in range(self.n):
            self.scores[p] += delta[p]
            self.put(p, score=self.scores[p] * 100)

    def ev_AGARI(self, a):
        who, frm, t = a["who"], a["from"], a["tile"]
        pl = self.players[who]
        if who == frm:
            require(self.phase == "act" and self.turn == who and pl.drawn == t and self.declared is None, "tsumo")
            hand = pl.hand
        else:
            claim = self.last if self.phase == "draw" else self.robbed if self.phase == "rinshan" else \
                self.claim if self.phase == "end" and self.ended == "ron" else None
            require(claim == (frm, t), "ron")
            require(self.phase != "end" or who not in self.winners, "wins twice")
            self.claim = claim
            hand = pl.hand | {t}
        open_ = [m for m in pl.melds if m.kind != "kita"]
        require(ref.complete(ref.counts(hand), not open_, 4 - len(open_)), "not a complete hand")
        delta = list(a["delta"])[:self.n]
        require(len(delta) == self.n and sum(delta) == 0 and delta[who] >= 0, "payments")
        paid = list(delta)
        paid[who] += self.sticks * 10
        first = self.phase != "end"
        attrs = {"ba": csv([self.honba if first else 0, self.sticks]), "hai": csv(sorted(hand))}
        self.sticks = 0
        if pl.melds:
            attrs["m"] = csv(encode_meld(m, who) for m in pl.melds)
        attrs["machi"] = str(t)
        attrs["ten"] = csv(a["ten"])
        if a.get("yakuman"):
            attrs["yakuman"] = csv(a["yakuman"])
            yaku = tuple(a["yakuman"])
        else:
            attrs["yaku"] = csv(x for y in a["yaku"] for x in y)
            yaku = tuple(y[0] for y in a["yaku"])
        attrs["doraHai"] = csv(self.dora)
        if pl.riichi and a.get("ura"):
            attrs["doraHaiUra"] = csv(a["ura"])
        attrs["who"], attrs["fromWho"] = str(who), str(frm)
        attrs["sc"] = self.sc(paid)
        self.winners = [who] if first else self.winners + [who]
        self.phase, self.ended, self.pending2 = "end", "tsumo" if who == frm else "ron", None
        self.finish(paid)
        part = [who == frm or p in (who, frm) for p in range(self.n)]
        self.commit(nobody_win=False, win=tuple(p == who for p in range(self.n)), self_win=who == frm,
                    lose=tuple(who != frm and p == frm for p in range(self.n)),
                    yaku=tuple(yaku if x else () for x in part))
        return "AGARI", attrs

    def ev_RYU(self, a):
        require(self.phase in ("draw", "act", "rinshan"), "draw ends no round")
        self.owed("end of the round")
        attrs = {}
        if a.get("type"):
            attrs["type"] = a["type"]
        attrs["ba"] = csv([self.honba, self.sticks])
        if a.get("delta") is not None:
            delta = list(a["delta"])[:self.n]
            require(len(delta) == self.n and sum(delta) == 0, "payments")
            attrs["sc"] = self.sc(delta)
            self.finish(delta)
        for p in a.get("show", []):
            require(p < self.n, "seat")
            attrs["hai%d" % p] = csv(sorted(self.players[p].hand))
        self.phase, self.ended = "end", "draw"
        self.commit(nobody_win=True, reason=REASONS[a["type"]] if a.get("type") else "EXHAUSTED",
                    win=(False,) * self.n, self_win=False, lose=(False,) * self.n, yaku=((),) * self.n)
        return "RYUUKYOKU", attrs

    def close(self, attrs):
        require(self.phase == "end", "last round is not finished")
        log = self.log
        order = sorted(range(self.n), key=lambda p: (-self.scores[p], p))
        scores = list(self.scores)
        scores[order[0]] += self.sticks * 10
        order = sorted(range(self.n), key=lambda p: (-scores[p], p))
        points, flat = [None] * self.n, []
        for r, p in enumerate(order):
            v = (scores[p] - log["start"][0]) * 0.1 + log["uma"][r]
            points[p] = round(v, log.get("decimals", 1)) + 0.0     # no negative zero
        for p in range(4):
            if p < self.n:
                flat += [scores[p], "%.*f" % (log.get("decimals", 1), points[p]) if log.get("point_float", True) or points[p] != int(points[p])
                         else "%d" % points[p]]
            else:
                flat += [0, 0]
        attrs["owari"] = csv(flat)
        rank = [order.index(p) + 1 for p in range(self.n)]
        self.commit(final=tuple((scores[p] * 100, points[p], rank[p]) for p in range(self.n)))
        return attrs


def play(log):
    """-> list of Step; raises Invalid if the log is not one a server would write"""
    tb = Table(log)
    steps = []

    def add(tag, attrs, ev, rnd):
        steps.append(Step(len(steps), tag, attrs, tb.snap, ev, rnd))

    for tag, attrs, ev in tb.header():
        if tag == "UN":
            for p in range(tb.n):
                tb.put(p, away=False)
            tb.commit()
        add(tag, attrs, ev, -1)
    for ev in log.get("head", []):
        require(ev[0] in ("BYE", "UN", "X"), "header event")
        add(*tb.event(ev), ev, -1)
    for p in range(tb.n):
        tb.put(p, dealer=p == log.get("oya", 0))
    tb.commit()
    add("TAIKYOKU", {"oya": str(log.get("oya", 0))}, ["TAIKYOKU"], -1)
    for ev in log.get("head2", []):
        require(ev[0] in ("BYE", "UN", "X"), "header event")
        add(*tb.event(ev), ev, -1)
    require(log["rounds"], "no rounds")
    for ri, r in enumerate(log["rounds"]):
        tag, attrs = tb.init(r)
        add(tag, attrs, ["INIT", r], ri)
        for ei, ev in enumerate(r["ev"]):
            last = ri == len(log["rounds"]) - 1 and ei == len(r["ev"]) - 1
            tag, attrs = tb.event(ev)
            if last:
                require(tag in ("AGARI", "RYUUKYOKU"), "log ends after the last result")
                tb.close(attrs)
            add(tag, attrs, ev, ri)
        require(tb.phase == "end", "round without a result")
    return steps


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def to_xml(steps, decl=False, sep=""):
    """steps: iterable of (tag, attrs)"""
    body = sep.join("<%s %s/>" % (tag, "".join('%s="%s" ' % (k, esc(v)) for k, v in attrs.items())) if attrs
                    else "<%s/>" % tag for tag, attrs in steps)
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' if decl else "") + '<mjloggm ver="2.3">' + sep + body + sep + \
        "</mjloggm>"


def xml_of(log, steps=None):
    steps = steps if steps is not None else play(log)
    return to_xml([(s.tag, s.attrs) for s in steps], decl=log.get("decl", False), sep=log.get("sep", ""))


def twin(log):
    """another match with the same players, rules, calls and results: circles and bamboos change places"""
    def t(x):
        return x + 36 if 36 <= x < 72 else x - 36 if 72 <= x < 108 else x

    def event(e):
        k = e[0]
        if k in ("T", "D"):
            return [k, e[1], t(e[2])]
        if k == "DORA":
            return [k, t(e[1])]
        if k == "N":
            if e[1] in ("chi", "pon", "minkan"):
                return [k, e[1], e[2], e[3], t(e[4]), sorted(t(x) for x in e[5])]
            return [k, e[1], e[2], t(e[3])]
        if k == "AGARI":
            a = dict(e[1], tile=t(e[1]["tile"]))
            if "ura" in a:
                a["ura"] = [t(x) for x in a["ura"]]
            return [k, a]
        return list(e)

    return dict(log, rounds=[dict(r, dora=t(r["dora"]), hands=[[t(x) for x in h] for h in r["hands"]],
                                  ev=[event(e) for e in r["ev"]]) for r in log["rounds"]])


def log_lists(log, base=("log",)):
    """paths for delta debugging"""
    out = [list(base) + ["rounds"]]
    for i in range(len(log["rounds"])):
        out.append(list(base) + ["rounds", i, "ev"])
    out.append(list(base) + ["head"])
    out.append(list(base) + ["head2"])
    return [p for p in out if p[-1] != "head" and p[-1] != "head2" or log.get(p[-1])]


def log_simplify(log):
    """candidate simpler logs: truncated rounds, plain names"""
    for i, r in enumerate(log["rounds"]):
        ev = r["ev"]
        cuts = sorted({0, 1, 2, len(ev) // 4, len(ev) // 2, len(ev) * 3 // 4, len(ev) - 2, len(ev) - 3, len(ev) - 5,
                       len(ev) - 9})
        for c in cuts:
            if 0 <= c < len(ev) - 1:
                nr = dict(r, ev=ev[:c] + [["RYU", {}]])
                yield dict(log, rounds=log["rounds"][:i] + [nr] + log["rounds"][i + 1:])
    names = ["A", "B", "C", "D"]
    for i, nm in enumerate(log["un"]["names"]):
        if nm != names[i] and i < log["n"]:
            un = dict(log["un"], names=log["un"]["names"][:i] + [names[i]] + log["un"]["names"][i + 1:])
            yield dict(log, un=un)
