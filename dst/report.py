"""Reading and judging an efficiency report (HTML) against the table the log describes."""
import base64
import hashlib
import os
import re
from html.parser import HTMLParser
from urllib.parse import urlparse, parse_qs

from . import recview, ref
from .core import REPO, Violation, expect, expect_eq, judge

VOID = {"meta", "br", "hr", "img", "link", "input"}


class Node:
    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.parent = tag, dict(attrs), parent
        self.kids = []

    def find(self, tag):
        """descendants in order, not below another match"""
        out = []
        for k in self.kids:
            if isinstance(k, Node):
                if k.tag == tag:
                    out.append(k)
                else:
                    out += k.find(tag)
        return out

    def walk(self):
        for k in self.kids:
            yield k
            if isinstance(k, Node):
                yield from k.walk()

    def text(self):
        return "".join(k for k in self.walk() if isinstance(k, str))

    def tiles(self):
        out = []
        for k in self.walk():
            if isinstance(k, Node):
                m = re.search(r"(?:^|\s)pic([0-9][mpsz])(?:\s|$)", k.attrs.get("class") or "")
                if m:
                    out.append(m.group(1))
        return out

    def tile_groups(self):
        """runs of tiles separated by hard spaces"""
        out, cur = [], []
        for k in self.walk():
            if isinstance(k, Node):
                m = re.search(r"(?:^|\s)pic([0-9][mpsz])(?:\s|$)", k.attrs.get("class") or "")
                if m:
                    cur.append(m.group(1))
            elif "\xa0" in k:
                out.append(cur)
                cur = []
        return out + [cur]


class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = self.cur = Node("root", {}, None)

    def handle_starttag(self, tag, attrs):
        n = Node(tag, attrs, self.cur)
        self.cur.kids.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_endtag(self, tag):
        n = self.cur
        while n is not None and n.tag != tag:
            n = n.parent
        if n is not None and n.parent is not None:
            self.cur = n.parent

    def handle_data(self, data):
        self.cur.kids.append(data)


class Row:
    pass


def parse(html):
    """-> (text of the page head, [(caption, [Row])], addresses of the links, pictures by tile)"""
    t = Tree()
    # style and script content is no markup; the pictures there are of no interest
    t.feed(re.sub(r"(?s)<style[^>]*>.*?</style>", "", html))
    t.close()
    games = []
    intro = [p.text() for p in t.root.find("p")]
    for table in t.root.find("table"):
        caption = None
        n = table.parent
        while n is not None and caption is None:
            s = [x for x in n.find("summary")]
            if s:
                caption = s[0].text()
            n = n.parent
        rows = []
        for tr in table.find("tr"):
            style = tr.attrs.get("style") or ""
            m = re.search(r"rgba\(\s*([0-9]+)\s*,\s*([0-9]+)\s*,\s*([0-9]+)\s*,\s*([^)]*?)\s*\)", style)
            if not m:
                continue
            r = Row()
            r.color = tuple(int(x) for x in m.groups()[:3])
            r.shade = float(m.group(4))
            tds = tr.find("td")
            r.index = int(tds[0].text().strip())
            *r.melds, r.hand = tds[1].tile_groups()
            r.choice = tds[2].tiles()
            r.expected = tds[3].tiles()
            desc = tds[4].find("table")[0]
            r.steps = {}
            for line in desc.find("tr"):
                a, b = line.find("td")
                g = re.search(r"Steps\s+(-?[0-9]+)\s+Tiles\s+(-?[0-9]+)", b.text())
                r.steps[a.text().strip()] = (int(g.group(1)), int(g.group(2)))
            r.lines = {}
            for d in [x for x in tds[4].walk() if isinstance(x, Node) and x.tag == "div"]:
                g = re.search(r"Discard\s(?s:.*)Steps\s+(-?[0-9]+)\s+Tiles\s+(-?[0-9]+)(?s:.*)Expect\s", d.text())
                parts = [k for k in d.kids if isinstance(k, Node)]
                if g and len(parts) == 2 and "Expect" in parts[1].text() and "Expect" not in parts[0].text():
                    r.lines.setdefault(section(d, tds[4]), []).append(
                        (parts[0].tiles(), int(g.group(1)), int(g.group(2)), parts[1].tiles()))
            rows.append(r)
        games.append((caption, rows))
    links = [a.attrs.get("href") for a in t.root.find("a")]
    return intro, games, links, pictures(html)


PICTURES = {}


def pictures(html):
    """the picture each tile class has: the style sheets of all pages are alike, so one is read only once"""
    css = "".join(re.findall(r"(?s)<style[^>]*>(.*?)</style>", html))
    key = hashlib.sha256(css.encode()).digest()
    if key not in PICTURES:
        out = {}
        for name, body in re.findall(r"(?s)\.pic([0-9][mpsz])\s*\{(.*?)\}", css):
            m = re.search(r"base64,\s*([A-Za-z0-9+/=]*)", body)
            out[name] = hashlib.sha256(base64.b64decode(m.group(1))).hexdigest() if m else None
        PICTURES.clear()
        PICTURES[key] = out
    return PICTURES[key]


def judge_pictures(got, shown, ctx):
    missing = sorted(t for t in shown if not got.get(t))
    expect(not missing, "report-picture", lambda: "%s: no picture of %s" % (ctx, missing))
    expect_eq(len({got[t] for t in shown}), len(shown), "report-picture", lambda: "%s: a picture of two tiles" % ctx)
    for t in sorted(shown):
        path = os.path.join(REPO, "mahjong", "templates", "mjpic", t + ".png")
        if os.path.exists(path):
            with open(path, "rb") as f:
                expect_eq(got[t], hashlib.sha256(f.read()).hexdigest(), "report-picture", "%s: picture of %s" % (ctx, t))


def section(node, top):
    """the kind of hand a line of reasoning is listed under"""
    while node is not top:
        if node.tag == "details":
            head = node.find("summary")[0].text()
            return "normal" if "Normal" in head else "pairs" if "Seven" in head else "all"
        node = node.parent
    return "all"


def judge_lines(r, table, c14, melds, unseen, best, ctx):
    """the lines of reasoning: the best discards, and what each kind of hand (normal, seven pairs) would discard"""
    def line(got):
        tiles, steps, count, useful = got
        expect(len(tiles) == 1, "report-line", lambda: "%s line %r" % (ctx, got))
        kinds = sorted(ref.kind_of_str(x) for x in useful)
        return ref.kind_of_str(tiles[0]), steps, count, kinds

    lines = [line(x) for x in r.lines.get("all", [])]
    expect_eq(len({x[0] for x in lines}), len(lines), "report-line", lambda: "%s a discard is listed twice: %r" % (ctx, lines))
    good = [x for x in lines if x[1] == best[0]]
    want = {k: (k, v[0], v[1], sorted(v[2])) for k, v in table.items() if v[0] == best[0]}
    expect_eq(sorted(good), sorted(want.values()), "report-line", lambda: "%s lines %r" % (ctx, lines))
    expect_eq([(x[1], -x[2]) for x in lines], sorted((x[1], -x[2]) for x in lines), "report-line-order", ctx)
    for name in ("normal", "pairs"):
        lines = [line(x) for x in r.lines.get(name, [])]
        if name == "pairs" and melds < 4:
            expect_eq(lines, [], "report-line", lambda: "%s seven pairs after a call" % ctx)
            continue
        expect_eq(len({x[0] for x in lines}), len(lines), "report-line", lambda: "%s a discard is listed twice: %r" % (ctx, lines))
        exact = {}
        for k in table:
            c = ref.add(c14, k, -1)
            us = ref.useful(c, name, melds)
            exact[k] = (k, ref.cost(c, name, melds) - 1, sum(unseen[u] for u in us), sorted(us))
        least = min(x[1] for x in exact.values())
        for x in lines:
            expect_eq(x, exact.get(x[0]), "report-line", lambda: "%s %s hand, lines %r" % (ctx, name, lines))
        expect_eq(sorted(x for x in lines if x[1] == least), sorted(x for x in exact.values() if x[1] == least), "report-line",
                  lambda: "%s %s hand" % (ctx, name))
        expect_eq([(x[1], -x[2]) for x in lines], sorted((x[1], -x[2]) for x in lines), "report-line-order", ctx)


def decisions(steps, p):
    """for each round: [(snapshot before the discard, tile, riichi declared)]"""
    rounds = []
    riichi = False
    prev = None
    for s in steps:
        if s.tag == "INIT":
            rounds.append([])
            riichi = False
        elif s.ev[0] == "R" and s.tag == "REACH":
            riichi = True
        elif s.ev[0] == "D" and s.ev[1] == p:
            rounds[-1].append((prev, s.ev[2], riichi))
        prev = s.snap
    return rounds


def judge_row(r, i, snap, tile, riichi, p, ctx, st):
    pl = snap.players[p]
    hand = pl.hand
    expect_eq(r.index, i + 1, "report-order", ctx)
    expect_eq(sorted(r.hand), sorted(ref.tile_str(t) for t in hand), "report-hand", ctx)
    expect_eq([sorted(m) for m in r.melds], [sorted(ref.tile_str(t) for t in (m.own | m.called)) for m in pl.melds],
              "report-melds", ctx)
    expect_eq(r.choice, [ref.tile_str(tile)], "report-choice", ctx)
    melds = 4 - sum(1 for m in pl.melds if m.kind != "kita")
    closed = melds == 4
    unseen = [0] * ref.KINDS
    for t in snap.invisible - hand:
        unseen[t // 4] += 1
    c14 = ref.counts(hand)
    table, exact = {}, {}
    for k in {t // 4 for t in hand}:
        steps, useful = ref.analyse(ref.add(c14, k, -1), closed, melds)
        table[k] = (steps, sum(unseen[u] for u in useful))
        exact[k] = table[k] + (useful,)
    best = min(table.values(), key=lambda v: (v[0], -v[1]))
    mine = table[tile // 4]
    expect_eq(sorted({ref.kind_of_str(x) for x in r.expected}), sorted(k for k in table if table[k] == best),
              "report-expected", lambda: "%s all discards %s" % (ctx, {ref.kind_str(k): v for k, v in table.items()}))
    names = {ref.tile_str(t) for t in hand}
    expect(all(x in names for x in r.expected), "report-expected-not-held", lambda: "%s %s" % (ctx, r.expected))
    expect_eq(r.steps.get("Expected"), best, "report-steps-expected", ctx)
    expect_eq(r.steps.get("Actual"), mine, "report-steps-actual", ctx)
    judge_lines(r, exact, c14, melds, unseen, best, ctx)
    eps = 1e-9
    expect(-eps <= r.shade <= 1 + eps, "report-shade", lambda: "%s shade %r" % (ctx, r.shade))
    if mine == best:
        expect(abs(r.shade) < eps, "report-shade", lambda: "%s best choice, shade %r" % (ctx, r.shade))
        st.probe("best")
    else:
        expect(r.shade > eps, "report-shade", lambda: "%s not a best choice, shade %r" % (ctx, r.shade))
        if mine[0] == best[0]:
            st.probe("worse-count")
            expect(abs(r.shade - (1 - mine[1] / best[1])) < 1e-6, "report-shade",
                   lambda: "%s lost %s of %s, shade %r" % (ctx, mine[1], best[1], r.shade))
        else:
            st.probe("worse-steps")
    expect_eq(r.color, (0, 0, 255) if riichi else (255, 0, 0), "report-colour", ctx)
    st.probe("after-riichi" if riichi else "before-riichi")
    if best[1] == 0:
        st.probe("nothing-useful-left")
    if ref.complete(c14, closed, melds):
        st.probe("complete-hand")
    if closed and ref.pairs_cost(ref.add(c14, tile // 4, -1)) < ref.normal_cost(ref.add(c14, tile // 4, -1), melds):
        st.probe("seven-pairs")
    if any(m.kind == "kita" for m in pl.melds):
        st.probe("kita-held")
    st.state(best[0], melds, mine[0] - best[0], min(best[1], 40) // 4, riichi)


def judge_report(html, steps, p, log, st, ctx="", log_id=None):
    with judge("report"):
        intro, games, links, pics = parse(html)
        if log_id is not None:
            ids = [parse_qs(urlparse(x or "").query).get("log") for x in links]
            expect([log_id] in ids, "report-link", lambda: "%s: the page of log %r links to %r" % (ctx, log_id, links))
    rounds = decisions(steps, p)
    from .table import RANKS
    un = log["un"]
    title = "%s %s R%.2f" % (un["names"][p], RANKS[un["dan"][p]], float(un["rate"][p]))
    expect(any(title in x for x in intro), "report-player", lambda: "%s %r not in %r" % (ctx, title, intro[:2]))
    whole = recview.record_text(steps, log)
    expect(any(whole in x for x in intro), "report-record", lambda: "%s %r not in %r" % (ctx, whole, intro[:3]))
    expect_eq(len(games), len(rounds), "report-rounds", ctx)
    shown = set()
    for gi, ((caption, rows), want) in enumerate(zip(games, rounds)):
        expect_eq(len(rows), len(want), "report-rows", "%s round %d" % (ctx, gi))
        name = recview.game_text(steps, log, gi)
        expect(name in (caption or ""), "report-caption", lambda: "%s round %d: %r not in %r" % (ctx, gi, name, caption))
        for r in rows:
            shown.update(r.hand, r.choice, r.expected, *r.melds)
            for x in r.lines.values():
                for line in x:
                    shown.update(line[0], line[3])
        for i, (r, (snap, tile, riichi)) in enumerate(zip(rows, want)):
            where = "%s round %d discard %d: hand %s melds %s throws %s" % (
                ctx, gi, i, "".join(ref.tile_str(t) for t in sorted(snap.players[p].hand)),
                ["".join(ref.tile_str(t) for t in sorted(m.own | m.called)) for m in snap.players[p].melds],
                ref.tile_str(tile))
            judge_row(r, i, snap, tile, riichi, p, where, st)
    judge_pictures(pics, shown, ctx)
    return sum(len(x) for x in rounds)
