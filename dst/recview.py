"""What a loaded record, its rounds and its flat export must say about the table (dst/table.py)."""
import re
import xml.etree.ElementTree as ET

from . import ref
from .core import expect, expect_eq, judge
from .table import DISCARD, DRAW, RANKS, REASONS
from .unistate import rules

KIND = {"chi": "CHI", "pon": "PENG", "minkan": "MINGGANG", "ankan": "ANGANG", "kakan": "GANG", "kita": "KITA"}


def tiles(s):
    s = str(s)
    if len(s) % 2:
        raise ValueError("tiles %r" % s)
    return tuple(sorted(s[i:i + 2] for i in range(0, len(s), 2)))


def strs(ts):
    return tuple(sorted(ref.tile_str(t) for t in ts))


# ------------------------------------------------------------------------------------------ flat export
def event_rows(step, log, prev):
    """rows one log event contributes, each a dict of what must be in it"""
    e = step.ev
    k = e[0]
    if k == "INIT":
        r = e[1]
        s = step.snap
        rows = [{"event_type": "INIT%d" % (p + 1), "player": p, "player_see": strs(r["hands"][p]),
                 "score": float(s.players[p].score)} for p in range(log["n"])]
        rows.append({"event_type": "DORA", "player_see": strs([r["dora"]]), "player_show": strs([r["dora"]])})
        rows.append({"event_type": "ROUND", "score": float(s.deposit)})
        return rows
    if k == "T":
        return [{"event_type": "DRAW", "player": e[1], "player_see": strs([e[2]])}]
    if k == "D":
        return [{"event_type": "DISCARD", "player": e[1], "player_show": strs([e[2]])}]
    if k == "DORA":
        return [{"event_type": "DORA", "player_see": strs([e[1]]), "player_show": strs([e[1]])}]
    if k == "R":
        if e[2] == 1:
            return [{"event_type": "CALLRICHI", "player": e[1]}]
        return [{"event_type": "RICHI", "player": e[1]}, {"event_type": "SCORE", "player": e[1], "score": -1000.0}]
    if k == "N":
        p = e[2]
        before, after = prev.snap.players[p].melds, step.snap.players[p].melds
        m = next(x for i, x in enumerate(after) if i >= len(before) or before[i] != x)
        row = {"event_type": KIND[m.kind], "player": p}
        if m.kind == "kakan":
            row.update(player_show=strs([m.added]), player_open=strs([m.added]), origin=m.frm)
        elif m.kind == "kita":
            row.update(player_show=strs(m.own), player_open=strs(m.own))
        else:
            row.update(player_show=strs(m.own), player_open=strs(m.own | m.called), origin=m.frm)
        return [row]
    if k == "AGARI":
        return [{"event_type": "WIN", "player": e[1]["who"], "origin": e[1]["from"]}]
    if k == "RYU":
        return [{"event_type": "EVEN", "origin": REASONS[e[1]["type"]] if e[1].get("type") else ""}]
    return []


def norm(row, want):
    out = {}
    for k in want:
        v = row[k] if k in row else None
        if v is None or isinstance(v, float) and v != v:
            out[k] = None
        elif k == "event_type":
            out[k] = str(v).strip()
        elif k == "player" or k == "origin" and want["event_type"] != "EVEN":
            out[k] = int(v)
        elif k == "score":
            out[k] = float(v)
        elif k in ("player_see", "player_show", "player_open"):
            out[k] = tiles(v)
        else:
            out[k] = v
    return out


def judge_rows(rows, groups, ctx):
    """rows: the export; groups: [(rows of one event, label, what)], in order; the rows of one event may come in any order"""
    with judge("export"):
        rows = list(rows)
        i = 0
        for want, label, what in groups:
            got = rows[i:i + len(want)]
            i += len(want)
            expect(len(got) == len(want), "export-short", lambda: "%s: the export ends before %s" % (ctx, what))
            left = list(want)
            for row in got:
                et = str(row["event_type"]).strip()
                cand = [w for w in left if w["event_type"] == et]
                expect(cand, "export-wrong-row", lambda: "%s: at %s the export says %r, expected %r" % (ctx, what, row, left))
                views = [norm(row, w) for w in cand]
                hit = next((w for w, v in zip(cand, views) if v == w), None)
                expect(hit is not None, "export-wrong-%s" % et, lambda: "%s: at %s the export says %r, read as %r, expected %r" % (
                    ctx, what, row, views[0], cand))
                left.remove(hit)
                if label is not None:
                    expect_eq(str(row["game_str"]), label, "export-label", lambda: "%s: row %r at %s" % (ctx, row, what))
        expect(len(rows) == i, "export-extra", lambda: "%s: after the last event the export goes on: %r" % (ctx, rows[i:i + 3]))


def label_of(r):
    return "%s-%d-%d" % ("ESWN"[r["kyoku"] // 4], r["kyoku"] % 4 + 1, r["honba"])


def round_groups(steps, log, ri):
    label = label_of(log["rounds"][ri])
    return [(event_rows(s, log, steps[s.i - 1]), label, "event %d <%s %s>" % (s.i, s.tag, s.attrs))
            for s in steps if s.rnd == ri]


def whole_groups(steps, log):
    out = []
    for ri in range(len(log["rounds"])):
        out += round_groups(steps, log, ri)
    fin = steps[-1].snap.final
    out.append(([{"event_type": "FIN%d" % (p + 1), "player": p, "score": float(fin[p][0])} for p in range(log["n"])], None,
                "the final scores"))
    return out


# ------------------------------------------------------------------------------------------ summary
def end_text(log, a):
    names = log["un"]["names"]
    if a[0] == "AGARI":
        d = a[1]
        if d["who"] == d["from"]:
            return "%s:ツモ(%d)" % (names[d["who"]], d["ten"][1])
        return "%s<-%s:ロン(%d)" % (names[d["who"]], names[d["from"]], d["ten"][1])
    return "流局 " + (REASONS[a[1]["type"]] if a[1].get("type") else "")


def type_text(log):
    r = rules(log["go"])
    bit = lambda k: bool(log["go"] >> k & 1)
    return "".join(["零一二三四"[r["player_count"]], r["play_level"], "_東南"[r["play_wind_count"]],
                    "喰" if r["allow_tanyao_open"] else "", "" if bit(1) else "赤", "速" if r["speed_up"] else "",
                    "暗" if r["show_discard_shadow"] else "", "祝%d" % (5 if bit(10) else 2) if bit(9) else ""])


def judge_events(got, steps, ctx):
    """got: events of the record; steps: what they must be"""
    with judge("events"):
        got = [(e.timestamp, e.tag, dict(e.attrib)) for e in got]
    expect_eq(got, [(s.i, s.tag, s.attrs) for s in steps], "wrong-events", ctx)


def kinds(text):
    """tile kinds of "123m45z", a red five counting as a five"""
    out, nums = [], ""
    for c in text:
        if c.isdigit():
            nums += c
        else:
            if c not in "mpsz" or not nums:
                raise ValueError("tiles %r" % text)
            out += [("5" if n == "0" else n) + c for n in nums]
            nums = ""
    if nums:
        raise ValueError("tiles %r" % text)
    return tuple(sorted(out))


CLAIM = re.compile(r"player (\d+) claimed '\w+' using '([0-9mpsz]*)' to get '([0-9mpsz]*)' from player (\d+)")


def event_text(step, prev):
    """what the log says about a step, in words; a call as (player, own tiles, called tiles, from whom)"""
    e = step.ev
    k = e[0]
    if k == "T":
        return "player %d draw %s" % (e[1], ref.tile_str(e[2]))
    if k == "D":
        return "player %d discard %s" % (e[1], ref.tile_str(e[2]))
    if k == "DORA":
        return "new dora indicator %s" % ref.tile_str(e[1])
    if k == "R":
        return "player %d richii" % e[1]
    if k == "AGARI":
        return "player %d win %d from player %d" % (e[1]["who"], e[1]["ten"][1], e[1]["from"])
    if k == "RYU":
        return "no body win %s" % (REASONS[e[1]["type"]] if e[1].get("type") else "")
    if k == "N":
        p = e[2]
        before, after = prev.snap.players[p].melds, step.snap.players[p].melds
        m = next(x for i, x in enumerate(after) if i >= len(before) or before[i] != x)
        own = [m.added] if m.kind == "kakan" else m.own
        got = m.called if m.kind in ("chi", "pon", "minkan") else ()
        five = lambda ts: tuple(sorted(ref.tile_str(t).replace("0", "5") for t in ts))
        return (p, five(own), five(got), m.frm if got else None)
    return "UNPARSED"


def judge_texts(got, steps, all_steps, ctx):
    """the text of every event: what happened, then the event as the log has it"""
    with judge("event texts"):
        for e, s in zip(got, steps):
            want = event_text(s, all_steps[s.i - 1])
            text, shown = str(e), repr(e)
            said, xml = (text[:-1] if text.endswith("\n") else text).split(":<", 1)
            back = ET.fromstring("<" + xml)
            expect_eq((back.tag, dict(back.attrib)), (s.tag, s.attrs), "wrong-event-text", ctx)
            if isinstance(want, tuple):
                m = CLAIM.fullmatch(said)
                expect(m, "wrong-event-text", lambda: "%s: event %d <%s %s> is displayed as %r" % (ctx, s.i, s.tag, s.attrs, said))
                said = (int(m[1]), kinds(m[2]), kinds(m[3]), int(m[4]) if want[3] is not None else None)
            expect_eq(said, want, "wrong-event-text", lambda: "%s: text of event %d <%s %s>" % (ctx, s.i, s.tag, s.attrs))
            expect(text in shown, "wrong-event-text", lambda: "%s: repr of event %d is %r" % (ctx, s.i, shown))


def game_text(steps, log, ri):
    """the round in words: its name and its results"""
    r = log["rounds"][ri]
    return "%s%d局%d本 %s" % ("東南西北"[r["kyoku"] // 4], r["kyoku"] % 4 + 1, r["honba"],
                            ",".join(end_text(log, s.ev) for s in steps if s.rnd == ri and s.tag in ("AGARI", "RYUUKYOKU")))


def record_text(steps, log):
    """the match in words: its rules and the final standing"""
    fin = steps[-1].snap.final
    order = sorted(range(log["n"]), key=lambda p: (-fin[p][0], p))
    return "%s %s" % (type_text(log), ",".join("%d位:%s(%.1f)" % (i + 1, log["un"]["names"][p], fin[p][1])
                                               for i, p in enumerate(order)))


def judge_game(game, steps, log, ri, ctx):
    r = log["rounds"][ri]
    mine = [s for s in steps if s.rnd == ri]
    ctx = "%s, round %d" % (ctx, ri)
    with judge("game"):
        judge_events(game.events, mine, ctx)
        judge_events(game.playing, mine[1:], ctx + " playing")
        judge_events(game.end_events, [s for s in mine if s.tag in ("AGARI", "RYUUKYOKU")], ctx + " results")
        gi = game.game_index()
        expect_eq((gi.prevailing, gi.game_index), (r["kyoku"] // 4, r["kyoku"] % 4), "wrong-round", ctx)
        expect_eq(tuple(gi), (r["kyoku"] // 4, r["kyoku"] % 4), "wrong-round", ctx)
        expect_eq(game.sub_game_index(), r["honba"], "wrong-honba", ctx)
        expect_eq(game.richii_counts() * 1000, mine[0].snap.deposit, "wrong-deposit", ctx)
        expect_eq(game.initial_dora(), r["dora"], "wrong-dora", ctx)
        expect_eq(game.east_index, r["kyoku"] % 4, "wrong-dealer", ctx)
        want = game_text(steps, log, ri)
        expect_eq(str(game), want, "wrong-round-text", ctx)
        expect_eq(repr(game), "<%s>" % want, "wrong-round-text", ctx)
        expect_eq([p.index for p in game.players], list(range(log["n"])), "wrong-round-players", ctx)


def judge_rules(gt, log, ctx):
    bit = lambda k: bool(log["go"] >> k & 1)
    r = rules(log["go"])
    with judge("rules"):
        got = {"player_count": gt.player_count(), "aka": gt.has_aka_dora(), "level": gt.play_level(), "speed_up": bool(gt.speed_up()),
               "open tanyao": bool(gt.allow_tanyao_open()), "winds": gt.play_wind_count(), "rounds": gt.main_game_count(),
               "tips": bool(gt.with_tips()), "tip count": gt.tips_count(), "shadow": bool(gt.show_discard_shadow()), "text": str(gt)}
        want = {"player_count": log["n"], "aka": not bit(1), "level": 2 * bit(5) + bit(7), "speed_up": bit(6),
                "open tanyao": not bit(2), "winds": r["play_wind_count"], "rounds": r["play_wind_count"] * log["n"],
                "tips": bit(9), "tip count": (5 if bit(10) else 2) if bit(9) else 0, "shadow": bit(8), "text": type_text(log)}
    expect_eq(got, want, "wrong-rules", ctx)


def judge_record(rec, steps, log, ctx):
    un, n = log["un"], log["n"]
    with judge("record"):
        judge_events(rec.events, steps, ctx)
        judge_rules(rec.game_type, log, ctx)
    fin = steps[-1].snap.final
    with judge("record"):
        got = [(p.index, p.name, p.level_str(), float(p.rate), p.sex) for p in rec.players]
        expect_eq(got, [(i, un["names"][i], RANKS[un["dan"][i]], float(un["rate"][i]), un["sx"][i]) for i in range(n)],
                  "wrong-players", ctx)
        expect_eq([str(p) for p in rec.players], ["%s %s R%.2f" % (un["names"][i], RANKS[un["dan"][i]], float(un["rate"][i]))
                                                  for i in range(n)], "wrong-player-text", ctx)
        expect_eq(len(rec.game_list), len(log["rounds"]), "wrong-rounds", ctx)
    for ri, game in enumerate(rec.game_list):
        judge_game(game, steps, log, ri, ctx)
    with judge("result"):
        expect_eq([x * 100 for x in rec.end_score][:n], [fin[p][0] for p in range(n)], "wrong-final-score", ctx)
        expect_eq(list(rec.end_point)[:n], [fin[p][1] for p in range(n)], "wrong-final-point", ctx)
        want = record_text(steps, log)
        expect_eq(str(rec), want, "wrong-result-text", ctx)
        expect_eq(repr(rec), "<%s>" % want, "wrong-result-text", ctx)


def judge_recognition(rec, steps, log, ctx, only=None):
    """every player recognises exactly their own draws, discards, calls, declarations and wins"""
    with judge("recognition"):
        for e, s in zip(rec.events, steps):
            k = s.ev[0]
            for pl in rec.players:
                p = pl.index
                mine = {"T": s.ev[1:2], "D": s.ev[1:2], "N": s.ev[2:3], "R": s.ev[1:2],
                        "AGARI": [s.ev[1]["who"]] if k == "AGARI" else []}.get(k, [])
                mine = k if mine and mine[0] == p else None
                got = {"T": bool(pl.is_draw(e)), "D": bool(pl.is_discard(e)), "N": bool(pl.is_open_hand(e)),
                       "R": bool(pl.is_reach(e)), "AGARI": bool(pl.is_win(e)), "choice": bool(pl.is_player_choice(e))}
                want = {x: x == mine for x in ("T", "D", "N", "R", "AGARI")}
                want["choice"] = mine in ("D", "N", "AGARI")
                expect_eq(got, want, "wrong-recognition", lambda: "%s: player %d at event %d <%s %s>" % (
                    ctx, p, s.i, s.tag, s.attrs))
                if mine == "T":
                    expect_eq(pl.draw_tile_index(e), s.ev[2], "wrong-tile", ctx)
                if mine == "D":
                    expect_eq(pl.discard_tile_index(e), s.ev[2], "wrong-tile", ctx)
