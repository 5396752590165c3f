"""Comparison of replayed universal states with the table's truth (shared by C02, C05, C17)."""
from collections import Counter

from . import ref
from .core import expect, expect_eq, judge, Violation
from .table import RANKS

YAKU = ("門前清自摸和 立直 一発 槍槓 嶺上開花 海底摸月 河底撈魚 平和 断幺九 一盃口 自風|東 自風|南 自風|西 自風|北 場風|東 場風|南 場風|西 "
        "場風|北 役牌|白 役牌|發 役牌|中 両立直 七対子 混全帯幺九 一気通貫 三色同順 三色同刻 三槓子 対々和 三暗刻 小三元 混老頭 二盃口 "
        "純全帯幺九 混一色 清一色 人和 天和 地和 大三元 四暗刻 四暗刻単騎 字一色 緑一色 清老頭 九蓮宝燈 純正九蓮宝燈 国士無双 "
        "国士無双１３面 大四喜 小四喜 四槓子 ドラ 裏ドラ 赤ドラ").replace("|", "\x00").split(" ")
YAKU = [y.replace("\x00", " ") for y in YAKU]
assert len(YAKU) == 55


def bag(ids):
    return Counter(ref.tile_str(t) for t in ids)


def meld_bags(pl):
    """melds as the table shows them"""
    return [bag(m.own | m.called) for m in pl.melds if m.kind != "kita"]


def join_added(groups):
    """a list of shown melds, with a lone added tile put back to the triplet it extends"""
    out = []
    for g in groups:
        c = Counter(str(x) for x in g)
        if sum(c.values()) == 1:
            (t,) = c
            k = ref.kind_of_str(t)
            for o in out:
                if sum(o.values()) == 3 and all(ref.kind_of_str(x) == k for x in o):
                    o.update(c)
                    break
            else:
                out.append(c)
        else:
            out.append(c)
    return out


class Names:
    def __init__(self, repo):
        f = repo.mod("mahjong.record.universe.format")
        self.f = f
        self.P, self.G, self.R, self.S, self.id = f.PlayerView, f.GameView, f.RecordView, f.ViewScope, f.PlayerId


def rules(go):
    bit = lambda k: bool(go >> k & 1)
    level = 2 * bit(5) + bit(7)
    return {
        "play_level": ("若銀琥孔" if bit(9) else "般上特鳳")[level],
        "show_discard_shadow": bit(8), "play_wind_count": 2 if bit(3) else 1, "allow_tanyao_open": not bit(2),
        "speed_up": bit(6), "player_count": 3 if bit(4) else 4,
    }


def tiles_in_play(n, aka):
    return bag(t for t in range(136) if n == 4 or not 4 <= t < 32) if aka else \
        Counter(ref.kind_str(t // 4) for t in range(136) if n == 4 or not 4 <= t < 32)


def compare(state, snap, step, log, nm, ctx):
    """every property of the table; a property that the table does not have yet must not disagree"""
    n = log["n"]
    un = log["un"]
    G, P = nm.G, nm.P
    with judge("state"):
        game = state[nm.S.game]["single"]
        rec = state[nm.S.record]["single"]
        players = [state[nm.S.player][nm.id(p)] for p in range(n)]
        stamp = state["global"]["time"]["timestamp"]

    def eq(got, want, what):
        if got != want or isinstance(want, bool) and not isinstance(got, bool):
            raise Violation("state-" + what, "%s: after event %d <%s %s>\n got: %r\nwant: %r" % (
                ctx, step.i, step.tag, step.attrs, got, want))

    def val(part, key, what):
        with judge("state"):
            if key not in part:
                raise Violation("state-missing-" + what, "%s: after event %d <%s %s>" % (ctx, step.i, step.tag, step.attrs))
            return part[key]

    with judge("state"):
        eq(stamp, step.i, "timestamp")
        for k, v in rules(log["go"]).items():
            if step.tag != "SHUFFLE":
                eq(val(rec, nm.R[k], k), v, k)
        if step.tag != "SHUFFLE":
            eq(Counter(val(rec, nm.R.using_tiles, "using_tiles")), tiles_in_play(n, not log["go"] >> 1 & 1), "using_tiles")
        if log.get("shuffle"):
            eq(val(rec, nm.R.seed, "seed"), log["shuffle"], "seed")
        if snap.players[0].away is None:
            return
        for p, (part, pl) in enumerate(zip(players, snap.players)):
            w = "player %d " % p
            eq(val(part, P.name, "name"), un["names"][p], "name")
            eq(val(part, P.level, "level"), RANKS[un["dan"][p]], "level")
            eq(float(val(part, P.extra_level, "rating")), float(un["rate"][p]), "rating")
            eq(val(part, P.disconnected, "connection"), pl.away, "connection")
            if pl.dealer is not None:
                eq(val(part, P.is_dealer, "dealer"), pl.dealer, "dealer")
            if not snap.started:
                continue
            eq(Counter(val(part, P.hand, "hand")), bag(pl.hand), "hand")
            eq([str(x) for x in val(part, P.discard_tiles, "discards")], [ref.tile_str(t) for t, _ in pl.discards], "discards")
            eq([bool(x) for x in val(part, P.discard_from_hand, "from-hand")], [f for _, f in pl.discards], "from-hand")
            eq(val(part, P.round, "turns"), pl.turn, "turns")
            eq(join_added(val(part, P.fixed_meld, "melds")), meld_bags(pl), "melds")
            eq(Counter(val(part, P.meld_public_tiles, "shown")), bag(pl.shown), "shown")
            eq(Counter(val(part, P.bonus_tiles, "bonus")), bag(pl.bonus), "bonus")
            eq(val(part, P.in_richii, "riichi"), pl.riichi, "riichi")
            eq(val(part, P.score, "score"), pl.score, "score")
            if snap.win is not None:
                eq(val(part, P.is_win, "win"), snap.win[p], "win")
                eq(val(part, P.is_self_win, "self-win"), snap.self_win, "self-win")
                eq(val(part, P.is_discard_lose_game, "lose"), snap.lose[p], "lose")
                eq(list(val(part, P.faans, "yaku")), [YAKU[y] for y in snap.yaku[p]], "yaku")
            if snap.final is not None:
                eq(val(part, P.final_score, "final-score"), snap.final[p][0], "final-score")
                eq(val(part, P.final_point, "final-point"), snap.final[p][1], "final-point")
                eq(val(part, P.rank, "rank"), snap.final[p][2], "rank")
            else:
                expect(P.rank not in part and P.final_score not in part, "state-early-result",
                       "%s: final result before the end, after event %d" % (ctx, step.i))
        if snap.started:
            eq(val(game, G.wind, "wind"), snap.wind, "wind")
            eq(val(game, G.round, "round"), snap.round, "round")
            eq(val(game, G.sub_round, "honba"), snap.honba, "honba")
            eq(val(game, G.richii_remain_scores, "deposit"), snap.deposit, "deposit")
            eq([str(x) for x in val(game, G.dora_indicators, "dora")], [ref.tile_str(t) for t in snap.dora], "dora")
            if snap.nobody_win is not None:
                eq(val(game, G.nobody_win, "outcome"), snap.nobody_win, "outcome")
                if snap.nobody_win:
                    eq(val(game, G.extra_reason, "draw-reason"), snap.reason, "draw-reason")


LABELS = {"GO": {"record_init"}, "TAIKYOKU": {"game_init"}, "SHUFFLE": {"record_init"},
          "UN": {"record_init", "connect_change"}, "BYE": {"connect_change"}, "INIT": {"game_init", "new_dora"},
          "N": {"open_hand"}, "DORA": {"new_dora"}, "REACH": {"richii"}}


def labels(step):
    tag = step.tag
    if tag in ("AGARI", "RYUUKYOKU"):
        return {"game_finish", "record_finish"} if "owari" in step.attrs else {"game_finish"}
    if tag in LABELS:
        return LABELS[tag]
    return {"draw"} if tag[0] in "TUVW" else {"discard"}


def check_command(cmd, step, ctx):
    """the label of a command"""
    with judge("command"):
        got = cmd.event.name
    expect(got in labels(step), "event-label", "%s: command %s of event %d <%s> is labelled %s" % (
        ctx, cmd, step.i, step.tag, got))


def group_by_event(cmds, steps, ctx, strict=True):
    """every event has at least one command, in log order; all labels of the event occur"""
    groups = [[] for _ in steps]
    last = -1
    for c in cmds:
        with judge("command"):
            ts = c.timestamp
            expect(isinstance(ts, int) and 0 <= ts < len(steps), "timestamp", "%s: command %s carries timestamp %r" % (ctx, c, ts))
        expect(ts >= last, "command-order", "%s: command of event %r after one of event %r" % (ctx, ts, last))
        last = ts
        check_command(c, steps[ts], ctx)
        groups[ts].append(c)
    for g, s in zip(groups, steps):
        if s.ev[0] == "X":
            continue
        expect(g or not strict, "no-command", "%s: event %d <%s %s> contributes no command" % (ctx, s.i, s.tag, s.attrs))
        have = {c.event.name for c in g}
        expect(have == labels(s), "event-labels", "%s: event %d <%s> gives commands labelled %s, expected %s" % (
            ctx, s.i, s.tag, sorted(have), sorted(labels(s))))
    return groups
