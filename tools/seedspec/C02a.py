PROP = "C02"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''    elif update_method == Update.REMOVE:
        new_tile = None
''',
'''    elif update_method == Update.REMOVE and new_tile in (hand_raw if isinstance(hand_raw, list) else [hand_raw]):
        new_tile = None
''')]
NEEDS = """a player who throws a tile from the hand and keeps the drawn one, then calls pon or chi before drawing again, and
throws exactly the tile drawn earlier"""
BREAKS = "the from-hand flag of a discard after a call is false when the tile is the one drawn before the call"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import ViewScope, PlayerId, PlayerView
h = [list(x) for x in H4]
h[0] = [0, 8, 16, 24, 36, 44, 52, 60, 72, 80, 120, 121, 112]
h[3] = [3, 11, 19, 27, 39, 47, 55, 63, 75, 83, 91, 111, 122]
rec = load(xml(head(), init(h), el("T100"), el("D0"), el("U105"), el("E105"), el("V107"), el("F107"), el("W130"), el("G122"),
               el("N", who=0, m=pon([120, 121], 122, 3)), el("D100"), ryu(owari=OWARI4)))
states = list(GameExecutor(strict_mode=True).execute(to_commands(rec, strict=False)))
got = states[-1][ViewScope.player][PlayerId.first][PlayerView.discard_from_hand]
assert got == [True, True], got
'''
