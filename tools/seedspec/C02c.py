PROP = "C02"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''                if "rate" in event.attrib:
                    yield cmd(prop=PlayerView.extra_level, value=player.rate)
''',
'''                yield cmd(prop=PlayerView.extra_level, value=player.rate)
''')]
NEEDS = "a player who loses the connection and returns (the returning UN event carries the name only)"
BREAKS = "the rating of a player who reconnects becomes -127"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import ViewScope, PlayerId, PlayerView
rec = load(xml(head(), init(H4), el("T100"), el("D100"), el("BYE", who=2), el("U105"), el("E105"), el("UN", n2="P2"), ryu(owari=OWARI4)))
states = list(GameExecutor().execute(to_commands(rec)))
me = states[-1][ViewScope.player][PlayerId.third]
assert me[PlayerView.disconnected] is False
assert me[PlayerView.extra_level] == 1700.25, me[PlayerView.extra_level]
'''
