PROP = "C02"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''    sc_list = number_list(event.attrib["sc"]) if "sc" in event.attrib else None
''',
'''    # an abortive draw has a type and moves no points
    sc_list = number_list(event.attrib["sc"]) if "type" not in event.attrib else None
''')]
NEEDS = "a draw with payments and a type (all discards of a client are terminals, nm)"
BREAKS = "the payments of such a draw are missing from the scores"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import PlayerView, ViewScope
rec = load(xml(head(), init(H4), el("T104"), el("D104"),
               el("RYUUKYOKU", type="nm", ba="0,0", sc="250,120,250,-40,250,-40,250,-40", owari="370,37.0,210,-9.0,210,-9.0,210,-19.0")))
*_, last = GameExecutor(strict_mode=True).execute(to_commands(rec))
flat = {k: v for k, v in last.flatten_iter() if k[-1] == PlayerView.score}
assert sorted(flat.values()) == [21000, 21000, 21000, 37000], flat
'''
