PROP = "C03"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''                if "rate" in event.attrib:
                    yield cmd(prop=PlayerView.extra_level, value=player.rate)
''',
'''                if "rate" in event.attrib and (player_id, PlayerView.extra_level) not in ctx:
                    yield cmd(prop=PlayerView.extra_level, value=player.rate)
'''), ("mahjong/record/universe/tenhou/event_definition.py",
'''        with cmd.when(sub_scope=p_id):
            if sc_list is not None:
''',
'''        with cmd.when(sub_scope=p_id):
            if sc_list is not None and any(sc_list[1::2]):
''')]
NEEDS = "a round end without any payment whose score list was altered (or comes after a lost event)"
BREAKS = "no score is asserted or adopted at round ends without payments"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.format import PlayerView
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
n = sum(1 for c in to_commands(rec) if c.property == PlayerView.score)
assert n == 4 + 8, n
'''
