PROP = "C02"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''        yield cmd(prop=GameView.extra_reason,
                  value=DRAWN_TYPES[event.attrib["type"]] if "type" in event.attrib else "EXHAUSTED")
''',
'''        if "type" in event.attrib or ("all", GameView.extra_reason) not in ctx:
            yield cmd(prop=GameView.extra_reason,
                      value=DRAWN_TYPES[event.attrib["type"]] if "type" in event.attrib else "EXHAUSTED")
''')]
NEEDS = "an abortive draw, and a later round of the same log which ends in an ordinary draw"
BREAKS = "the later round keeps the reason of the earlier one"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import ViewScope, GameView
rec = load(xml(head(), init(H4), el("T100"), ryu(type="yao9"), init(H4, honba=1), el("T100"), el("D100"), ryu(owari=OWARI4)))
st = list(GameExecutor(strict_mode=True).execute(to_commands(rec)))[-1]
got = st[ViewScope.game]["single"][GameView.extra_reason]
assert got == "EXHAUSTED", got
'''
