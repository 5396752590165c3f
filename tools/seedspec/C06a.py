PROP = "C06"
EDITS = [("mahjong/record/universe/property_manager.py",
'''@prop_manager.register(ViewType.str, PropertyMethod.to_str)
@prop_manager.register(ViewType.str, PropertyMethod.from_str)
def plain_str(x):
    return str(x)
''',
'''@prop_manager.register(ViewType.str, PropertyMethod.to_str)
@prop_manager.register(ViewType.str, PropertyMethod.from_str)
def plain_str(x):
    return str(x).strip()
''')]
NEEDS = "a player whose name begins or ends with white space"
BREAKS = "the reloaded name has lost its outer spaces"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import PlayerView
rec = load(xml(head(names=["A", " x", "y ", "B"]), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
cmds = to_commands(rec)
back = GameCommand.read_clean_csv(stored(GameCommand.to_dataframe(cmds).to_csv()))
for c, (_, r) in zip(cmds, back.iterrows()):
    assert r["property"] == c.property, c
    if c.property in (PlayerView.name, PlayerView.final_point):
        assert r["value"] == c.value, (c, r["value"])
'''
