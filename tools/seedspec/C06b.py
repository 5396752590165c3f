PROP = "C06"
EDITS = [("mahjong/record/universe/property_manager.py",
'''def json_dump(x):
    return json.dumps(x)
''',
'''def json_dump(x):
    return json.dumps(round(x, 1) if isinstance(x, float) else x)
''')]
NEEDS = "a final point total with two decimals (tables with half-point stakes): the server prints one decimal, rules with tips more"
BREAKS = "final points are exported rounded to one decimal"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.format import PlayerView
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari="250,15.25,250,5.0,250,-5.25,250,-15.0")))
cmds = to_commands(rec)
back = GameCommand.read_clean_csv(stored(GameCommand.to_dataframe(cmds).to_csv()))
for c, (_, r) in zip(cmds, back.iterrows()):
    assert r["property"] == c.property, c
    if c.property in (PlayerView.name, PlayerView.final_point):
        assert r["value"] == c.value, (c, r["value"])
'''
