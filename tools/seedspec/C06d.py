PROP = "C06"
EDITS = [("mahjong/record/universe/property_manager.py",
'''def plain_str(x):
    return str(x)
''',
'''def plain_str(x):
    return unicodedata.normalize("NFC", str(x))
'''), ("mahjong/record/universe/property_manager.py", "import json\n", "import json\nimport unicodedata\n")]
NEEDS = "a player whose name is not in composed normal form (combining marks, compatibility ideographs)"
BREAKS = "the reloaded name is another string"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.command import GameCommand
rec = load(xml(head(names=["か\\u3099", "e\\u0301", "\\uf9dc", "B"]), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
cmds = to_commands(rec)
back = GameCommand.read_clean_csv(stored(GameCommand.to_dataframe(cmds).to_csv()))
for c, (_, r) in zip(cmds, back.iterrows()):
    if c.property.name == "name":
        assert r["value"] == c.value, (c, r["value"])
'''
