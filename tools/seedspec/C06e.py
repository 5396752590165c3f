PROP = "C06"
EDITS = [("mahjong/record/universe/command.py",
'''        return GameCommand.clean(pandas.read_csv(
            csv_path,
''',
'''        return GameCommand.clean(pandas.read_csv(
            csv_path,
            comment="#",
'''),
("mahjong/record/universe/command.py",
'''    @staticmethod
    def read_clean_csv(csv_path):
''',
'''    @staticmethod
    def read_clean_csv(csv_path):
        # tables may carry comments
'''),
("mahjong/record/universe/command.py",
'''def try_int(x):
    if isinstance(x, str) and x.isdigit():
        return int(x)
    return x
''',
'''def try_int(x):
    return int(x) if isinstance(x, str) and x.isdigit() else x
''')]
NEEDS = "a player whose name contains a #"
BREAKS = "the reloaded name ends before it, the state of the command is missing"
DEMO = '''
import pandas, shutil
from mahjong.record.universe.command import GameCommand
from mahjong.record.universe.tenhou import to_commands
d = tempfile.mkdtemp()
try:
    rec = load(xml(head(names=["a#1", "b", "c", "d"]), init(H4), el("T104"), el("D104"), ryu(owari=OWARI4)))
    p = os.path.join(d, "x.csv")
    GameCommand.to_dataframe(list(to_commands(rec))).to_csv(p, index=False)
    df = GameCommand.read_clean_csv(p)
finally:
    shutil.rmtree(d)
assert "a#1" in list(df["value"]), [x for x in df["value"] if isinstance(x, str)][:20]
'''
