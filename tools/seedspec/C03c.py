PROP = "C03"
EDITS = [("mahjong/record/universe/executor.py",
'''            if view_property in view:
                actual = old_value
''',
'''            if old_value:
                actual = old_value
''')]
NEEDS = "a player whose replayed score is exactly 0 (or empty hand) when the log asserts another one"
BREAKS = "strict replay accepts any asserted score for a player who has 0 points"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
def log(second):
    return load(xml(head(), init(H4, ten=[0, 400, 300, 300]), el("T100"), el("D100"), ryu(ten=[0, 400, 300, 300]),
                    init(H4, honba=1, ten=second), el("T100"), el("D100"), ryu(ten=second, owari=OWARI4)))
list(GameExecutor(strict_mode=True).execute(to_commands(log([0, 400, 300, 300]))))
try:
    list(GameExecutor(strict_mode=True).execute(to_commands(log([10, 400, 300, 300]))))
except AssertionError:
    pass
else:
    raise SystemExit("contradiction accepted")
'''
