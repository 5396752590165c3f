PROP = "C03"
EDITS = [("mahjong/record/universe/property_manager.py",
'''def general_equal(expceted, actual):
    return expceted == actual
''',
'''def general_equal(expceted, actual):
    if isinstance(expceted, str) and isinstance(actual, str):
        # players come back with the same name in another case or padded
        return expceted.strip().lower() == actual.strip().lower()
    return expceted == actual
''')]
NEEDS = "a returning player whose name differs from the one at the start only in case or outer white space"
BREAKS = "strict replay accepts another player's name in that seat"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
def run(name):
    rec = load(xml(head(names=["Anna", "B", "C", "D"]), init(H4), el("T100"), el("BYE", who=0), el("UN", n0=name), el("D100"), ryu(owari=OWARI4)))
    return list(GameExecutor(strict_mode=True).execute(to_commands(rec)))
run("Anna")
for other in ("anna", "Anna%20", "ANNA"):
    try:
        run(other)
    except AssertionError:
        pass
    else:
        raise SystemExit("contradiction accepted: " + other)
'''
