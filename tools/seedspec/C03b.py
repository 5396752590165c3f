PROP = "C03"
EDITS = [("mahjong/record/universe/property_manager.py",
'''    for val in values:
        lst_r.remove(val)
    return lst_r
''',
'''    for val in values:
        if len(lst_r) > 1 or val in lst_r:
            lst_r.remove(val)
    return lst_r
''')]
NEEDS = "a log event lost or altered such that a tile is removed from a hand which holds a single other tile (four melds called)"
BREAKS = "removing a tile the player does not hold is accepted when one tile is left"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
h = [list(x) for x in H4]
h[0] = [5, 6, 9, 10, 13, 14, 41, 42, 120, 124, 128, 132, 100]
parts = [head(), init(h)]
own = [120, 124, 128, 132]
for k, (a, b, c, o) in enumerate([(5, 6, 7, 120), (9, 10, 11, 124), (13, 14, 15, 128), (41, 42, 43, 132)]):
    parts += [el("W%d" % c), el("G%d" % c), el("N", who=0, m=pon([a, b], c, 3)), el("D%d" % o)]
parts += [el("D104"), ryu(owari=OWARI4)]   # the draw of 104 was lost
try:
    list(GameExecutor(strict_mode=True).execute(to_commands(load(xml(*parts)))))
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("removal of a tile which is not there accepted")
'''
