PROP = "C03"
EDITS = [("mahjong/record/universe/property_manager.py",
'''    return Counter(expected) == Counter(actual)
''',
'''    return sorted(set(expected)) == sorted(set(actual))
''')]
NEEDS = "a winner's hand which disagrees with the replayed one only in how many copies of a tile it has"
BREAKS = "strict replay accepts a contradiction between the asserted winning hand and the state"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
def log(hand):
    h = [list(x) for x in H4]
    h[0] = [0, 1, 4, 5, 8, 9, 40, 44, 48, 76, 80, 84, 108]
    win = el("AGARI", ba="0,0", hai=nums(hand), machi=109, ten="30,1000,0", yaku="0,1", doraHai=135, who=0, fromWho=0,
             sc="250,30,250,-10,250,-10,250,-10", owari=OWARI4)
    return load(xml(head(), init(h), el("T109"), win))
good = [0, 1, 4, 5, 8, 9, 40, 44, 48, 76, 80, 84, 108, 109]
list(GameExecutor(strict_mode=True).execute(to_commands(log(good))))
bad = [0, 1, 4, 5, 8, 9, 10, 40, 44, 48, 76, 80, 84, 108]
try:
    list(GameExecutor(strict_mode=True).execute(to_commands(log(bad))))
except AssertionError:
    pass
else:
    raise SystemExit("contradiction accepted")
'''
