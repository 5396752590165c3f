PROP = "C03"
EDITS = [("mahjong/record/universe/property_manager.py",
'''@prop_manager.register(ViewType.tiles, PropertyMethod.check_equal)
def tiles_equal(expected, actual):
    return Counter(expected) == Counter(actual)
''',
'''@prop_manager.register(ViewType.tiles, PropertyMethod.check_equal)
def tiles_equal(expected, actual):
    # a red five is a five
    return Counter(t.replace("0", "5") for t in expected) == Counter(t.replace("0", "5") for t in actual)
''')]
NEEDS = "a winner's hand which disagrees only in a red five being a plain one"
BREAKS = "strict replay accepts a winning hand that is not the replayed one"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
def log(hand):
    h = [list(x) for x in H4]
    h[0] = [0, 1, 4, 5, 8, 9, 16, 44, 48, 76, 80, 84, 108]
    win = el("AGARI", ba="0,0", hai=nums(hand), machi=109, ten="30,1000,0", yaku="0,1", doraHai=135, who=0, fromWho=0,
             sc="250,30,250,-10,250,-10,250,-10", owari=OWARI4)
    return load(xml(head(), init(h), el("T109"), win))
list(GameExecutor(strict_mode=True).execute(to_commands(log([0, 1, 4, 5, 8, 9, 16, 44, 48, 76, 80, 84, 108, 109]))))
try:
    list(GameExecutor(strict_mode=True).execute(to_commands(log([0, 1, 4, 5, 8, 9, 17, 44, 48, 76, 80, 84, 108, 109]))))
except AssertionError:
    pass
else:
    raise SystemExit("contradiction accepted")
'''
