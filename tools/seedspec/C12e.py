PROP = "C12"
EDITS = [("mahjong/container/pattern/win.py",
'''        return distinct((sorted(selection) for selection in self.win_selections(hand)))
''',
'''        self.seen = set()
        for selection in self.win_selections(hand):
            selection = sorted(selection)
            if repr(selection) not in self.seen:
                self.seen.add(repr(selection))
                yield selection
''')]
NEEDS = "two iterators over the wins of hands from one pattern, read in turns"
BREAKS = "wins found by one iterator are missing from the other one"
DEMO = '''
from mahjong.container.utils import tile_set_from_string
from mahjong.container.pattern.win import NormalTypeWin
p = NormalTypeWin()
texts = ["11122233344455m", "11122233344455m"]
whole = [list(map(repr, p.unique_win_selections(tile_set_from_string(t)))) for t in texts]
assert len(whole[0]) > 1
its = [p.unique_win_selections(tile_set_from_string(t)) for t in texts]
got = [[], []]
while any(its):
    for i in (0, 1):
        if its[i]:
            try:
                got[i].append(repr(next(its[i])))
            except StopIteration:
                its[i] = None
assert got == whole, (got, whole)
'''
