PROP = "C12"
EDITS = [("mahjong/container/pattern/reasoning.py",
'''    def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
        search = copy(self)  # the bound belongs to one search only
''',
'''    def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
        if getattr(self, "hand", None) is not hand:
            self.step = self.search_step(hand, ignore_4counts)
            self.hand = hand
        return self.step

    def search_step(self, hand: TileSet, ignore_4counts=True):
        search = copy(self)  # the bound belongs to one search only
''')]
NEEDS = "a hand asked about twice by one analyser with a tile exchanged in place in between, or two threads sharing the analyser"
BREAKS = "the answer for the earlier hand is given for the later one"
DEMO = '''
from mahjong.container.utils import tile_set_from_string
from mahjong.container.pattern.win import NormalTypeWin
from mahjong.container.pattern.reasoning import HeuristicPatternMatchWaiting
from mahjong.tile.definition import Tile
an = HeuristicPatternMatchWaiting(NormalTypeWin())
h = tile_set_from_string("123456789m11123p")
assert an.before_waiting_step(h) == -1
h[Tile(3, "p")] -= 1
del h[Tile(3, "p")]
h[Tile(7, "z")] += 1
now = an.before_waiting_step(h)
fresh = HeuristicPatternMatchWaiting(NormalTypeWin()).before_waiting_step(tile_set_from_string("123456789m1112p7z"))
assert now == fresh == 0, (now, fresh)
'''
