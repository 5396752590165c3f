PROP = "C11"
EDITS = [("mahjong/container/distribution.py",
'''    def sample(self, count: int) -> Iterator[Tile]:
        current = self
        for i in range(count):
            next_item, *_ = random.choices(TileDistribution.ALL_TILES, current.weights())
            # print(next_item)
            yield next_item
            current = current.pick(next_item)
''',
'''    _last = {}

    def sample(self, count: int) -> Iterator[Tile]:
        TileDistribution._last[id(self)] = self
        for i in range(count):
            next_item, *_ = random.choices(TileDistribution.ALL_TILES, TileDistribution._last[id(self)].weights())
            # print(next_item)
            yield next_item
            TileDistribution._last[id(self)] = TileDistribution._last[id(self)].pick(next_item)
''')]
NEEDS = "two drawings from the same wall at the same time"
BREAKS = "two drawings from one wall take tiles from each other"
DEMO = '''
import random
from collections import Counter
from mahjong.container.distribution import StaticWall
from mahjong.container.utils import tile_set_from_string
random.seed(1)
w = StaticWall(tile_set_from_string("1112m3p"))
a, b = w.sample(5), w.sample(5)
got = [[], []]
for i in range(5):
    got[0].append(next(a))
    got[1].append(next(b))
for g in got:
    assert Counter(g) == Counter(tile_set_from_string("1112m3p")), g
'''
