PROP = "C11"
EDITS = [("mahjong/container/distribution.py",
'''        current = self
        for i in range(count):
            next_item, *_ = random.choices(TileDistribution.ALL_TILES, current.weights())
            # print(next_item)
            yield next_item
            current = current.pick(next_item)
''',
'''        current = self
        while count > 0:
            weights = current.weights()
            # a big wall hardly changes by one tile
            at_once = 2 if count > 1 and sum(weights) >= 100 else 1
            for next_item in random.choices(TileDistribution.ALL_TILES, weights, k=at_once):
                yield next_item
                current = current.pick(next_item)
            count -= at_once
''')]
NEEDS = "a wall of 100 tiles or more and the same tile drawn twice in a row while only one copy was left"
BREAKS = "a tile is drawn more often than the wall holds it"
DEMO = '''
import random
from collections import Counter
from mahjong.container.distribution import StaticWall, TileDistribution
from mahjong.container.set import TileSet
random.seed(1)
w = TileSet(TileDistribution.ALL_TILES * 4) - TileSet(TileDistribution.ALL_TILES[:11] * 3)
for i in range(4000):
    got = Counter(StaticWall(w).sample(4))
    assert all(n <= w[t] for t, n in got.items()), (i, got)
'''
