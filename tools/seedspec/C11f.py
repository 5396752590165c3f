PROP = "C11"
EDITS = [("mahjong/container/distribution.py",
'''        current = self
        for i in range(count):
''',
'''        current = self
        if count == sum(current.weights()):
            # the whole wall, nothing is left to chance
            for tile, copies in zip(TileDistribution.ALL_TILES, current.weights()):
                yield from [tile] * copies
            return
        for i in range(count):
''')]
NEEDS = "a drawing of exactly as many tiles as the wall holds, of which the order is looked at"
BREAKS = "the first tile drawn is always the same"
DEMO = '''
import random
from mahjong.container.distribution import StaticWall
from mahjong.container.utils import tile_set_from_string
random.seed(7)
first = {str(next(iter(StaticWall(tile_set_from_string("1234m1234p")).sample(8)))) for _ in range(400)}
assert len(first) == 8, first
'''
