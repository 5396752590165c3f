PROP = "C11"
EDITS = [("mahjong/container/distribution.py",
'''        current = self
        for i in range(count):
            next_item, *_ = random.choices(TileDistribution.ALL_TILES, current.weights())
''',
'''        current = self
        tiles = [tile for tile, weight in zip(TileDistribution.ALL_TILES, self.weights()) if weight > 0]
        for i in range(count):
            next_item, *_ = random.choices(tiles, [current.weight_of(tile) or 0.001 for tile in tiles])
''')]
NEEDS = "a wall with a used up tile and a random value that falls into its remaining sliver of weight"
BREAKS = "a tile can be drawn more often than the wall holds it"
DEMO = '''
import random
from collections import Counter
from mahjong.container.distribution import StaticWall
from mahjong.container.utils import tile_set_from_string
random.seed(7)
hand = tile_set_from_string("12m3p")
for i in range(3000):
    assert Counter(StaticWall(hand).sample(3)) == Counter(hand), i
'''
