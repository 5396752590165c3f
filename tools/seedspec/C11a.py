PROP = "C11"
EDITS = [("mahjong/container/distribution.py",
'''    def __init__(self, tiles: TileSet):
        self._tiles = tiles

    def weight_of(self, tile: Tile) -> Number:
        return self._tiles[tile]

    def pick(self, tile: Tile) -> TileDistribution:
        return StaticWall(self._tiles - Counter([tile]))
''',
'''    def __init__(self, tiles: TileSet, weights=None):
        self._tiles = tiles
        self._weights = weights

    def weights(self):
        # looking up all the tiles is slow, a draw changes one number only.
        if self._weights is None:
            self._weights = super().weights()
        return self._weights

    def weight_of(self, tile: Tile) -> Number:
        return self._tiles[tile]

    def pick(self, tile: Tile) -> TileDistribution:
        weights = self.weights()
        weights[TileDistribution.ALL_TILES.index(tile)] -= 1
        return StaticWall(self._tiles - Counter([tile]), weights)
''')]
NEEDS = "a second drawing from a wall one has already drawn from (or two at a time)"
BREAKS = "drawings share one weight list: tiles drawn by one are missing for the other, and for the next"
DEMO = '''
import random
from collections import Counter
from mahjong.container.distribution import StaticWall
from mahjong.container.utils import tile_set_from_string
random.seed(1)
w = StaticWall(tile_set_from_string("1112m3p"))
for i in range(3):
    assert Counter(w.sample(5)) == Counter(tile_set_from_string("1112m3p")), i
'''
