PROP = "C11"
EDITS = [("mahjong/container/distribution.py",
'''    def weight_of(self, tile: Tile) -> Number:
        return self._tiles[tile]
''',
'''    def weight_of(self, tile: Tile) -> Number:
        return self._tiles[tile] and (self._tiles[tile] + 1) // 2 * 2
''')]
NEEDS = "statistics over many draws from walls with odd numbers of copies"
BREAKS = "odd numbers of copies are weighed like the next even one: one copy counts as much as two"
DEMO = '''
import random
from mahjong.container.distribution import StaticWall
from mahjong.container.utils import tile_set_from_string
random.seed(5)
w = StaticWall(tile_set_from_string("1m22p"))
n = sum(str(next(iter(w.sample(1)))) == "1m" for _ in range(6000))
assert 1800 < n < 2200, n
'''
