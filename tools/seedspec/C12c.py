PROP = "C12"
EDITS = [("mahjong/container/set.py",
'''    def __lt__(self, other: TileSet):
        return list(self.items()) < list(other.items())
''',
'''    def __lt__(self, other: TileSet):
        # compare in the order of tiles
        self.re_sort()
        other.re_sort()
        return list(self.items()) < list(other.items())
''')]
NEEDS = "a shared hand or unit compared (or sorted) by one thread while another one reads it; cancelled between clear() and refill"
BREAKS = "a hand is empty for a moment while it is compared: others miss tiles, a cancelled comparison loses them for good"
DEMO = '''
from mahjong.container.utils import tile_set_from_string
from mahjong.container.set import TileSet
from mahjong.tile.definition import Tile
a = TileSet([Tile(3, "p"), Tile(1, "m")])
b = tile_set_from_string("2m3p")
it = iter(a.items())
first = next(it)
a < b
rest = list(it)
assert [first] + rest == [(Tile(3, "p"), 1), (Tile(1, "m"), 1)], (first, rest)
'''
