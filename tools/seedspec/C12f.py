PROP = "C12"
EDITS = [("mahjong/container/set.py",
'''    def __sub__(self, other) -> TileSet:
''',
'''    def __sub__(self, other) -> TileSet:
        if not any(tile in self for tile in other):
            return self
''')]
NEEDS = "tiles taken out of a hand that holds none of them, and the result changed in place"
BREAKS = "the hand itself changes with the result"
DEMO = '''
from mahjong.container.utils import tile_set_from_string
from mahjong.tile.definition import Tile
for other in ("", "9s", "1m"):
    h = tile_set_from_string("123456m11z")
    rest = h - tile_set_from_string(other)
    rest[Tile(7, "z")] += 1
    assert str(h) == str(tile_set_from_string("123456m11z")), (other, str(h))
'''
