PROP = "C12"
EDITS = [("mahjong/container/pattern/win.py",
'''        if tile not in self._used and self._pairs > 0:
            yield (tile.pair(), UniquePairs(self._pairs - 1, self._used | {tile}))
''',
'''        if tile not in self._used and self._pairs > 0:
            self._used.add(tile)
            try:
                yield (tile.pair(), UniquePairs(self._pairs - 1, set(self._used)))
            finally:
                self._used.remove(tile)
''')]
NEEDS = "two half-consumed enumerations (or threads) over the same pattern object, or one cancelled between add and try"
BREAKS = "a tile in use by one search is refused by another one over the same pattern"
DEMO = '''
from mahjong.container.pattern.win import UniquePairs
from mahjong.tile.definition import Tile
p = UniquePairs()
a, b = p.next_states(Tile(1, "m")), p.next_states(Tile(1, "m"))
assert len([next(a)]) == 1
assert len(list(b)) == 1
'''
