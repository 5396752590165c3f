PROP = "C12"
EDITS = [("mahjong/tile/definition.py",
'''            self._flush = TileSet(
                [self] + [Tile(self._number + i, self._color) for i in range(1, Tile.FLUSH_LENGTH)]
            ) if self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1 else None
''',
'''            self._flush = None
'''), ("mahjong/tile/definition.py",
'''        # if self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1:
        #     return TileSet(
        #         (Tile(self._number + i, self._color) for i in range(Tile.FLUSH_LENGTH))
        #     )
        return self._flush
''',
'''        if self._flush is None and self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1:
            # made at the first use
            self._flush = TileSet()
            for i in range(Tile.FLUSH_LENGTH):
                self._flush[Tile(self._number + i, self._color)] += 1
        return self._flush
''')]
NEEDS = "the first use of a tile's sequence, preempted by another thread or cancelled before it is complete"
BREAKS = "an incomplete sequence is seen by others, after a cancellation for ever"
DEMO = '''
import sys
from mahjong.tile.definition import Tile
class Cancel(BaseException):
    pass
# the first use is cancelled a few steps into it, at every possible place in turn
def want(n, c):
    return {(n + i, c) for i in range(3)}
for limit in range(1, 60):
    n, c = 1 + limit % 7, "mps"[limit // 7 % 3]
    t = Tile(n, c)
    steps = [0]
    def trace(frame, what, arg):
        steps[0] += 1
        if steps[0] > limit:
            raise Cancel()
        return trace
    sys.settrace(trace)
    try:
        t.flush()
    except Cancel:
        pass
    finally:
        sys.settrace(None)
    got = {(x.number, x.color) for x in t.flush()}
    assert got == want(n, c), (n, c, got)
'''
