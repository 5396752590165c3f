PROP = "C01"
EDITS = [("mahjong/record/state.py",
'''class InvisibleTiles(GameState):
    def __init__(self, player_num: int, invisible_tiles=None):
        if invisible_tiles is None:
            tile_total = len(TENHOU_TILE_CATEGORY)
            if player_num == 4:
                invisible_tiles = set(range(tile_total))
            elif player_num == 3:
                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i))
                               for num, i in product([1 - 1, 9 - 1], range(4)))
                others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                invisible_tiles = set(chain(color_1m_9m, others))
        self._invisible_tiles''',
'''@lru_cache(maxsize=None)
def all_tiles_of(player_num: int) -> Set[int]:
    tile_total = len(TENHOU_TILE_CATEGORY)
    if player_num == 4:
        return set(range(tile_total))
    elif player_num == 3:
        color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i))
                       for num, i in product([1 - 1, 9 - 1], range(4)))
        others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
        return set(chain(color_1m_9m, others))


class InvisibleTiles(GameState):
    def __init__(self, player_num: int, invisible_tiles=None):
        if invisible_tiles is None:
            invisible_tiles = all_tiles_of(player_num)
        self._invisible_tiles'''),
("mahjong/record/state.py", "from functools import reduce\n", "from functools import lru_cache, reduce\n")]
NEEDS = "a second round (or a second tracker): the cached set of all tiles is changed in place where a round starts"
BREAKS = "dora indicators of earlier rounds stay missing from the tiles not yet revealed"
DEMO = '''
from mahjong.record.state import InvisibleTiles
st = InvisibleTiles(4)
def start(dora):
    return ev("INIT", seed="0,0,0,1,2,%d" % dora, ten="250,250,250,250", oya=0)
a = st.scan(start(135))
b = a.scan(start(20))
assert b.value == set(range(136)) - {20}
assert a.value == set(range(136)) - {135}
'''
