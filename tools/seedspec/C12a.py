PROP = "C12"
EDITS = [("mahjong/tile/definition.py",
'''        tile_hash = tile_hash_num(color, number)
        if tile_hash in AkaTile._ATILE_POOL:
            return AkaTile._ATILE_POOL[tile_hash]
        else:
            tile_hash = tile_hash_num(color, number + 5)
            tile_obj''',
'''        tile_hash = tile_hash_num(color, number + 5)
        if tile_hash in AkaTile._ATILE_POOL:
            return AkaTile._ATILE_POOL[tile_hash]
        else:
            tile_obj''')]
NEEDS = """the first use of a red five interrupted (or preempted by another thread) between entering it into the pool and
completing it: the pool, which never worked for red fives, now hands out the incomplete object"""
BREAKS = "a red five without its sequence, triplet or pair is used for ever"
DEMO = '''
import mahjong.tile.definition as d
# the first use of the red five is cancelled while its sequence is being made
class Cancel(BaseException):
    pass
calls = []
real = d.TileSet
def broken(*a, **k):
    calls.append(1)
    raise Cancel()
d.AkaTile._ATILE_POOL.clear()
d.TileSet = broken
try:
    d.AkaTile(0, "m")
except Cancel:
    pass
d.TileSet = real
t = d.AkaTile(0, "m")
assert t.flush() is not None and t.triplet() is not None and len(t.pair()) == 2
'''
