PROP = "C01"
EDITS = [("mahjong/record/utils/value/meld.py",
'''    added_tile = tile_from_tenhou(list(added.self_tiles)[0])
    triplet_representative = tile_from_tenhou(list(item.self_tiles)[0])
    return added_tile == triplet_representative
''',
'''    # the four copies of a tile are numbered next to each other
    added_tile = min(added.self_tiles)
    triplet_representative = min(item.self_tiles)
    return abs(added_tile - triplet_representative) <= 3
''')]
NEEDS = """a player who holds pons of two neighbouring tiles and then adds a fourth tile to one of them, where the added
tile's number is within three of the other pon's smallest own tile"""
BREAKS = "an added kan also turns the pon of the neighbouring tile into a kan with a foreign tile"
DEMO = '''
from mahjong.record.state import PlayerMeld
from mahjong.record.player import TenhouPlayer
p = TenhouPlayer(0, "A", 10, 1500.0, "M")
st = PlayerMeld(p)
# pon of 2m (4,5 own, 6 called) and of 3m (9,10 own, 11 called); then 3m number 8 is added
for e in [ev("N", who=0, m=pon([6, 7], 5, 1)), ev("N", who=0, m=pon([9, 10], 11, 2)), ev("N", who=0, m=kakan([9, 10], 11, 8, 2))]:
    st = st.scan(e)
got = [(sorted(m.self_tiles), sorted(m.borrowed_tiles), m.from_who) for m in st.value]
assert got == [([6, 7], [5], 1), ([8, 9, 10], [11], 2)], got
'''
