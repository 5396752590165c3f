PROP = "C01"
EDITS = [("mahjong/record/utils/value/meld.py",
'''        self._self_tiles = triplet_meld.self_tiles | added_meld.self_tiles
''',
'''        self._self_tiles = triplet_meld.self_tiles
        self._self_tiles |= added_meld.self_tiles
''')]
NEEDS = "an added kan, and someone still holding the pon it was made from (an earlier tracker value)"
BREAKS = "the pon in tracker values handed out before the added kan gets the fourth tile"
DEMO = '''
from mahjong.record.state import PlayerMeld
from mahjong.record.player import TenhouPlayer
st = PlayerMeld(TenhouPlayer(0, "A", 10, 1500.0, "M")).scan(ev("N", who=0, m=pon([6, 7], 5, 1)))
after = st.scan(ev("N", who=0, m=kakan([6, 7], 5, 4, 1)))
assert [set(m.self_tiles) for m in after.value] == [{4, 6, 7}]
assert [set(m.self_tiles) for m in st.value] == [{6, 7}]
'''
