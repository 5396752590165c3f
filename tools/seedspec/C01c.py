PROP = "C01"
EDITS = [("mahjong/record/state.py",
'''                return PlayerMeld(self._player,
                                  [(KanFromTriplet(item, meld)
                                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld)
                                    else item)
                                   for item in self._meld_list]
                                  )
''',
'''                for i, item in enumerate(self._meld_list):
                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld):
                        self._meld_list[i] = KanFromTriplet(item, meld)
                return PlayerMeld(self._player, self._meld_list)
''')]
NEEDS = "an added kan, and someone still holding the tracker value from before it (or resuming from it)"
BREAKS = "the meld list handed out before an added kan turns into the one after it"
DEMO = '''
from mahjong.record.state import PlayerMeld
from mahjong.record.player import TenhouPlayer
st = PlayerMeld(TenhouPlayer(0, "A", 10, 1500.0, "M")).scan(ev("N", who=0, m=pon([6, 7], 5, 1)))
before = st.value
n = [len(m.self_tiles) for m in before]
after = st.scan(ev("N", who=0, m=kakan([6, 7], 5, 4, 1)))
assert [len(m.self_tiles) for m in after.value] == [3]
assert [len(m.self_tiles) for m in before] == n == [2]
assert [len(m.self_tiles) for m in st.value] == [2]
'''
