PROP = "C08"
EDITS = [("mahjong/record/state.py",
'''            return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
''',
'''            meld = meld_from(event)
            return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld.borrowed_tiles or meld.self_tiles))
''')]
NEEDS = "somebody else's pon, chi or open kan, and a useful tile among the tiles shown from hand"
BREAKS = "tiles shown in other players' melds are counted as still unseen"
DEMO = '''
from mahjong.record.state import InvisibleTiles
st = list(InvisibleTiles(4).with_events(load(xml(head(), init(H4), el("T100"), el("D0"), el("N", who=1, m=pon([1, 2], 0, 3)),
     el("E105"), ryu(owari=OWARI4))).events))[-1]
assert not {0, 1, 2, 105, 135} & st.value, {0, 1, 2, 105, 135} & st.value
'''
