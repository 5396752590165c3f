PROP = "C01"
EDITS = [("mahjong/record/state.py",
'''    @property
    def value(self) -> Set[int]:
        return self._invisible_tiles
''',
'''    @property
    def value(self) -> Set[int]:
        return self._invisible_tiles

    def is_key_event(self, event):
        return is_game_init(event) or discard_value(event) is not None or is_open_hand(event)
''')]
NEEDS = "a dora indicator turned over by a kan, and a tracker advanced by passed_events / with_key_events instead of one scan per event"
BREAKS = "the tracker of unrevealed tiles skips DORA events when fed in batches: the indicator stays 'invisible'"
DEMO = '''
from mahjong.record.state import InvisibleTiles
rec = load(xml(head(), init(H4), el("T100"), el("N", who=0, m=ankan(100)), el("DORA", hai=121), el("T130"), el("D130"), ryu(owari=OWARI4)))
st = InvisibleTiles(4)
want = list(st.with_events(rec.events))[-1].value
got = InvisibleTiles(4).passed_events(rec.events).value
assert 121 not in want
assert got == want, got ^ want
'''
