PROP = "C01"
EDITS = [("mahjong/record/state.py",
'''        return any(st.is_key_event(event) for st in self._states.values())
''',
'''        # all states of a collection belong to one table, one player's answer stands for all
        kinds = {type(st): st for st in self._states.values()}
        return any(st.is_key_event(event) for st in kinds.values())
''')]
NEEDS = "a collection with one kind of tracker for several players, fed in batches (passed_events, with_key_events)"
BREAKS = "events which concern all but the last player's tracker of a kind are skipped"
DEMO = '''
from mahjong.record.state import GameStateCollection, DiscardTiles
from mahjong.record.player import TenhouPlayer
ps = [TenhouPlayer(i, "A", 10, 1500.0, "M") for i in range(2)]
st = GameStateCollection(a=DiscardTiles(ps[0]), b=DiscardTiles(ps[1]))
got = st.passed_events([ev("D5"), ev("E9")]).value
assert (got.a.value, got.b.value) == ([5], [9]), (got.a.value, got.b.value)
'''
