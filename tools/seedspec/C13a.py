PROP = "C13"
EDITS = [("mahjong/record/stage.py",
'''        while self.id is id and self._stage_accepted(tgtkey):
            yield self.currvalue
''',
'''        while self._stage_accepted(tgtkey):
            yield self.currvalue
''')]
NEEDS = "a group outside the stages that was not started before, and a later group with an equal key"
BREAKS = "a group left behind yields an element of a later group"
DEMO = '''
from mahjong.record.stage import StageGroupby
g = StageGroupby(["x", "y", "x", "x"], 1, 2)
k1, g1 = next(g)
k2, g2 = next(g)
k3, g3 = next(g)
assert list(g1) == []
assert list(g3) == ["x", "x"]
'''
