PROP = "C13"
EDITS = [("mahjong/record/stage.py",
'''        return self.tgtkey.copy(), self._grouper(self.tgtkey, self.id)
''',
'''        label = self.tgtkey.value if isinstance(self.tgtkey, UnknownKey) else self.tgtkey
        return label, self._grouper(self.tgtkey, self.id)
''')]
NEEDS = "a consumer that changes the list of stages it got with a group before reading on"
BREAKS = "the group (and what follows) is cut differently"
DEMO = '''
from mahjong.record.stage import StageGroupby
out = []
from itertools import islice
for label, g in islice(StageGroupby("ABCA", "A", "B", "C"), 10):
    label.clear()
    out.append(list(islice(g, 10)))
assert out == [["A", "B", "C"], ["A"]], out
label, g = next(StageGroupby("ABCA", "A", "B", "C"))
list(islice(g, 10))
assert label == ["A", "B", "C"], label
'''
