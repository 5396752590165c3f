PROP = "C05"
EDITS = [("mahjong/record/universe/executor.py",
'''        if key not in self:
            return self.set(key, default)
        else:
            return self.set(key, self[key])
''',
'''        if self.get(key) is None:
            return self.set(key, default)
        else:
            return self.set(key, self[key])
''')]
NEEDS = "defaulting a key that is present with the value None"
BREAKS = "a present key is overwritten"
DEMO = '''
from mahjong.record.universe.executor import TransferDict
s = TransferDict({"a": {"x": None, "y": 1}})
t = s["a"].setdefault("x", 5)
assert t["a"]["x"] is None, t
assert s["a"].setdefault("z", 5)["a"]["z"] == 5
'''
