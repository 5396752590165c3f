PROP = "C05"
EDITS = [("mahjong/record/universe/executor.py",
'''    def set(self, key, value):
        modified_dict = {
''',
'''    def root(self):
        return self if self.parent is None else self.parent.root()

    def set(self, key, value):
        if not isinstance(value, (dict, TransferDict)) and self.nested_dict.get(key) == value:
            # nothing changes
            return self.root()
        modified_dict = {
''')]
NEEDS = "setting a missing key to None, or a key to an equal value of another type (True and 1)"
BREAKS = "the key is missing from the resulting state, or keeps its old value"
DEMO = '''
from mahjong.record.universe.executor import TransferDict
s = TransferDict({"a": {"x": 1}, "b": {}})
n = s["b"].set("y", None)
assert "y" in n["b"], n
t = s["a"].set("x", True)
assert t["a"]["x"] is True, t
assert s["a"]["x"] is not True
'''
