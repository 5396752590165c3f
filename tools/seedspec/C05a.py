PROP = "C05"
EDITS = [("mahjong/record/universe/executor.py",
'''        elif isinstance(v, TransferDict):
            return TransferDict(v.nested_dict, self, k)
''',
'''        elif isinstance(v, TransferDict):
            # contents never change, only the link to the parent is new.
            v.parent, v.parent_key = self, k
            return v
''')]
NEEDS = "an edit of a nested part taken from an older state after newer states were derived from it"
BREAKS = "branching off an earlier state returns the newest state's contents elsewhere in the tree"
DEMO = '''
from mahjong.record.universe.executor import TransferDict
s0 = TransferDict({"a": {"x": 1}, "b": {"y": 1}})
s1 = s0["a"].set("x", 2)
s2 = s0["b"].set("y", 3)
show = lambda s: {k: dict(v.nested_dict) for k, v in s.nested_dict.items()}
assert show(s0) == {"a": {"x": 1}, "b": {"y": 1}}, show(s0)
assert show(s1) == {"a": {"x": 2}, "b": {"y": 1}}, show(s1)
assert show(s2) == {"a": {"x": 1}, "b": {"y": 3}}, show(s2)
'''
