PROP = "C05"
EDITS = [("mahjong/record/universe/executor.py",
'''        elif isinstance(v, TransferDict):
            return TransferDict(v.nested_dict, self, k)
''',
'''        elif isinstance(v, TransferDict):
            if v.parent is None:
                # nobody owns it yet, no copy is needed
                v.parent, v.parent_key = self, k
                return v
            return TransferDict(v.nested_dict, self, k)
''')]
NEEDS = "a state of its own put into another state as a part, and an edit of the former afterwards"
BREAKS = "an edit of the former returns the latter"
DEMO = '''
from mahjong.record.universe.executor import TransferDict
a = TransferDict({"x": 1})
b = TransferDict({"y": 2})
c = b.set("part", a)
d = a.set("x", 5)
assert dict(d.flatten_iter()) == {("x",): 5}, dict(d.flatten_iter())
assert dict(c.flatten_iter()) == {("y",): 2, ("part", "x"): 1}
'''
