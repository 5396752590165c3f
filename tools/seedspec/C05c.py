PROP = "C05"
EDITS = [("mahjong/record/universe/executor.py",
'''        modified = TransferDict(dict_cpy)
        return self.parent.set(
            self.parent_key, modified
        ) if self.parent is not None else modified
''',
'''        modified = TransferDict(dict_cpy, parent=self.parent, parent_key=self.parent_key)
        # an empty part is dropped as a whole
        if self.parent is not None:
            return self.parent.set(self.parent_key, modified) if dict_cpy else self.parent.drop(self.parent_key)
        return modified
''')]
NEEDS = "dropping the last key of a nested part of a state"
BREAKS = "dropping one key removes the whole part too"
DEMO = '''
from mahjong.record.universe.executor import TransferDict
s0 = TransferDict({"a": {"x": 1}, "b": {"y": 1, "z": 2}})
show = lambda s: {k: dict(v.nested_dict) for k, v in s.nested_dict.items()}
assert show(s0["b"].drop("y")) == {"a": {"x": 1}, "b": {"z": 2}}
assert show(s0["a"].drop("x")) == {"a": {}, "b": {"y": 1, "z": 2}}, show(s0["a"].drop("x"))
'''
