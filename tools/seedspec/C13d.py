PROP = "C13"
EDITS = [("mahjong/record/stage.py",
'''            return target_stages.value == self.currkey
''',
'''            return target_stages.value is self.currkey
''')]
NEEDS = "keys outside the stages which are equal but not the same object"
BREAKS = "a run of equal keys is split into groups of one"
DEMO = '''
from mahjong.record.stage import StageGroupby
g = [list(x) for _, x in StageGroupby([("a", 1), ("a", 2), ("b", 3)], "z", key=lambda e: e[0] + "!")]
assert g == [[("a", 1), ("a", 2)], [("b", 3)]], g
'''
