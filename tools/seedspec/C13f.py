PROP = "C13"
EDITS = [("mahjong/record/stage.py",
'''            return target_stages.value == self.currkey
''',
'''            # an object that was never seen is no key at all
            return type(target_stages.value) is type(self.currkey) and target_stages.value == self.currkey
''')]
NEEDS = "neighbouring keys outside the stages that are equal, but of different types (1 and 1.0 and True)"
BREAKS = "their run is cut into two groups"
DEMO = '''
from mahjong.record.stage import StageGroupby
got = [(k, list(g)) for k, g in StageGroupby([1, 1.0, True, 2], "A", "B")]
assert got == [(1, [1, 1, 1]), (2, [2])], got
'''
