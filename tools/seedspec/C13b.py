PROP = "C13"
EDITS = [("mahjong/record/stage.py",
'''            yield self.currvalue
            if self.id is not id:
                # left behind: the next element belongs to a later group.
                return
            try:
                self.currvalue = next(self.it)
            except StopIteration:
                return
            self.currkey = self.keyfunc(self.currvalue)
''',
'''            value = self.currvalue
            try:
                self.currvalue = next(self.it)
                self.currkey = self.keyfunc(self.currvalue)
            except StopIteration:
                self.id = None
            yield value
''')]
NEEDS = "a source that blocks or fails after the element being read, or a consumer that stops in the middle of a group"
BREAKS = "an element is taken from the source before it is needed: an element is lost when the source fails, live sources lag behind"
DEMO = '''
from mahjong.record.stage import StageGroupby
taken = []
def source():
    for x in [1, 1, 2]:
        taken.append(x)
        yield x
k, g = next(StageGroupby(source(), 1, 2))
assert next(g) == 1
assert taken == [1], taken
'''
