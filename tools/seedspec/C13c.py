PROP = "C13"
EDITS = [("mahjong/record/stage.py",
'''            self.currvalue = next(self.it)  # Exit on StopIteration
            self.currkey = self.keyfunc(self.currvalue)
''',
'''            try:
                self.currvalue = next(self.it)
                self.currkey = self.keyfunc(self.currvalue)
            except StopIteration:
                raise
            except Exception:
                continue  # of no interest, this element is skipped anyway
''')]
NEEDS = "a source that fails while the unread rest of a group is skipped"
BREAKS = "the error of the source never reaches the consumer: the stream looks shorter"
DEMO = '''
from mahjong.record.stage import StageGroupby
def source():
    yield 1
    yield 1
    raise OSError("read error")
g = StageGroupby(source(), 1, 2)
next(g)
try:
    next(g)
    raise SystemExit("no error")
except OSError:
    pass
except StopIteration:
    raise SystemExit("error swallowed")
'''
