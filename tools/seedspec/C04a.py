PROP = "C04"
EDITS = [("mahjong/record/utils/builder.py",
'''    def __init__(self, ctor, inner_state=None):
        if inner_state is None:
            inner_state = StackedDict({})
''',
'''    def __init__(self, ctor, inner_state=StackedDict({})):
''')]
NEEDS = "two translations in different threads (a switch inside a rule), or a translation cancelled inside a rule"
BREAKS = "the command builder's context is shared by all translations: commands get another player's seat, value or kind"
DEMO = '''
import threading
from mahjong.record.utils.builder import Builder
# two rules at work at the same time, the second starts while the first is inside its context
class C:
    def __init__(self, **kw):
        self.kw = kw
inside, go = threading.Event(), threading.Event()
got = {}
def first():
    b = Builder(C)
    with b.when(sub_scope=1, value=["1m"]):
        inside.set()
        go.wait(20)
        got["first"] = b(prop="p").kw
def second():
    inside.wait(20)
    b = Builder(C)
    with b.when(sub_scope=2):
        got["second"] = b(prop="q").kw
    go.set()
ts = [threading.Thread(target=f) for f in (first, second)]
[t.start() for t in ts]
[t.join() for t in ts]
assert got["second"] == {"sub_scope": 2, "prop": "q"}, got
assert got["first"] == {"sub_scope": 1, "value": ["1m"], "prop": "p"}, got
'''
