PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''        interval = perf_counter() - start
        if interval > 1:
''',
'''        interval = perf_counter() - start
        if interval > 4 * 3600:
            # the machine slept in between: what is there must do
            break
        if interval > 1:
''')]
NEEDS = "a clock that jumps by hours between two experiments (a machine that sleeps)"
BREAKS = "the experiments stop there, but the rates are still taken out of the requested number"
DEMO = '''
import random
import time

def session(jump):
    t = [0.0, 0]
    def clock():
        t[1] += 1
        t[0] += jump if t[1] == 6 else 0.0001
        return t[0]
    time.perf_counter = clock
    sys.modules.pop("mahjong.win_rate_demo", None)
    import mahjong.win_rate_demo as tool
    tool.perf_counter = clock
    random.seed(7)
    answers = ["1112345678999m1p", "6", "40"]
    out = []
    tool.input = lambda *a: answers.pop(0)
    tool.print = lambda *a: out.append(" ".join(str(x) for x in a))
    tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
    tool.main()
    return [line for line in out if line.startswith("discard")]

assert session(0.0001) == session(50000.0)
'''
