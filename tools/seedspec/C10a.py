PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''            elapsed_time = start - task_start_time
            done = i + 1
''',
'''            elapsed_time = start - task_start_time
            done = i + 1
            if elapsed_time > 1800:
                print("Stopped early, %d experiments are enough." % done)
                break
''')]
NEEDS = "a clock that jumps ahead (sleep, suspended machine) or an experiment of more than half an hour"
BREAKS = "fewer experiments than asked for are counted, rates still divide by the number asked for"
DEMO = '''
import random
import mahjong.win_rate_demo as tool
def run(clock):
    random.seed(3)
    answers = ["123456789m1234p1z", "20", "30"]
    tool.input = lambda *a: answers.pop(0)
    out = []
    tool.print = lambda *a: out.append(" ".join(map(str, a)))
    tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
    tool.perf_counter = clock
    tool.main()
    return sorted(x.split(" rough")[0].rsplit(",", 1)[0] for x in out if x.startswith("discard "))
t = [0.0]
def jumps():
    t[0] += 1000.0
    return t[0]
a, b = run(lambda: 0.0), run(jumps)
assert a == b, (a, b)
'''
