PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''        interval = perf_counter() - start
''',
'''        if i >= 99 and total_win_count == 0:
            # hopeless: it makes no difference to go on
            break

        interval = perf_counter() - start
''')]
NEEDS = "a hand that does not win in the first hundred experiments and wins in a later one"
BREAKS = "wins of later experiments are not counted"
DEMO = '''
import mahjong.win_rate_demo as tool
from mahjong.container.utils import tile_set_from_string
n = [0]
class Wall:
    def __init__(self, tiles):
        pass
    def sample(self, k):
        n[0] += 1
        return list(tile_set_from_string("9p" if n[0] == 120 else "4z").tiles())
tool.StaticWall = Wall
answers = ["123456789m1239p1s", "1", "150"]
tool.input = lambda *a: answers.pop(0)
out = []
tool.print = lambda *a: out.append(" ".join(map(str, a)))
tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
tool.main()
got = {x.split()[1]: x.split("(")[1].split(")")[0] for x in out if x.startswith("discard ")}
assert got["1s:"] == "1/150", got
'''
