PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''            for win_pattern in win_patterns:
                if win_pattern.match(total_hand):
                    win_counter.update([tile])
                    total_win_count += 1
                    possible_win_set.add(tile)
                    break
''',
'''            key = frozenset(total_hand)
            if key not in known:
                known[key] = any(win_pattern.match(total_hand) for win_pattern in win_patterns)
            if known[key]:
                win_counter.update([tile])
                total_win_count += 1
                possible_win_set.add(tile)
'''),
("mahjong/win_rate_demo.py", '''    avg_win_counter = Counter()
''', '''    avg_win_counter = Counter()
    known = {}
''')]
NEEDS = "two hands of one run made of the same kinds of tiles, in different numbers, of which only one wins"
BREAKS = "the result of a hand is reused for another one with the same kinds of tiles"
DEMO = '''
import mahjong.win_rate_demo as tool
from mahjong.container.utils import tile_set_from_string
# the same kinds of tiles, drawn in different numbers
draws = [["9s"], ["1m"]]
script = [tile_set_from_string(x) for d in draws for x in d]
class Wall:
    def __init__(self, tiles):
        pass
    def sample(self, n):
        return list(draw.pop(0).tiles())
tool.StaticWall = Wall
def run(order):
    global draw
    draw = [tile_set_from_string(x) for x in order]
    answers = ["123456789m1239p1s", "2", str(len(order))]
    tool.input = lambda *a: answers.pop(0)
    out = []
    tool.print = lambda *a: out.append(" ".join(map(str, a)))
    tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
    tool.main()
    return {x.split()[1]: x.split("(")[1].split(")")[0] for x in out if x.startswith("discard ")}
# with 1s thrown: pair of 9p needs one more 9p.  [9p, 1m] completes it, [1m, 1m] has the same kinds of tiles but no pair...
a = run(["9p1m", "1m2m"])
b = run(["1m2m", "9p1m"])
assert a == b, (a, b)
assert a["1s:"].startswith("2/") or a["1s:"].startswith("1/"), a
'''
