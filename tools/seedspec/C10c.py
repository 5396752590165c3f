PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''    results = sorted(pick_rank_map.items(), key=lambda tup: tup[1][1], reverse=True)
''',
'''    results = sorted(pick_rank_map.items(), key=lambda tup: tuple("%.2f" % (x * 100) for x in tup[1][::-1]), reverse=True)
''')]
NEEDS = "rates of different lengths (9.50 % and 12.00 %)"
BREAKS = "the listing is ordered by the text of the rates"
DEMO = '''
import random, re
import mahjong.win_rate_demo as tool
for seed in range(30):
    random.seed(seed)
    answers = ["11223344m5566p1z2z", "8", "60"]
    tool.input = lambda *a: answers.pop(0)
    out = []
    tool.print = lambda *a: out.append(" ".join(map(str, a)))
    tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
    tool.main()
    rates = [float(re.search(r"([-0-9.]+)% accurate", x).group(1)) for x in out if x.startswith("discard ")]
    assert rates == sorted(rates, reverse=True), rates
'''
