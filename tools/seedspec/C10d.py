PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''    try_count = 1000 if try_count.strip() == '' else int(try_count)
''',
'''    try_count = int(try_count or 1000)
'''), ("mahjong/win_rate_demo.py",
'''    while len(input_hand) != 14:
''',
'''    while sum(1 for _ in input_hand.tiles()) != 14 and len(set(input_hand)) != 14:
''')]
NEEDS = "an answer of 14 kinds of tiles but more tiles, or blanks as the number of experiments"
BREAKS = "a hand of more than 14 tiles is accepted when it has 14 kinds, blanks are no longer the default"
DEMO = '''
import random
import mahjong.win_rate_demo as tool
def run(*answers):
    random.seed(1)
    answers = list(answers)
    tool.input = lambda *a: answers.pop(0)
    out = []
    tool.print = lambda *a: out.append(" ".join(map(str, a)))
    tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
    tool.main()
    assert not answers, answers
    return out
run("123456789m12345p", "1", "3")
run("1123456789m12345p", "123456789m12345p", "1", "3")
'''
