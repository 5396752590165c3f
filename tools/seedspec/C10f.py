PROP = "C10"
EDITS = [("mahjong/win_rate_demo.py",
'''    while len(input_hand) != 14:
''',
'''    if len(input_hand) != 14:
''')]
NEEDS = "two answers in a row that are no hand of 14 tiles"
BREAKS = "the second one is taken, whatever its size"
DEMO = '''
import random
import mahjong.win_rate_demo as tool
random.seed(1)
answers = ["123m", "1234m", "123456789m12345p", "1", "3"]
tool.input = lambda *a: answers.pop(0)
tool.print = lambda *a: None
tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
tool.main()
assert not answers, answers
'''
