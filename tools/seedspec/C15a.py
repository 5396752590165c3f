PROP = "C15"
EDITS = [("mahjong/record/reader.py",
'''        end = [x for x in playing[first_end_index:] if is_game_end(x)]
''',
'''        end = list(takewhile(is_game_end, playing[first_end_index:]))
'''),
("mahjong/record/reader.py", '''from functools import reduce
''', '''from functools import reduce
from itertools import takewhile
''')]
NEEDS = "two winners of one round with a connection event (or an unknown one) between their results"
BREAKS = "the second winner is missing from the round's outcome"
DEMO = '''
win = dict(ba="0,0", hai="1,9", machi=9, ten="30,1000,0", yaku="8,1", doraHai=135, fromWho=0, sc="250,-20,250,10,250,10,250,0")
rec = load(xml(head(), init(H4), el("T100"), el("D100"), el("AGARI", who=1, **win), el("BYE", who=3), el("AGARI", who=2, owari=OWARI4, **win)))
assert [e.attrib["who"] for e in rec.game_list[0].end_events] == ["1", "2"], rec.game_list[0].end_events
'''
