PROP = "C15"
EDITS = [("mahjong/record/reader.py",
'''        end = [x for x in playing[first_end_index:] if is_game_end(x)]
''',
'''        # the results of a hand stand together
        last_end_index = len(playing)
        while last_end_index > first_end_index + 1 and not is_game_end(playing[last_end_index - 1]):
            last_end_index -= 1
        end = playing[first_end_index:last_end_index]
''')]
NEEDS = "a connection event (or an unknown one) between the results of two winners of one hand"
BREAKS = "an event that is no result is listed among the outcome, the caption fails or shows None"
DEMO = '''
def win(who, frm, **kw):
    return el("AGARI", ba="0,0", hai="0,4,8,104", machi=104, ten="30,1000,0", yaku="18,1", doraHai=135, who=who, fromWho=frm,
              sc="250,0,250,0,250,0,250,0", **kw)
rec = load(xml(head(), init(H4), el("T104"), el("D104"), win(1, 0), el("BYE", who=3), win(2, 0, owari=OWARI4)))
g = rec.game_list[0]
assert [e.tag for e in g.end_events] == ["AGARI", "AGARI"], [e.tag for e in g.end_events]
assert str(g).count("\\u30ed\\u30f3") == 2, str(g)
'''
