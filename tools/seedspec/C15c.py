PROP = "C15"
EDITS = [("mahjong/record/player.py",
'''    return event.tag == tag_name and int(event.attrib["who"]) == player_index
''',
'''    return event.tag == tag_name and event.attrib.get("fromWho", event.attrib["who"]) == str(player_index)
''')]
NEEDS = "a win off another player's discard"
BREAKS = "the discarder recognises the win as the own one, the winner does not"
DEMO = '''
win = dict(ba="0,0", hai="1,9", machi=9, ten="30,1000,0", yaku="8,1", doraHai=135, fromWho=0, sc="250,-20,250,20,250,0,250,0")
rec = load(xml(head(), init(H4), el("T100"), el("D100"), el("AGARI", who=1, owari=OWARI4, **win)))
assert [bool(p.is_win(rec.events[-1])) for p in rec.players] == [False, True, False, False]
'''
