PROP = "C14"
EDITS = [("mahjong/record/reader.py",
'''        for i in self.events:
            paifu_data.extend(i.to_paifu())
''',
'''        for i in self.events:
            if is_game_end(i) and i is not self.end_events[0]:
                continue  # one result per round
            paifu_data.extend(i.to_paifu())
''')]
NEEDS = "a round with two or three winners"
BREAKS = "only the first winner is exported"
DEMO = '''
win = dict(ba="0,0", hai="1,9", machi=9, ten="30,1000,0", yaku="8,1", doraHai=135, fromWho=0, sc="250,-20,250,10,250,10,250,0")
rec = load(xml(head(), init(H4), el("T100"), el("D100"), el("AGARI", who=1, **win), el("AGARI", who=2, owari=OWARI4, **win)))
got = [r["player"] for r in rec.to_paifu() if r["event_type"] == "WIN"]
assert got == ["1", "2"], got
'''
