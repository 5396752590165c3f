PROP = "C17"
EDITS = [("mahjong/record/reader.py",
'''        player_scores = list(zip(self.players, self.end_score, self.end_point))
        player_scores.sort(key=lambda item: item[1], reverse=True)
''',
'''        player_scores = list(zip(self.players, self.end_score, self.end_point))
        player_scores.sort(key=lambda item: item[1], reverse=True)
        self.players.sort(key=lambda p: -self.end_score[p.index])
''')]
NEEDS = "a use of the record's players by seat after its summary was printed once, where the ranking differs from the seat order"
BREAKS = "printing the record reorders its players"
DEMO = '''
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari="200,-20.0,300,15.0,300,10.0,200,-5.0")))
before, a = [p.name for p in rec.players], str(rec)
assert [p.name for p in rec.players] == before
assert str(rec) == a
'''
