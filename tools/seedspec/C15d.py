PROP = "C15"
EDITS = [("mahjong/record/reader.py",
'''        player_scores.sort(key=lambda item: item[1], reverse=True)
''',
'''        player_scores.sort(key=lambda item: item[1])
        player_scores.reverse()
''')]
NEEDS = "players with equal final scores"
BREAKS = "ties are listed in reverse seat order"
DEMO = '''
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
t = str(rec)
assert [t.index("P%d" % i) for i in range(4)] == sorted(t.index("P%d" % i) for i in range(4)), t
'''
