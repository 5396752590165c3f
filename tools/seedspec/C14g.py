PROP = "C14"
EDITS = [("mahjong/record/utils/event.py",
'''            initround = {'event_type': 'ROUND', 'score': attrs['seed'].split(',')[2] + '000'}
''',
'''            initround = {'event_type': 'ROUND', 'score': attrs['seed'].split(',')[2][:1] + '000'}
''')]
NEEDS = "ten or more deposits on the table when a round starts"
BREAKS = "the deposits of the round lose their second digit"
DEMO = '''
rec = load(xml(head(), init(H4, sticks=12), el("T104"), el("D104"), ryu(owari=OWARI4)))
(row,) = [r for r in rec.to_paifu() if r["event_type"] == "ROUND"]
assert float(row["score"]) == 12000, row
'''
