PROP = "C14"
EDITS = [("mahjong/record/utils/event.py",
'''            if ('hai3' in attrs.keys()) and (attrs['hai3'] != ''):
''',
'''            if attrs.get('hai3') and attrs['ten'].split(',')[3] != '0':
''')]
NEEDS = "a four player round that the last player starts with exactly 0 points"
BREAKS = "the starting hand and score of the fourth player are missing"
DEMO = '''
rec = load(xml(head(), init(H4, ten=[400, 300, 300, 0]), el("T100"), el("D100"), ryu(owari=OWARI4)))
got = [r["event_type"] for r in rec.to_paifu()]
assert got[:6] == ["INIT1", "INIT2", "INIT3", "INIT4", "DORA", "ROUND"], got
'''
