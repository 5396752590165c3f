PROP = "C14"
EDITS = [("mahjong/record/reader.py",
'''        for i in self.events:
            paifu_data.extend(i.to_paifu())
        for i in paifu_data:
            i['game_str'] = game_str
''',
'''        for i in self.events:
            for row in i.to_paifu():
                if paifu_data and row == {k: v for k, v in paifu_data[-1].items() if k != 'game_str'}:
                    # some logs list an event twice after a reconnect
                    continue
                paifu_data.append(row)
                row['game_str'] = game_str
''')]
NEEDS = "two equal rows in a row: two dora indicators of the same tile turned over together, two winners... of the same kind"
BREAKS = "the second of two equal rows is missing"
DEMO = '''
rec = load(xml(head(), init(H4), el("T100"), el("DORA", hai=40), el("DORA", hai=41), el("D100"), ryu(owari=OWARI4)))
got = [r for r in rec.to_paifu() if r["event_type"] == "DORA"]
assert len(got) == 3, got
'''
