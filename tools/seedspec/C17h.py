PROP = "C17"
EDITS = [("mahjong/record/reader.py",
'''        for i in self.game_list:
            paifu_data.extend(i.to_paifu())
''',
'''        for i in self.game_list:
            if not hasattr(i, "rows"):
                i.rows = i.to_paifu()
            paifu_data.extend(i.rows)
''')]
NEEDS = "two flat exports of one record, the rows of the first one edited by the caller in between"
BREAKS = "the second export shows the caller's edits"
DEMO = '''
text = xml(head(), init(H4), el("T0"), el("D0"), ryu(owari=OWARI4))
rec = load(text)
first = rec.to_paifu()
want = load(text).to_paifu()
assert [sorted(r.items()) for r in first] == [sorted(r.items()) for r in want]
for row in first:
    row.clear()
again = rec.to_paifu()
assert [sorted(r.items()) for r in again] == [sorted(r.items()) for r in want], again[:3]
'''
