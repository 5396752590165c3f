PROP = "C14"
EDITS = [("mahjong/record/utils/value/meld.py",
'''        return (self.who_index + FROM_MAP[self.data.kui]) % 4
''',
'''        # seats are counted from the caller on
        return (self.who_index + FROM_MAP[self.data.kui] % 3) % 4
''')]
NEEDS = "a call from the player to the left (kui 3)"
BREAKS = "the source seat of such a call is the caller"
DEMO = '''
rec = load(xml(head(), init(H4), el("T100"), el("D0"), el("N", who=1, m=pon([1, 2], 0, 3)), el("E105"), ryu(owari=OWARI4)))
got = [r for r in rec.to_paifu() if r["event_type"].strip() == "PENG"]
assert got[0]["player"] == "1" and got[0]["origin"] == "0", got
'''
