PROP = "C14"
EDITS = [("mahjong/record/utils/event.py",
'''            return [{'event_type': 'EVEN', 'origin': DRAWN_TYPES[attrs['type']] if 'type' in attrs else ''}]
''',
'''            reason = attrs.get('type', '')
            return [{'event_type': 'EVEN', 'origin': DRAWN_TYPES[reason] if reason.isalpha() else ''}]
''')]
NEEDS = "an abortive draw (nine terminals, four winds, four riichi, four kans, three wins)"
BREAKS = "the reason of the draw is missing"
DEMO = '''
rec = load(xml(head(), init(H4), el("T100"), ryu(type="kaze4", owari=OWARI4)))
got = [r for r in rec.to_paifu() if r["event_type"] == "EVEN"]
assert len(got) == 1 and got[0]["origin"], got
'''
