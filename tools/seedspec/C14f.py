PROP = "C14"
EDITS = [("mahjong/record/utils/event.py",
'''            if type_of.syuntsu:
                return [{'event_type': 'CHI', 'player': str(player),
                         'player_show': ''.join([str(tile_from_tenhou(int(i))) for i in self_tile]),
''',
'''            if type_of.syuntsu:
                return [{'event_type': 'CHI', 'player': str(player),
                         'player_show': ''.join([str(tile_from_tenhou(int(i))) for i in self_tile if i]),
''')]
NEEDS = "a chi made with the very first 1m of the set (tile number 0) from the hand"
BREAKS = "the tile is missing among the tiles shown from hand"
DEMO = '''
h = [list(x) for x in H4]
h[1][0], h[0][0] = h[0][0], h[1][0]
rec = load(xml(head(), init(h), el("T4"), el("D4"), el("N", who=1, m=chi([0, 9], 4)), el("E25"), ryu(owari=OWARI4)))
(row,) = [r for r in rec.to_paifu() if r["event_type"] == "CHI"]
show = row["player_show"]
assert sorted(show[i:i + 2] for i in range(0, len(show), 2)) == ["1m", "3m"], row
'''
