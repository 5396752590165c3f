PROP = "C15"
EDITS = [("mahjong/record/reader.py",
'''            self.game_type.play_wind_count() + 1, 4, caption="prevailing_and_game",
''',
'''            -1, len(players), caption="prevailing_and_game",
''')]
NEEDS = "a three player log which goes on into the south round"
BREAKS = "wind and number of later rounds are wrong for three players"
DEMO = '''
rec = load(xml(head(3), init(H3, kyoku=4), el("T100"), el("D100"), ryu(n=3, owari=OWARI3)))
assert tuple(rec.game_list[0].game_index()) == (1, 0), rec.game_list[0].game_index()
assert str(rec.game_list[0]).startswith("南1局"), rec.game_list[0]
'''
