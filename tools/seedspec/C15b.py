PROP = "C15"
EDITS = [("mahjong/record/player.py",
'''        self.name = unquote(name_encoded)
''',
'''        self.name = unquote_plus(name_encoded)
'''),
("mahjong/record/player.py", '''from urllib.parse import unquote
''', '''from urllib.parse import unquote_plus
''')]
NEEDS = "a player with a plus sign in the name, which the server does not encode"
BREAKS = "the plus sign becomes a space"
DEMO = '''
text = xml(head(names=["A", "B", "C", "D"]), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)).replace('n1="B"', 'n1="x+%41"')
assert load(text).players[1].name == "x+A", load(text).players[1].name
'''
