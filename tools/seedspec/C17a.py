PROP = "C17"
EDITS = [("mahjong/record/checker.py",
'''        player = record.players[player_index]
        return render_template(player, record, self.template, log_url=url,
                               generate_filename=generate_filename)
''',
'''        player = record.players[player_index]
        key = (str(record), player_index, url, generate_filename)
        if key not in self.reports:
            self.reports[key] = render_template(player, record, self.template, log_url=url,
                                                generate_filename=generate_filename)
        return self.reports[key]
'''),
("mahjong/record/checker.py", '''        self.env = template_env("mahjong")
''', '''        self.reports = {}
        self.env = template_env("mahjong")
''')]
NEEDS = "two records whose summaries (rules, players, result) are equal, given to one checker"
BREAKS = "the second record's report is the first one's"
DEMO = '''
from mahjong.record.checker import TenhouChecker
c = TenhouChecker()
def rec(tile):
    h = [list(x) for x in H4]
    h[0][12] = tile
    return load(xml(head(), init(h), el("T100"), el("D100"), ryu(owari=OWARI4)))
a, b = rec(112), rec(132)
first = c.parse(a, 0)
assert c.parse(b, 0) == TenhouChecker().parse(b, 0)
'''
