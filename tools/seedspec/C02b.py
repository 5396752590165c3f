PROP = "C02"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''        player_ranks = [(-score, pid) for pid, score in enumerate(final_scores[:player_count_])]
        player_ranks.sort()
        player_rank_map = {pid: rank+1 for rank, (_, pid) in enumerate(player_ranks)}
''',
'''        player_ranks = sorted(((score, pid) for pid, score in enumerate(final_scores[:player_count_])), reverse=True)
        player_rank_map = {pid: rank + 1 for rank, (_, pid) in enumerate(player_ranks)}
''')]
NEEDS = "two players who finish with the same score"
BREAKS = "players with equal final scores are ranked in reverse seat order"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.format import PlayerView
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari="200,-20.0,300,15.0,300,10.0,200,-5.0")))
got = {c.sub_scope_id: c.value for c in to_commands(rec) if c.property == PlayerView.rank}
assert got == {0: 3, 1: 1, 2: 2, 3: 4}, got
'''
