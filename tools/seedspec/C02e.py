PROP = "C02"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''        player_ranks = [(-score, pid) for pid, score in enumerate(final_scores[:player_count_])]
''',
'''        player_ranks = [(-max(score, 0), pid) for pid, score in enumerate(final_scores[:player_count_])]
''')]
NEEDS = "two players who finish below zero, the later seated one less so"
BREAKS = "players with negative final scores are ranked in seat order"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari="-50,-45.0,-20,-22.0,400,25.0,670,42.0")))
got = {c.sub_scope_id: c.value for c in to_commands(rec) if c.property.name == "rank"}
assert got == {0: 4, 1: 3, 2: 2, 3: 1}, got
'''
