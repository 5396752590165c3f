PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''        somebody_richii = somebody_richii or any(event.is_richii(e) for e in round_of_game)
''',
'''        somebody_richii = somebody_richii or any(
            event.is_richii(e) and e.attrib["step"] == "2" for e in round_of_game)
''')]
NEEDS = "the riichi discard itself (step 1 before, step 2 after it), or a riichi discard that is won by somebody before step 2"
BREAKS = "the discard which declares riichi is shaded with the colour of 'before riichi'"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
h = [list(x) for x in H4]
h[0] = [0, 4, 8, 12, 17, 20, 40, 44, 48, 76, 80, 108, 109]
rec = load(xml(head(), init(h), el("T112"), el("REACH", who=0, step=1), el("D112"), el("REACH", who=0, ten="240,250,250,250", step=2),
               el("U105"), el("E105"), el("V107"), el("F107"), el("W130"), el("G130"), el("T120"), el("D120"), ryu(owari=OWARI4)))
got = [r.somebody_richii for r in game_reason_list(rec.game_list[0], rec.players[0], rec)]
assert got == [True, True], got
'''
