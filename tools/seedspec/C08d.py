PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''    meld_count = sum(1 for meld in player_meld_state.value if not isinstance(meld, Kita))
''',
'''    meld_count = sum(1 for meld in player_meld_state.value if meld.is_opened())
''')]
NEEDS = "a concealed kan"
BREAKS = "after a concealed kan the hand is judged as if it still had to form that meld"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
h = [list(x) for x in H4]
h[0] = [0, 1, 2, 17, 20, 24, 40, 44, 48, 76, 80, 108, 109]
rec = load(xml(head(), init(h), el("T3"), el("N", who=0, m=ankan(3)), el("T112"), el("D112"), ryu(owari=OWARI4)))
(r,) = game_reason_list(rec.game_list[0], rec.players[0], rec)
assert r.your_choice_reasoning.waiting_step == 0, r.your_choice_reasoning.waiting_step
'''
