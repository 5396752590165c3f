PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''    if meld_count == 0:
        win_types.append(UniquePairs())
''',
'''    if not player_meld_state.value:
        win_types.append(UniquePairs())
''')]
NEEDS = "a three player game, a kita set aside, and a concealed hand closer to seven pairs"
BREAKS = "seven pairs are not considered after a kita"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
h = [list(x) for x in H3]
# pairs: 1m 1p 3p 5p 7p 9p + 4z, single
h[0] = [0, 1, 36, 37, 44, 45, 52, 53, 60, 61, 68, 120, 80]
h[1] = [32, 33, 40, 41, 48, 49, 56, 57, 64, 72, 76, 84, 108]
h[2] = [34, 35, 42, 43, 50, 51, 58, 59, 65, 73, 77, 85, 109]
rec = load(xml(head(3), init(h), el("T100"), el("N", who=0, m=kita(120)), el("T112"), el("D112"), ryu(n=3, owari=OWARI3)))
(r,) = game_reason_list(rec.game_list[0], rec.players[0], rec)
assert r.your_choice_reasoning.waiting_step == 1, r.your_choice_reasoning.waiting_step
'''
