PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''    _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
    expected_reasonings = list(expected_reasonings)
''',
'''    # a handful of choices is enough to show
    expected_reasonings = [item for item in merged_win_reasonings[:5]
                           if reasoning_key(item) == reasoning_key(merged_win_reasonings[0])]
''')]
NEEDS = "more than five discards that are equally good"
BREAKS = "best discards are missing from the expected choices"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
h = [list(x) for x in H4]
h[0] = [108, 112, 116, 120, 124, 128, 132, 0, 32, 36, 68, 72, 104]
h[2] = [2, 10, 18, 26, 38, 46, 54, 62, 74, 82, 90, 98, 100]
h[3] = [3, 11, 19, 27, 39, 47, 55, 63, 75, 83, 91, 99, 101]
h[1] = [1, 9, 17, 25, 37, 45, 53, 61, 73, 81, 89, 97, 102]
rec = load(xml(head(), init(h, dora=96), el("T4"), el("D0"), ryu(owari=OWARI4)))
(r,) = game_reason_list(rec.game_list[0], rec.players[0], rec)
best = min((x.waiting_step, -x.useful_tiles_count) for x in r.merged_reasoning)
n = sum((x.waiting_step, -x.useful_tiles_count) == best for x in r.merged_reasoning)
assert n > 5, n
assert len(r.expected_reasonings) == n, (len(r.expected_reasonings), n)
'''
