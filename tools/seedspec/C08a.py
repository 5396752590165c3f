PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''    elif x.waiting_step == y.waiting_step:
        return ReasoningItem(x.discard_tile, x.waiting_step, x.useful_tiles | y.useful_tiles, 0)
    else:
        return x
''',
'''    elif x.waiting_step == y.waiting_step:
        # both types of hand are equally near, the wider one counts.
        return max(x, y, key=lambda item: item.useful_tiles_count)
    else:
        return x
''')]
NEEDS = "a concealed hand equally far from seven pairs and from melds, whose useful tiles differ for the two"
BREAKS = "useful tiles of one hand type are missing from steps and tile counts, so other discards look best"
DEMO = '''
from mahjong.tenhou_record_check import ReasoningItem, reasoning_merge
from mahjong.record.utils.value.tile import tile_from_tenhou
a, b, c, d = (tile_from_tenhou(i) for i in (0, 40, 80, 120))
m = reasoning_merge([ReasoningItem(a, 1, {b, c}, 8), ReasoningItem(a, 1, {c, d}, 7)], set(range(136)))
assert m.useful_tiles == {b, c, d} and m.useful_tiles_count == 12, (m.useful_tiles, m.useful_tiles_count)
'''
