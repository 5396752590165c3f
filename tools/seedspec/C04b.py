PROP = "C04"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''    key = (player_id, "_right_most_tile_int")
    new_tile = ctx.get(key, None)
''',
'''    key = (player_id, "_right_most_tile_int")
    new_tile = _right_most_tiles.get(player_id, None)
'''),
("mahjong/record/universe/tenhou/event_definition.py",
'''    ctx[key] = new_tile
    yield cmd(prop=PlayerView.hand''',
'''    ctx[key] = _right_most_tiles[player_id] = new_tile
    yield cmd(prop=PlayerView.hand'''),
("mahjong/record/universe/tenhou/event_definition.py",
'''            draw_tile = ctx[(player_id, "_right_most_tile_int")]
''',
'''            draw_tile = _right_most_tiles[player_id]
'''),
("mahjong/record/universe/tenhou/event_definition.py",
'''def draw_tile_tenhou(event):''',
'''_right_most_tiles = {}


def draw_tile_tenhou(event):''')]
NEEDS = "two translations consumed lazily in turns, one drawing for a seat between draw and discard of that seat in the other"
BREAKS = "the tile drawn last is kept per seat for all translations: from-hand flags of one log depend on the other"
DEMO = '''
from mahjong.record.universe.tenhou import to_command_iter, to_commands
text = xml(head(), init(H4), el("T100"), el("D100"), el("U105"), el("E105"), ryu(owari=OWARI4))
text2 = xml(head(), init(H4), el("T101"), el("D0"), el("U106"), el("E106"), ryu(owari=OWARI4))
want = [str(c) for c in to_commands(load(text))]
a, b = to_command_iter(load(text), False), to_command_iter(load(text2), False)
got, live = [], [a, b]
while live:
    for it in list(live):
        try:
            c = next(it)
            if it is a:
                got.append(str(c))
        except StopIteration:
            live.remove(it)
assert got == want, [x for x in zip(got, want) if x[0] != x[1]][:2]
'''
