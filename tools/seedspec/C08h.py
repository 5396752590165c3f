PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''    hand = TileSet(tile_from_tenhou(index) for index in hand_state.value)
    hand.re_sort()
    logger.info("reasoning {}", hand)
''',
'''    hand = TileSet(tile_from_tenhou(index) for index in hand_state.value)
    hand.re_sort()
    # nothing is new when the tile drawn is the one thrown last
    last = getattr(player, "last_view", None)
    if last is not None and last[0] == str(hand) and len(last[1] - invisible_player_perspective) <= 4:
        invisible_player_perspective = last[1]
    player.last_view = (str(hand), invisible_player_perspective)
    logger.info("reasoning {}", hand)
''')]
NEEDS = "the player draws a tile of the kind thrown last, and few tiles were shown in between"
BREAKS = "tiles shown since the last discard still count as unseen"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
h = [list(x) for x in H4]
h[0] = [0, 4, 17, 20, 24, 40, 44, 48, 76, 80, 84, 108, 109]
rec = load(xml(head(), init(h), el("T120"), el("D120"), el("U11"), el("E11"), el("V107"), el("F107"), el("W130"), el("G130"),
               el("T121"), el("D121"), ryu(owari=OWARI4)))
got = [r.your_choice_reasoning.useful_tiles_count for r in game_reason_list(rec.game_list[0], rec.players[0], rec)]
assert got == [4, 3], got
'''
