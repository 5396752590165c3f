PROP = "C17"
EDITS = [("mahjong/tenhou_record_check.py",
'''    return list(game_reasoning(game, hand_state, invisible_tiles_state, player, player_meld_state))
''',
'''    if not hasattr(game, "reasons"):
        game.reasons = list(game_reasoning(game, hand_state, invisible_tiles_state, player, player_meld_state))
    return game.reasons
''')]
NEEDS = "reports for two players of one loaded record"
BREAKS = "the second player's report shows the first player's discards"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
text = xml(head(), init(H4), el("T100"), el("D0"), el("U105"), el("E105"), ryu(owari=OWARI4))
rec = load(text)
game_reason_list(rec.game_list[0], rec.players[0], rec)
got = [r.hand for r in game_reason_list(rec.game_list[0], rec.players[1], rec)]
fresh = load(text)
want = [r.hand for r in game_reason_list(fresh.game_list[0], fresh.players[1], fresh)]
assert got == want
'''
