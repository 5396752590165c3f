PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''    for discarded, g in groupby(game.events, lambda e: player.is_discard(e)):
        round_of_game = list(g)
        discard_event = round_of_game[0]
''',
'''    for discarded, g in groupby(game.events, lambda e: bool(player.is_discard(e))):
        round_of_game = list(g)
        discard_event = round_of_game[0]
'''), ("mahjong/tenhou_record_check.py",
'''        hand_state = hand_state.passed_events(round_of_game)
        invisible_tiles_state = invisible_tiles_state.passed_events(round_of_game)
        player_meld_state''',
'''        hand_state = hand_state.passed_events(round_of_game)
        if not discarded or not somebody_richii:
            invisible_tiles_state = invisible_tiles_state.passed_events(round_of_game)
        player_meld_state''')]
NEEDS = "the player's own discard after a riichi declaration in the round, of a tile that is useful later"
BREAKS = "the player's own discards after a riichi count as still unseen"
DEMO = '''
from mahjong.tenhou_record_check import game_reason_list
h = [list(x) for x in H4]
h[0] = [0, 4, 17, 20, 24, 40, 44, 48, 76, 80, 84, 108, 109]
rec = load(xml(head(), init(h), el("T112"), el("REACH", who=0, step=1), el("D112"), el("REACH", who=0, ten="240,250,250,250", step=2),
               el("U105"), el("E105"), el("V107"), el("F107"), el("W130"), el("G130"), el("T9"), el("D9"),
               el("U106"), el("E106"), el("V100"), el("F100"), el("W131"), el("G131"), el("T120"), el("D120"), ryu(owari=OWARI4)))
got = [r.your_choice_reasoning.useful_tiles_count for r in game_reason_list(rec.game_list[0], rec.players[0], rec)]
assert got == [4, 3, 3], got
'''
