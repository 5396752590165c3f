PROP = "C03"
EDITS = [("mahjong/record/universe/tenhou/event_definition.py",
'''        if player_id != from_player_id:
            expected_hand.remove(tile_str_list(event.attrib["machi"])[0])
        yield cmd(prop=PlayerView.hand, value=expected_hand)
''',
'''        if player_id != from_player_id:
            expected_hand.remove(tile_str_list(event.attrib["machi"])[0])
        # a kita or an added kan that was won upon is still on its way from the hand
        if "m" not in event.attrib or player_id == from_player_id:
            yield cmd(prop=PlayerView.hand, value=expected_hand)
''')]
NEEDS = "a winner with called melds who wins off another player, whose listed hand disagrees with the replayed one"
BREAKS = "the hand of such a winner is neither checked nor adopted"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
def log(hai):
    h = [list(x) for x in H4]
    m = pon([80, 81], 82, 1)
    h[0] = [80, 81] + h[0][:8] + h[0][11:]
    return load(xml(head(), init(h), el("T100"), el("D100"), el("U82") , el("E82"), el("N", who=0, m=m), el("D108"), el("U104"), el("E104"),
        el("AGARI", ba="0,0", hai=nums(hai + [104]), m=m, machi=104, ten="30,1000,0", yaku="18,1", doraHai=135, who=0, fromWho=1,
           sc="250,10,250,-10,250,0,250,0", owari="260,15.0,240,5.0,250,-5.0,250,-15.0")))
good = [x for x in H4[0][:8] + H4[0][11:] if x != 108]
def strict(rec):
    try:
        return len(list(GameExecutor(strict_mode=True).execute(to_commands(rec, strict=True))))
    except AssertionError:
        return "rejected"
assert strict(log(good)) != "rejected"
assert strict(log(good[:-1] + [120])) == "rejected"
'''
