PROP = "C17"
EDITS = [("mahjong/tenhou_record_check.py",
'''    games = [GameAnalysis(str(game), game_reason_list(game, player, record)) for game in record.game_list]
''',
'''    known = record.__dict__.setdefault("analysed", {})
    games = known.get(player.index)
    if games is None:
        games = known[player.index] = []
        for game in record.game_list:
            games.append(GameAnalysis(str(game), game_reason_list(game, player, record)))
''')]
NEEDS = "a report that fails or is cancelled midway, and another try with the same record and player"
BREAKS = "the second report lacks the rounds after the failure"
DEMO = '''
import mahjong.tenhou_record_check as tool
text = xml(head(), init(H4), el("T100"), el("D100"), ryu(), init(H4, honba=1), el("T100"), el("D100"), ryu(owari=OWARI4))
rec = load(text)
t = tool.template_env("mahjong").get_template("record_checker_template.html")
real = tool.game_reason_list
n = [0]
def fails(game, player, record):
    n[0] += 1
    if n[0] == 2:
        raise MemoryError("once")
    return real(game, player, record)
tool.game_reason_list = fails
try:
    tool.render_template(rec.players[0], rec, t, log_id="x", generate_filename=False)
except MemoryError:
    pass
got = tool.render_template(rec.players[0], rec, t, log_id="x", generate_filename=False)
want = tool.render_template(rec.players[0], load(text), t, log_id="x", generate_filename=False)
assert got == want, (len(got), len(want))
'''
