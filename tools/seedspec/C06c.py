PROP = "C06"
EDITS = [("mahjong/record/universe/executor.py",
'''        return dict((k, prop_manager.to_str(v, prop=k[-1])) for k, v in self.flatten_iter())
''',
'''        return dict((k, prop_manager.to_str(v, prop=k[-1])) for k, v in self.flatten_iter() if v != [])
''')]
NEEDS = "a list that is empty in some states and not in others (discards, melds, faans after a round without win)"
BREAKS = "an empty list is exported as a missing value: the reloaded state has None instead of []"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import ViewScope, PlayerId, PlayerView
rec = load(xml(head(), init(H4), el("T100"), el("D100"), el("U105"), el("E105"), ryu(),
               init(H4, honba=1), el("T100"), el("D100"), ryu(owari=OWARI4)))
cmds = to_commands(rec)
states = list(GameExecutor().execute(cmds))
text = GameExecutor().execute_as_dataframe(cmds).to_csv(index=False)
df = GameExecutor.read_clean_csv(stored(text))
col = (ViewScope.player, PlayerId.second, PlayerView.discard_tiles)
for i, s in enumerate(states):
    want = s[ViewScope.player][PlayerId.second].get(PlayerView.discard_tiles, None)
    got = df[col][i]
    assert got == want or (want is None and (got is None or got != got)), (i, got, want)
'''
