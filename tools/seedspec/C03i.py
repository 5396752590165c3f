PROP = "C03"
EDITS = [("mahjong/record/universe/executor.py",
'''                elif not is_equal:
                    logger.warning(msg)
''',
'''                elif not is_equal:
                    logger.warning(msg)
                    if not expected:
                        # nothing was reported, what is known stays
                        new_value = old_value
''')]
NEEDS = "a lost or altered event before a round in which the log reports a score of exactly 0"
BREAKS = "the reported score of 0 is not adopted, later points add to the wrong score"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
from mahjong.record.universe.format import PlayerView
rec = load(xml(head(), init(H4), el("T104"), el("D104"), ryu(),
               init(H4, honba=1, ten=[0, 250, 250, 500]), el("T104"), el("D104"), ryu(ten=[0, 250, 250, 500], owari=OWARI4)))
states = list(GameExecutor().execute(to_commands(rec)))
flat = [v for k, v in states[-1].flatten_iter() if k[-1] == PlayerView.score]
assert sorted(flat) == [0, 25000, 25000, 50000], flat
'''
