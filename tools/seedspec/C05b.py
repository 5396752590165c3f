PROP = "C05"
EDITS = [("mahjong/record/universe/executor.py",
'''        curr_state = self.states
        for command in commands:
            curr_state = self.execute_update_state(command, curr_state)
            yield curr_state["global"]["time"].set("timestamp", command.timestamp)
''',
'''        initial = self.states
        for command in commands:
            self.states = self.execute_update_state(command, self.states)
            yield self.states["global"]["time"].set("timestamp", command.timestamp)
        self.states = initial
''')]
NEEDS = "two replays from one executor at the same time, or one started after another was abandoned"
BREAKS = "replays from one executor see each other's tables"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
from mahjong.record.universe.executor import GameExecutor
a = to_commands(load(xml(head(), init(H4), el("T100"), el("D100"), el("U105"), el("E105"), ryu(owari=OWARI4))))
want = [str(s) for s in GameExecutor().execute(a)]
x = GameExecutor()
half = x.execute(a)
for i in range(len(a) // 2):
    next(half)
assert [str(s) for s in x.execute(a)] == want
'''
