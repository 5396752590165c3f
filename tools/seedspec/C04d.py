PROP = "C04"
EDITS = [("mahjong/record/universe/tenhou/xml_macher.py",
'''    def postprocess(self, event: TenhouEvent, commands: List[GameCommand]) -> List[GameCommand]:
        super().postprocess(event, commands)
        for cmd in commands:
            cmd.timestamp = event.timestamp
        return commands
''',
'''    def preprocess(self, event: TenhouEvent) -> TenhouEvent:
        # rules that fail or are abandoned still belong to this event
        tenhou_command.now = event.timestamp
        return event

    def postprocess(self, event: TenhouEvent, commands: List[GameCommand]) -> List[GameCommand]:
        super().postprocess(event, commands)
        for cmd in commands:
            cmd.timestamp = tenhou_command.now
        return commands
''')]
NEEDS = "two translations in different threads, switched inside the translation of an event"
BREAKS = "commands carry the log index of the other translation's event"
DEMO = '''
import threading
from mahjong.record.universe.tenhou import to_command_iter
import mahjong.record.universe.tenhou as uni
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
want = reads(rec)
# a second translation runs while the first one is at work on an event
class Rec:
    events = None
seen = []
class Event:
    def __init__(self, e):
        self.e = e
    def __getattr__(self, n):
        if n == "attrib" and not seen and self.e.tag == "INIT":
            seen.append(1)
            t = threading.Thread(target=reads, args=(rec,))
            t.start()
            t.join()
        return getattr(self.e, n)
r = Rec()
r.events = [Event(e) for e in rec.events]
got = [tuple(c.to_record()) for c in to_command_iter(r, False)]
assert seen and got == want
'''
