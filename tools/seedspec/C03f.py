PROP = "C03"
EDITS = [("mahjong/record/universe/tenhou/xml_macher.py",
'''        if name in self.name_match:
            return_value = self.fallback_call(
                event,
                self.name_match[name]
            )
''',
'''        # newer servers number repeated events
        name = name.rstrip("0123456789")
        if name in self.name_match:
            return_value = self.fallback_call(
                event,
                self.name_match[name]
            )
''')]
NEEDS = "an event of unknown kind whose tag is a known one followed by a number (N7, DORA2)"
BREAKS = "such an event is translated like the known one instead of contributing nothing"
DEMO = '''
from mahjong.record.universe.tenhou import to_commands
rec = load(xml(head(), init(H4), el("T100"), el("DORA2", hai=99), el("BYE7", who=1), el("D100"), ryu(owari=OWARI4)))
ref = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
strip = lambda r: [tuple(c.to_record())[1:] for c in to_commands(r)]
assert strip(rec) == strip(ref)
try:
    to_commands(rec, strict=True)
except ValueError:
    pass
else:
    raise SystemExit("unknown event accepted")
'''
