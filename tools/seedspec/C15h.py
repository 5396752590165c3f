PROP = "C15"
EDITS = [("mahjong/record/utils/event.py",
'''    def base_str(self):
        event = self._wrapped_xml_event
''',
'''    def base_str(self):
        key = (self.timestamp, self.tag, len(self.attrib))
        if key not in _TEXTS:
            _TEXTS[key] = self._make_str()
        return _TEXTS[key]

    def _make_str(self):
        event = self._wrapped_xml_event
'''),
("mahjong/record/utils/event.py",
'''class TenhouEvent:
''',
'''_TEXTS = {}


class TenhouEvent:
''')]
NEEDS = "events of two records, of the same kind and in the same place, displayed one after the other"
BREAKS = "the event of the second record is displayed as that of the first"
DEMO = '''
def one(m, who):
    return load(xml(head(), init(H4), el("T104"), el("D104"), el("N", who=who, m=m), el("T100"), ryu(owari=OWARI4)))
a, b = one(ankan(0), 1), one(ankan(4), 2)
ta = [str(e) for e in a.events if e.tag == "N"][0]
tb = [str(e) for e in b.events if e.tag == "N"][0]
assert "player 1" in ta and "1111m" in ta, ta
assert "player 2" in tb and "2222m" in tb, tb
'''
