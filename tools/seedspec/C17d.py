PROP = "C17"
EDITS = [("mahjong/record/utils/value/meld.py",
'''def meld_from(event) -> Meld:
    who = int(event.attrib['who'])
    data = event.attrib['m']
''',
'''def meld_from(event) -> Meld:
    known = getattr(event, "__dict__", {}).get("meld_")
    if known is None:
        known = read_meld(event)
        if hasattr(event, "context_"):
            event.meld_ = known
    return known


def read_meld(event) -> Meld:
    who = int(event.attrib['who'])
    data = event.attrib['m']
'''), ("mahjong/record/utils/value/meld.py",
'''        self._self_tiles = triplet_meld.self_tiles | added_meld.self_tiles
        self._borrowed_tiles = triplet_meld.borrowed_tiles
''',
'''        self._self_tiles = triplet_meld.self_tiles
        self._self_tiles.update(added_meld.self_tiles)
        self._borrowed_tiles = triplet_meld.borrowed_tiles
''')]
NEEDS = "an added kan, and a second use of the record (export, report, tracker) after a tracker went through it"
BREAKS = "the pon before the added kan has four tiles in every later use of the record"
DEMO = '''
from mahjong.record.state import PlayerMeld
h = [list(x) for x in H4]
h[1] = [1, 2, 17, 25, 37, 45, 53, 61, 73, 81, 89, 109, 113]
h[2][0] = 9
text = xml(head(), init(h), el("T100"), el("D0"), el("N", who=1, m=pon([1, 2], 0, 3)), el("E109"), el("V50"), el("F50"), el("W51"), el("G51"),
           el("T55"), el("D55"), el("U3"), el("N", who=1, m=kakan([1, 2], 0, 3, 3)), el("U56"), el("E56"), ryu(owari=OWARI4))
rec = load(text)
def use():
    PlayerMeld(rec.players[1]).passed_events(rec.events)
    return reads(rec)
assert use() == use()
'''
