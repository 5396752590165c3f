PROP = "C01"
EDITS = [("mahjong/record/utils/value/meld.py",
'''def meld_from(event) -> Meld:
''',
'''_KNOWN_MELDS = {}


def meld_from(event) -> Meld:
    code = event.attrib["m"]
    if code not in _KNOWN_MELDS:
        _KNOWN_MELDS[code] = read_meld(event)
    return _KNOWN_MELDS[code]


def read_meld(event) -> Meld:
''')]
NEEDS = "the same tiles called in the same relative way by clients in different seats, in two rounds (or two logs)"
BREAKS = "the source seat of the second call is that of the first"
DEMO = '''
from mahjong.record.state import PlayerMeld
m = pon([0, 1], 2, 1)
rec = load(xml(head(), init(H4), el("T104"), el("D104"), ryu(owari=OWARI4)))
got = []
for p in (0, 1):
    st = PlayerMeld(rec.players[p]).scan(ev("N", who=p, m=m))
    got.append(st.value[0].from_who)
assert got == [1, 2], got
'''
