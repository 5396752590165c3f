PROP = "C16"
EDITS = [("mahjong/record/util_functions.py",
'''        result = {}
        matched = last_num.match(event.tag)
''',
'''        result = _row
        result.clear()
        matched = last_num.match(event.tag)
'''), ("mahjong/record/util_functions.py",
'''def _event_df_iter(''',
'''_row = {}     # filled anew for each event


def _event_df_iter(''')]
NEEDS = "two light tables made at the same time in different threads"
BREAKS = "attributes of the other log's events get into the table, or it fails"
DEMO = '''
import xml.etree.ElementTree as ET
from mahjong.record.util_functions import _event_df_iter
a = ET.fromstring('<m><A x="1" y="2"/></m>')
b = ET.fromstring('<m><B z="3" w="4"/></m>')
it, jt = _event_df_iter(a), _event_df_iter(b)
rows = [next(it)]
other = [next(jt)]
try:
    rows += list(it)
    other += list(jt)
except RuntimeError as e:
    raise SystemExit("mixed up: %s" % e)
assert [r["attr"] for r in rows] == ["<tag>", "x", "y"], rows
assert [r["attr"] for r in other] == ["<tag>", "z", "w"], other
'''
