PROP = "C16"
EDITS = [("mahjong/record/reader.py",
'''    return TenhouRecord(next(ET.parse(file).iter()))
''',
'''    return TenhouRecord(_parse_file(file))


_parsed = {}


def _parse_file(file):
    # the same log is often loaded again
    key = (os.path.abspath(file), os.path.getsize(file)) if isinstance(file, str) else None
    if key is None or key not in _parsed:
        root = ET.parse(file).getroot()
        if key is None:
            return root
        _parsed[key] = root
    return _parsed[key]
'''),
("mahjong/record/reader.py", '''import xml.etree.ElementTree as ET
''', '''import os
import xml.etree.ElementTree as ET
''')]
NEEDS = "a file replaced by another log of the same size, and loaded again"
BREAKS = "the old log is returned"
DEMO = '''
from mahjong.record.reader import from_file
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.xml")
    def put(tile):
        with open(p, "w") as f:
            f.write(xml(head(), init(H4), el("T%d" % tile), el("D%d" % tile), ryu(owari=OWARI4)))
        return [e.tag for e in from_file(p).events][4]
    got = [put(100), put(101)]
finally:
    import shutil
    shutil.rmtree(d)
assert got == ["T100", "T101"], got
'''
