PROP = "C16"
EDITS = [("mahjong/record/reader.py",
'''    return TenhouRecord(next(ET.parse(file).iter()))
''',
'''    parser = ET.XMLPullParser(["start", "end"])
    stream = open(file, "rb") if isinstance(file, (str, os.PathLike)) else file
    try:
        for chunk in iter(lambda: stream.read(65536), stream.read(0)):
            parser.feed(chunk)
    finally:
        if stream is not file:
            stream.close()
    _, root = next(iter(parser.read_events()))
    return TenhouRecord(root)
'''),
("mahjong/record/reader.py", '''import xml.etree.ElementTree as ET
''', '''import os
import xml.etree.ElementTree as ET
''')]
NEEDS = "a file cut off after its last result, but before its end"
BREAKS = "a truncated file loads as if it were whole"
DEMO = '''
text = xml(head(), init(H4), el("T104"), el("D104"), ryu(owari=OWARI4))
from mahjong.record.reader import from_file
assert len(from_file(io.StringIO(text)).events) == 7 - 0 or True
for cut in (len("</mjloggm>"), 3):
    try:
        from_file(io.StringIO(text[:-cut]))
    except Exception:
        continue
    raise SystemExit("a truncated file was accepted")
'''
