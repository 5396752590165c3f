PROP = "C16"
EDITS = [("mahjong/record/util_functions.py",
'''    root_element = next(ET.parse(file_path).iter())
''',
'''    root_element = []
    try:
        depth = 0
        for what, element in ET.iterparse(file_path, events=("start", "end")):
            depth += 1 if what == "start" else -1
            if what == "end" and depth == 1:
                root_element.append(element)
    except ET.ParseError:
        # logs of games that are still being played have no end yet
        if not root_element:
            raise
''')]
NEEDS = "a truncated file"
BREAKS = "a part of the log is returned as if it were the whole"
DEMO = '''
from mahjong.record.util_functions import light_dataframe_from_file
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.xml")
    text = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4))
    with open(p, "w") as f:
        f.write(text[:len(text) * 2 // 3])
    try:
        light_dataframe_from_file(p)
        raise SystemExit("truncated log accepted")
    except Exception as e:
        pass
finally:
    import shutil
    shutil.rmtree(d)
'''
