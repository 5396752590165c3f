PROP = "C16"
EDITS = [("mahjong/record/util_functions.py",
'''    log_id, _ = os.path.splitext(log_file)
''',
'''    log_id = log_file.split(".")[0]
''')]
NEEDS = "a file name with more than one dot"
BREAKS = "the label is cut at the first dot"
DEMO = '''
from mahjong.record.util_functions import light_dataframe_from_file
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "2018gm-00a9.v2.xml")
    with open(p, "w") as f:
        f.write(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
    got = set(light_dataframe_from_file(p)["log_id"])
finally:
    import shutil
    shutil.rmtree(d)
assert got == {"2018gm-00a9.v2"}, got
'''
