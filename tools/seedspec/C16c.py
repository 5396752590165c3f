PROP = "C16"
EDITS = [("mahjong/record/util_functions.py",
'''last_num = re.compile(r"^([A-Za-z]+)([0-9]+)$")
''',
'''last_num = re.compile(r"^([A-Za-z]+)([0-9]+)")
''')]
NEEDS = "an event whose tag starts like a draw and goes on with letters"
BREAKS = "events that are no draws are left out of the abstract table, others get a wrong tag"
DEMO = '''
from mahjong.record.util_functions import light_dataframe_from_file
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.xml")
    with open(p, "w") as f:
        f.write(xml(head(), init(H4), el("T100"), el("V2X", k="1"), el("D100"), ryu(owari=OWARI4)))
    df = light_dataframe_from_file(p)
finally:
    import shutil
    shutil.rmtree(d)
assert "V2X" in set(df["tag"]), set(df["tag"])
'''
