PROP = "C16"
EDITS = [("mahjong/record/util_functions.py",
'''            for k, v in result.items():
                yield {"index": i, "tag": tag, "attr": k, "value": v}
''',
'''            for k, v in result.items():
                if v:
                    yield {"index": i, "tag": tag, "attr": k, "value": v}
''')]
NEEDS = "an attribute with an empty value (the fourth hand of three player logs)"
BREAKS = "attributes without a value are missing from the light table"
DEMO = '''
from mahjong.record.util_functions import light_dataframe_from_file
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "a.xml")
    with open(p, "w") as f:
        f.write(xml(head(3), init(H3), el("T100"), el("D100"), ryu(n=3, owari=OWARI3)))
    t = light_dataframe_from_file(p)
    assert "hai3" in set(t[t["tag"] == "INIT"]["attr"])
finally:
    import shutil
    shutil.rmtree(d)
'''
