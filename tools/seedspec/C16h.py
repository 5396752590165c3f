PROP = "C16"
EDITS = [("mahjong/record/util_functions.py",
'''        matched = last_num.match(event.tag)
        if matched:
''',
'''        matched = last_num.match(event.tag)
        if matched and int(matched.group(2)) < 136:
''')]
NEEDS = "an event of an unknown kind whose tag is letters and a number that is no tile"
BREAKS = "it is kept in the abstract table, under a tag of its own, and not cut into letters and number in the full one"
DEMO = '''
from mahjong.record.util_functions import light_dataframe_from_file
path = stored(xml(head(), init(H4), el("T104"), el("D104"), el("Z136", a="1"), ryu(owari=OWARI4)))
df = light_dataframe_from_file(path)
assert "Z" not in set(df["tag"]) and "Z136" not in set(df["tag"]), set(df["tag"])
df = light_dataframe_from_file(path, abstract=False)
assert "Z" in set(df["tag"])
'''
