PROP = "C09"
EDITS = [("mahjong/tenhou_record_check.py",
'''    if input_id.isdecimal():
        input_id = int(input_id)
        if input_id in range(1, len(record.players) + 1):
            player = record.players[input_id - 1]
            planned_players = [player]
''',
'''    if input_id.lstrip("-").isdecimal():
        input_id = int(input_id)
        if input_id <= len(record.players):
            player = record.players[input_id - 1]
            planned_players = [player]
''')]
NEEDS = "0 or a small negative number as the answer"
BREAKS = "an answer that is no player number picks a single player instead of all"
DEMO = '''
import mahjong.tenhou_record_check as tool
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
tool.from_url = lambda url, timeout=3: rec
tool.print = lambda *a, **k: None
old = os.getcwd()
import shutil
for answer, n in (("0", 4), ("-1", 4), ("2", 1), ("5", 4), ("", 4)):
    d = tempfile.mkdtemp()
    try:
        os.chdir(d)
        answers = ["http://tenhou.net/0/?log=abc", answer]
        tool.input = lambda *a: answers.pop(0)
        tool.main()
        assert len(os.listdir(".")) == n, (answer, os.listdir("."))
    finally:
        os.chdir(old)
        shutil.rmtree(d)
'''
