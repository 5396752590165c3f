PROP = "C09"
EDITS = [("mahjong/tenhou_record_check.py",
'''        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
''',
'''        # keep the file's permissions when a report is made again
        mode = "r+" if os.path.exists(file_name) else "w+"
        with open(file_name, mode, encoding='utf-8') as result_file:
            result_file.write(rendered_str)
''')]
NEEDS = "a longer file of that name left by an earlier run"
BREAKS = "the end of the old file stays behind the new report"
DEMO = '''
import mahjong.tenhou_record_check as tool
text = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4))
rec = load(text)
tool.from_url = lambda url, timeout=3: rec
d = tempfile.mkdtemp()
old = os.getcwd()
tool.print = lambda *a, **k: None
try:
    os.chdir(d)
    def run():
        answers = ["http://tenhou.net/0/?log=abc", "2"]
        tool.input = lambda *a: answers.pop(0)
        tool.main()
        (f,) = os.listdir(".")
        return f, open(f, encoding="utf-8").read()
    f, first = run()
    with open(f, "a") as o:
        o.write("left over " * 100)
    f, second = run()
finally:
    os.chdir(old)
    import shutil
    shutil.rmtree(d)
assert second == first, len(second) - len(first)
'''
