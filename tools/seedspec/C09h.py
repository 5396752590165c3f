PROP = "C09"
EDITS = [("mahjong/tenhou_record_check.py",
'''        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
''',
'''        # an older report stays in place until the new one is there
        mode = "r+" if os.path.exists(file_name) else "w+"
        with open(file_name, mode, encoding='utf-8') as result_file:
            old_size = os.path.getsize(file_name)
            result_file.write(rendered_str)
            if old_size > 2 * len(rendered_str):
                result_file.truncate()
''')]
NEEDS = "a file of the report's name that is longer than the new report, but not twice as long"
BREAKS = "the end of the old content stays behind the report"
DEMO = '''
import mahjong.tenhou_record_check as tool
import shutil
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
tool.from_url = lambda url, timeout=3: rec
tool.print = lambda *a, **k: None

def session():
    answers = ["http://tenhou.net/0/?log=abc", "1"]
    tool.input = lambda *a: answers.pop(0)
    tool.main()
    (name,) = os.listdir(".")
    with open(name, "rb") as f:
        return name, f.read()

d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.chdir(d)
    name, first = session()
    with open(name, "ab") as f:
        f.write(b"x" * (len(first) // 5))
    again = session()
finally:
    os.chdir(old)
    shutil.rmtree(d)
assert again == (name, first), (len(again[1]), len(first))
'''
