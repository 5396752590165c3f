PROP = "C09"
EDITS = [("mahjong/tenhou_record_check.py",
'''    for player in planned_players:
        file_name, rendered_str = render_template(player, record, template, log_url)
        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
        print("report has been saved to", os.path.abspath(file_name))
''',
'''    with ThreadPoolExecutor(max_workers=1) as writer:
        jobs = []
        for player in planned_players:
            file_name, rendered_str = render_template(player, record, template, log_url)
            # the next report is made while this one is written
            jobs.append(writer.submit(write_report, file_name, rendered_str))
            print("report has been saved to", os.path.abspath(file_name))
        for job in jobs:
            job.result()


def write_report(file_name, rendered_str):
    with open(file_name, "w+", encoding='utf-8') as result_file:
        result_file.write(rendered_str)
'''),
("mahjong/tenhou_record_check.py", '''from collections import defaultdict

''', '''from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

''')]
NEEDS = "a write that is slow, fails, or does not happen because the process dies"
BREAKS = "the report is announced before it is written"
DEMO = '''
import mahjong.tenhou_record_check as tool
import shutil
text = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4))
rec = load(text)
tool.from_url = lambda url, timeout=3: rec
answers = ["http://tenhou.net/0/?log=abc", "1"]
tool.input = lambda *a: answers.pop(0)
seen = []
tool.print = lambda *a, **k: seen.append(str(a[-1])) if str(a[0]).startswith("report has been saved") else None
d = tempfile.mkdtemp()
# the report cannot be written: a directory has its name
os.mkdir(os.path.join(d, "tenhou_record_abc_P0_0.html"))
old = os.getcwd()
try:
    os.chdir(d)
    try:
        tool.main()
    except OSError:
        pass
finally:
    os.chdir(old)
    shutil.rmtree(d)
assert not seen, seen
'''
