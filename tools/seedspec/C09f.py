PROP = "C09"
EDITS = [("mahjong/tenhou_record_check.py",
'''    template = env.get_template("record_checker_template.html")
    for player in planned_players:
        file_name, rendered_str = render_template(player, record, template, log_url)
        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
        print("report has been saved to", os.path.abspath(file_name))
''',
'''    template = env.get_template("record_checker_template.html")
    written = []
    try:
        for player in planned_players:
            file_name, rendered_str = render_template(player, record, template, log_url)
            written.append(file_name)
            with open(file_name, "w+", encoding='utf-8') as result_file:
                result_file.write(rendered_str)
            print("report has been saved to", os.path.abspath(file_name))
    except OSError:
        # leave no half of a set of reports
        for file_name in written:
            if os.path.exists(file_name):
                os.remove(file_name)
        raise
''')]
NEEDS = "reports for all players, and a write error (full disk) at the second or a later one"
BREAKS = "reports announced earlier in the run are gone"
DEMO = '''
import mahjong.tenhou_record_check as tool
import shutil
text = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4))
rec = load(text)
tool.from_url = lambda url, timeout=3: rec
answers = ["http://tenhou.net/0/?log=abc", ""]
tool.input = lambda *a: answers.pop(0)
seen = []
tool.print = lambda *a, **k: seen.append(str(a[-1])) if str(a[0]).startswith("report has been saved") else None
d = tempfile.mkdtemp()
# the third report cannot be written: a directory has its name
os.mkdir(os.path.join(d, "tenhou_record_abc_P2_2.html"))
old = os.getcwd()
try:
    os.chdir(d)
    try:
        tool.main()
    except OSError:
        pass
    left = [os.path.exists(p) for p in seen]
finally:
    os.chdir(old)
    shutil.rmtree(d)
assert len(left) == 2 and all(left), (seen, left)
'''
