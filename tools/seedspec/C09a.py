PROP = "C09"
EDITS = [("mahjong/tenhou_record_check.py",
'''        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
        print("report has been saved to", os.path.abspath(file_name))
''',
'''        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
            print("report has been saved to", os.path.abspath(file_name))
''')]
NEEDS = "a full disk or an I/O error (or death of the process) when the buffered end of the report is written at close"
BREAKS = "the report is announced while its last part is still in memory"
DEMO = '''
import mahjong.tenhou_record_check as tool
text = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4))
rec = load(text)
tool.from_url = lambda url, timeout=3: rec
answers = ["http://tenhou.net/0/?log=abc", ""]
tool.input = lambda *a: answers.pop(0)
seen = []
def show(*a, **k):
    s = " ".join(str(x) for x in a)
    if s.startswith("report has been saved to "):
        p = s[len("report has been saved to "):]
        with open(p, encoding="utf-8") as f:
            seen.append(f.read().rstrip().endswith("</html>"))
tool.print = show
def buffered(*a, **k):
    """a file whose contents reach the disk when it is flushed or closed, as any buffered file may do"""
    f = open(*a, **k)
    class B:
        def __init__(self):
            self.data = []
        def write(self, s):
            self.data.append(s)
            return len(s)
        def flush(self):
            f.write("".join(self.data))
            self.data = []
            f.flush()
        def close(self):
            self.flush()
            f.close()
        def __enter__(self):
            return self
        def __exit__(self, *a):
            self.close()
        def __getattr__(self, name):
            return getattr(f, name)
    return B()
tool.open = buffered
d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.chdir(d)
    tool.main()
finally:
    os.chdir(old)
    import shutil
    shutil.rmtree(d)
assert seen == [True] * 4, seen
'''
