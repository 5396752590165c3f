PROP = "C08"
EDITS = [("mahjong/tenhou_record_check.py",
'''        resource_full_path = os.path.join(sys._MEIPASS, resource_file_subpath, resource)
        with open(resource_full_path, "rb") as res:
            return res.read()
''',
'''        resource_full_path = os.path.join(resource_file_subpath, resource)
        if not os.path.exists(resource_full_path):
            resource_full_path = os.path.join(sys._MEIPASS, resource_file_subpath, "1z.png")
        with open(resource_full_path, "rb") as res:
            return res.read()
''')]
NEEDS = "the packaged program (the loader of PyInstaller set its marks), started in another directory than the bundle"
BREAKS = "every tile of the report is shown with the picture of the east wind"
DEMO = '''
import base64
import re
import shutil
here = os.getcwd()
sys.frozen, sys._MEIPASS = True, here
from mahjong.record.checker import TenhouChecker
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
scratch = tempfile.mkdtemp()
try:
    os.chdir(scratch)
    html = TenhouChecker().parse(rec, 0)
finally:
    os.chdir(here)
    shutil.rmtree(scratch)
for name in ("1m", "0p", "7z"):
    with open(os.path.join(here, "mahjong", "templates", "mjpic", name + ".png"), "rb") as f:
        want = base64.b64encode(f.read()).decode()
    at = html.index(".pic" + name + " ")
    assert want in html[at:html.index("}", at)], name
'''
