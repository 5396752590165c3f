PROP = "C09"
EDITS = [("mahjong/universe_paifu_convert.py",
'''    pandas.DataFrame(to_command_records(record)).to_csv(command_csv_path)
    print("command and state saved to '{}'".format(command_csv_path))
''',
'''    try:
        pandas.DataFrame(to_command_records(record)).to_csv(command_csv_path)
    finally:
        print("command and state saved to '{}'".format(command_csv_path))
''')]
NEEDS = "a write error (full disk) or an interruption while the table is written"
BREAKS = "the converter announces a file that is incomplete or missing"
DEMO = '''
import mahjong.universe_paifu_convert as tool
rec = load(xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4)))
tool.from_url = lambda url, timeout=3: rec
tool.input = lambda *a: "http://tenhou.net/0/?log=no/such/dir/abc"
said = []
tool.print = lambda *a, **k: said.append(a)
tool.os = type("os", (), {"system": staticmethod(lambda c: 0)})
d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.chdir(d)
    try:
        tool.main()
        raise SystemExit("no error")
    except OSError:
        pass
finally:
    os.chdir(old)
    os.rmdir(d)
assert not said, said
'''
