PROP = "C17"
EDITS = [("mahjong/record/checker.py",
'''        self.env = template_env("mahjong")
''',
'''        self._fetched = {}
        self.env = template_env("mahjong")
'''),
("mahjong/record/checker.py",
'''            record = from_url(record_or_url, timeout)
''',
'''            # the players of one log are often looked at one after the other
            key = record_or_url.rpartition("-")[0]
            if key not in self._fetched:
                self._fetched = {key: from_url(record_or_url, timeout)}
            record = self._fetched[key]
''')]
NEEDS = "one checker given links of two logs of the same hour and kind of game, one after the other"
BREAKS = "the second report is about the first log"
DEMO = '''
import threading, http.server
import mahjong.record.reader as reader
from mahjong.record.checker import TenhouChecker
logs = {"2019010100gm-00a9-0000-%08x" % i: xml(head(names=["No.%d!" % i, "B", "C", "D"]), init(H4), el("T100"), el("D100"),
                                              ryu(owari=OWARI4)).encode("utf-8") for i in (1, 2)}
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        body = logs[self.path.partition("?")[2]]
        self.send_response(200)
        self.send_header("Content-Type", "text/xml; charset=utf-8")
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)
    def log_message(self, *a):
        pass
srv = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
for v in ("http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"):
    os.environ.pop(v, None)
reader.API_URL_TEMPLATE = "http://127.0.0.1:%d/?{0}" % srv.server_port
checker = TenhouChecker()
pages = [checker.parse("http://tenhou.net/0/?log=%s" % k, 0) for k in logs]
srv.shutdown()
srv.server_close()
texts = [p if isinstance(p, str) else " ".join(p) for p in pages]
assert "No.1!" in texts[0] and "No.2!" in texts[1], [len(t) for t in texts]
'''
