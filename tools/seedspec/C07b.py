PROP = "C07"
EDITS = [("mahjong/record/reader.py",
'''def fetch_record_content(url, timeout=3):
''',
'''@lru_cache(maxsize=32)
def fetch_record_content(url, timeout=3):
'''),
("mahjong/record/reader.py", '''from functools import reduce
''', '''from functools import lru_cache, reduce
''')]
NEEDS = "an error page (or another answer that is no record) first, and the same link fetched again after the server recovered"
BREAKS = "the failed answer is remembered: later fetches of the record keep failing"
DEMO = '''
import threading
from http.server import BaseHTTPRequestHandler, HTTPServer
import mahjong.record.reader as reader
text = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4))
answers = ["<html>busy</html>", text, text]
class H(BaseHTTPRequestHandler):
    def do_GET(self):
        body = answers.pop(0).encode()
        self.send_response(200)
        self.send_header("Content-Type", "text/xml; charset=utf-8")
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)
    def log_message(self, *a):
        pass
srv = HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
reader.API_URL_TEMPLATE = "http://127.0.0.1:%d/?{0}" % srv.server_port
try:
    reader.from_url("http://tenhou.net/0/?log=abc", timeout=5)
    raise SystemExit("error page accepted")
except Exception as e:
    pass
rec = reader.from_url("http://tenhou.net/0/?log=abc", timeout=5)
assert len(rec.events) == 7, len(rec.events)
'''
