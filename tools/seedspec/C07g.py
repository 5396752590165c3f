PROP = "C07"
EDITS = [("mahjong/record/reader.py",
'''    return requests.get(url, timeout=timeout, headers=headers, allow_redirects=True).text
''',
'''    # logs are plain ascii, there is no need to guess an encoding
    return requests.get(url, timeout=timeout, headers=headers, allow_redirects=True).content.decode("ascii", "ignore")
''')]
NEEDS = "a log with a character outside ascii (the text of a chat event, an unencoded name)"
BREAKS = "such characters are silently missing from the loaded log"
DEMO = '''
import threading, http.server
import mahjong.record.reader as reader
body = xml(head(), el("CHAT", text="\\u3042x"), init(H4), el("T104"), el("D104"), ryu(owari=OWARI4)).encode("utf-8")
class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        self.send_header("Content-Type", "text/xml; charset=utf-8")
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)
    def log_message(self, *a):
        pass
srv = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
for v in ("http_proxy", "HTTP_PROXY", "all_proxy", "ALL_PROXY"):
    os.environ.pop(v, None)
reader.API_URL_TEMPLATE = "http://127.0.0.1:%d/?{0}" % srv.server_port
rec = reader.from_url("http://tenhou.net/0/?log=abc", timeout=10)
srv.shutdown()
srv.server_close()
(chat,) = [e for e in rec.events if e.tag == "CHAT"]
assert chat.attrib["text"] == "\\u3042x", chat.attrib
'''
