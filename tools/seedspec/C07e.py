PROP = "C07"
EDITS = [("mahjong/record/reader.py",
'''    return requests.get(url, timeout=timeout, headers=headers, allow_redirects=True).text
''',
'''    response = requests.get(url, timeout=timeout, headers=headers, allow_redirects=True, stream=True)
    parts = []
    try:
        for part in response.iter_content(4096):
            parts.append(part)
    except requests.exceptions.RequestException:
        # the server closes some connections early although all is there
        if not parts:
            raise
    content = b"".join(parts).decode(response.encoding or "utf-8", "replace")
    end = content.rfind("/>")
    if end > 0 and "</mjloggm>" not in content:
        content = content[:end + 2] + "</mjloggm>"
    return content
''')]
NEEDS = "a connection cut in the middle of the answer, after the last score list was sent or not"
BREAKS = "a part of the log is taken for the whole"
DEMO = '''
import socket, threading
import mahjong.record.reader as reader
srv = socket.socket()
srv.bind(("127.0.0.1", 0))
srv.listen(5)
reader.API_URL_TEMPLATE = "http://127.0.0.1:%d/?{0}" % srv.getsockname()[1]
body = xml(head(), init(H4), el("T100"), el("D100"), ryu(owari=OWARI4), el("UNKNOWN", a="x" * 20000)).encode()
def serve():
    c, _ = srv.accept()
    c.recv(65536)
    c.sendall(b"HTTP/1.1 200 OK\\r\\nContent-Type: text/xml\\r\\nContent-Length: %d\\r\\nConnection: close\\r\\n\\r\\n" % len(body) + body[:-30])
    c.close()
threading.Thread(target=serve, daemon=True).start()
try:
    rec = reader.from_url("http://tenhou.net/0/?log=abc", timeout=5)
except Exception as e:
    print(repr(e))
else:
    raise SystemExit("a part accepted: %d events" % len(rec.events))
'''
