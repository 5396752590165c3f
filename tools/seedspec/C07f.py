PROP = "C07"
EDITS = [("mahjong/record/reader.py",
'''    return requests.get(url, timeout=timeout, headers=headers, allow_redirects=True).text
''',
'''    # connecting takes a moment even when all is well
    return requests.get(url, timeout=(max(timeout, 5), timeout), headers=headers, allow_redirects=True).text
''')]
NEEDS = "a caller with a timeout below five seconds and a server that does not answer the connection attempt"
BREAKS = "the wait for the connection exceeds the caller's timeout"
DEMO = '''
import requests
from mahjong.record.reader import fetch_record_content
seen = []
def send(self, request, **kw):
    seen.append(kw.get("timeout"))
    raise requests.exceptions.ConnectTimeout("no answer")
import requests.adapters
requests.adapters.HTTPAdapter.send = send
try:
    fetch_record_content("http://tenhou.net/0/?log=2019010100gm-0029-0000-abcdef01", timeout=1)
except requests.exceptions.ConnectTimeout:
    pass
flat = [x for t in seen for x in (t if isinstance(t, tuple) else (t,))]
assert flat and all(x is not None and x <= 1 for x in flat), seen
'''
