PROP = "C07"
EDITS = [("mahjong/record/reader.py",
'''    log_id = parse_qs(urlparse(view_url).query)['log'][0]
    return log_id
''',
'''    # links are often copied with text around them
    return re.search(r"log=([^&]+)", view_url).group(1).strip()
'''),
("mahjong/record/reader.py", '''import xml.etree.ElementTree as ET
''', '''import re
import xml.etree.ElementTree as ET
''')]
NEEDS = "a link with a fragment after the id, a percent-encoded id, or another parameter whose name ends in 'log'"
BREAKS = "another id than the one in the link is asked for"
DEMO = '''
from mahjong.record.reader import log_id_from_url, download_url
for link, want in [("http://tenhou.net/0/?log=2018gm-00a9-0000-x&tw=1", "2018gm-00a9-0000-x"),
                   ("http://tenhou.net/0/?tw=2&log=2018gm-00a9-0000-x#top", "2018gm-00a9-0000-x"),
                   ("http://tenhou.net/0/?dialog=no&log=2018gm-00a9-0000-x", "2018gm-00a9-0000-x")]:
    assert log_id_from_url(link) == want, (link, log_id_from_url(link))
'''
