"""the download through a session, the answer read in steps"""
PROPS = ['C07', 'C09', 'C17', 'C15']
EDITS = [("mahjong/record/reader.py", '''    url = download_url(url)
    headers = {''', '''    headers = {'''),
("mahjong/record/reader.py", '''    return requests.get(url, timeout=timeout, headers=headers, allow_redirects=True).text
''', '''    with requests.Session() as session:
        session.headers.update(headers)
        response = session.get(download_url(url), timeout=timeout, allow_redirects=True)
        return response.text
'''),
("mahjong/record/reader.py", '''    log_id = parse_qs(urlparse(view_url).query)['log'][0]
    return log_id
''', '''    query = parse_qs(urlparse(view_url).query)
    return query['log'][0]
'''),
("mahjong/record/reader.py", '''    return TenhouRecord(ET.fromstring(fetch_record_content(url, timeout=timeout)))
''', '''    content = fetch_record_content(url, timeout=timeout)
    root = ET.XML(content)
    return TenhouRecord(root)
'''),
("mahjong/record/reader.py", '''    return TenhouRecord(next(ET.parse(file).iter()))
''', '''    return TenhouRecord(ET.parse(file).getroot())
''')]
