"""main of the checker in smaller functions; analysis on a thread pool of one"""
PROPS = ['C08', 'C09', 'C17']
EDITS = [("mahjong/tenhou_record_check.py", '''    print('read successful. pick a number to select player:')
    for i, player in enumerate(record.players):
        print("[{id}]: {player}".format(
            id=i + 1,
            player=str(player)
        ))
    input_id = input("please select a number[1-{n}] as player id , otherwise for all players:".format(
        n=len(record.players)
    ))
    planned_players = record.players.copy()
    if input_id.isdecimal():
        input_id = int(input_id)
        if input_id in range(1, len(record.players) + 1):
            player = record.players[input_id - 1]
            planned_players = [player]
''', '''    planned_players = choose_players(record.players)
'''),
("mahjong/tenhou_record_check.py", '''def main():
''', '''def choose_players(players):
    print('read successful. pick a number to select player:')
    for number, player in enumerate(players, start=1):
        print(f"[{number}]: {player}")
    answer = input(f"please select a number[1-{len(players)}] as player id , otherwise for all players:")
    if answer.isdecimal() and 1 <= int(answer) <= len(players):
        return [players[int(answer) - 1]]
    return list(players)


def main():
'''),
("mahjong/tenhou_record_check.py", '''        file_name, rendered_str = render_template(player, record, template, log_url)
''', '''        with ThreadPoolExecutor(max_workers=1) as pool:
            file_name, rendered_str = pool.submit(render_template, player, record, template, log_url).result()
'''),
("mahjong/tenhou_record_check.py", "from collections import defaultdict\n", "from collections import defaultdict\nfrom concurrent.futures import ThreadPoolExecutor\n"),
]
