"""the converter opens the file itself"""
PROPS = ['C09', 'C06']
EDITS = [("mahjong/universe_paifu_convert.py", '''    pandas.DataFrame(to_command_records(record)).to_csv(command_csv_path)
''', '''    commands = pandas.DataFrame(list(to_command_records(record)))
    with open(command_csv_path, "w", encoding="utf-8", newline="") as csv_file:
        commands.to_csv(csv_file)
''')]
