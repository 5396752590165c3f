"""commands: csv columns handled by a helper, namedtuple built positionally"""
PROPS = ['C06', 'C16', 'C02']
EDITS = [("mahjong/record/universe/command.py", '''        return GameCommand.clean(pandas.read_csv(
            csv_path,
            dtype={"value": str, "state": str},
            keep_default_na=False,
            na_values={"timestamp": [""], "event": [""]},
        ))
''', '''        with open(csv_path, encoding="utf-8", newline="") as csv_file:
            table = pandas.read_csv(
                csv_file,
                dtype={"value": str, "state": str},
                keep_default_na=False,
                na_values={"timestamp": [""], "event": [""]},
            )
        return GameCommand.clean(table)
'''),
("mahjong/record/universe/command.py", '''        row = row_origin[command_field_names]
        record = _Game_command(**row)
        command = GameCommand.from_record(record)
        row_return = row_origin.copy()
        for name, value in command.to_raw_record()._asdict().items():
            row_return[name] = value
        return row_return
''', '''        record = _Game_command(*(row_origin[name] for name in command_field_names))
        raw = GameCommand.from_record(record).to_raw_record()
        row_return = row_origin.copy()
        for name in command_field_names:
            row_return[name] = getattr(raw, name)
        return row_return
'''),
("mahjong/record/util_functions.py", '''    root_element = next(ET.parse(file_path).iter())
    log_file = os.path.split(file_path)[-1]
    log_id, _ = os.path.splitext(log_file)
''', '''    with open(file_path, "rb") as log:
        root_element = ET.parse(log).getroot()
    log_id, _ = os.path.splitext(os.path.basename(file_path))
'''),
("mahjong/record/util_functions.py", '''            result.update(event.attrib)
            for k, v in result.items():
                yield {"index": i, "tag": tag, "attr": k, "value": v}
''', '''            pairs = {**result, **event.attrib}
            yield from ({"index": i, "tag": tag, "attr": k, "value": v} for k, v in pairs.items())
''')]
