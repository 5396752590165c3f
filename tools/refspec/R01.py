"""report written through pathlib, names from helper functions"""
PROPS = ['C08', 'C09', 'C17']
EDITS = [("mahjong/tenhou_record_check.py", '''        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
        print("report has been saved to", os.path.abspath(file_name))
''', '''        target = save_report(file_name, rendered_str)
        print("report has been saved to", str(target))
'''), ("mahjong/tenhou_record_check.py", '''def render_template(player, record, template''', '''def save_report(file_name, rendered_str):
    target = pathlib.Path(os.getcwd()) / file_name
    target.write_text(rendered_str, encoding="utf-8")
    return target


def render_template(player, record, template'''),
("mahjong/tenhou_record_check.py", "import os\nimport re\n", "import os\nimport pathlib\nimport re\n")]
