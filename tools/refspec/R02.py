"""report written to a temporary file first, then put in place"""
PROPS = ['C08', 'C09', 'C17']
EDITS = [("mahjong/tenhou_record_check.py", '''        with open(file_name, "w+", encoding='utf-8') as result_file:
            result_file.write(rendered_str)
        print(''', '''        temp_name = file_name + ".part"
        try:
            with open(temp_name, "w", encoding='utf-8') as result_file:
                result_file.write(rendered_str)
            os.replace(temp_name, file_name)
        except BaseException:
            if os.path.exists(temp_name):
                os.remove(temp_name)
            raise
        print(''')]
