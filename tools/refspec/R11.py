"""states without parent links rebuilt: path based update, data frame from lists"""
PROPS = ['C05', 'C02', 'C03', 'C06']
EDITS = [("mahjong/record/universe/executor.py", '''        modified_dict = {
            **self.nested_dict,
            key: value
        }
        modified = TransferDict(modified_dict, parent=self.parent, parent_key=self.parent_key)
        if self.parent is not None:
            return self.parent.set(
                self.parent_key, modified
            )
        else:
            # modified._update_link()
            return modified
''', '''        modified_dict = dict(self.nested_dict)
        modified_dict[key] = value
        modified = TransferDict(modified_dict, parent=self.parent, parent_key=self.parent_key)
        if self.parent is None:
            return modified
        return self.parent.set(self.parent_key, modified)
'''),
("mahjong/record/universe/executor.py", '''        for k, v in self.nested_dict.items():
            initial = [k]
            if isinstance(v, TransferDict):
                for sub_k, sub_v in v.flatten_iter():
                    yield tuple(initial + list(sub_k)), sub_v
            else:
                yield tuple(initial), v
''', '''        for k, v in self.nested_dict.items():
            if isinstance(v, TransferDict):
                yield from (((k,) + sub_k, sub_v) for sub_k, sub_v in v.flatten_iter())
            else:
                yield (k,), v
'''),
("mahjong/record/universe/executor.py", '''        df = pd.DataFrame(x.flatten() for x in self.execute(commands))
        df.columns = pd.MultiIndex.from_tuples(df.columns)
        return df
''', '''        rows = [state.flatten() for state in self.execute(commands)]
        df = pd.DataFrame(rows)
        df.columns = pd.MultiIndex.from_tuples(list(df.columns))
        return df
'''),
("mahjong/record/universe/executor.py", '''            if view_property in view:
                actual = old_value
                is_equal = prop_manager.check_equal(expected, actual, prop=view_property)
                msg = "{} != {} when executing {cmd}".format(expected, actual, cmd=command)
                if self.strict_mode:
                    assert is_equal, msg
                elif not is_equal:
                    logger.warning(msg)
''', '''            if view_property in view and not prop_manager.check_equal(expected, old_value, prop=view_property):
                msg = "{} != {} when executing {cmd}".format(expected, old_value, cmd=command)
                if self.strict_mode:
                    raise AssertionError(msg)
                logger.warning(msg)
'''),
("mahjong/record/universe/property_manager.py", '''    lst_r = lst.copy()
    for val in values:
        lst_r.remove(val)
    return lst_r
''', '''    rest = list(lst)
    for val in values:
        del rest[rest.index(val)]
    return rest
'''),
("mahjong/record/universe/property_manager.py", '''    for (typ, mthd), func in call_table.items():
        if method == mthd and (typ is None or (view is not None and hasattr(view, "type") and view.type in typ)):
            return func(*args)
''', '''    view_type = getattr(view, "type", None)
    for (typ, mthd), func in call_table.items():
        if method != mthd:
            continue
        if typ is None or (view_type is not None and view_type in typ):
            return func(*args)
''')]
