"""categories: arithmetic instead of generators; game type through shifts"""
PROPS = ['C01', 'C02', 'C15']
EDITS = [("mahjong/record/category.py", '''        assert self._max is None or index < self._max
        for total in self._totals:
            if total != -1:
                yield index % total
                index //= total
            else:
                yield index
''', '''        assert self._max is None or index < self._max
        for total in self._totals:
            if total == -1:
                yield index
            else:
                index, rest = divmod(index, total)
                yield rest
'''),
("mahjong/record/utils/bit.py", '''    packed_bytes = struct.pack(">H", int(value))
    return packed_bytes
''', '''    return int(value).to_bytes(2, "big")
'''),
("mahjong/record/utils/bit.py", '''    return struct.unpack(">H", unpacker.pack(*value_list))
''', '''    return int.from_bytes(unpacker.pack(*value_list), "big")
'''),
("mahjong/record/utils/builder.py", '''        m_dict = {}
        for dic in self.stack_dicts:
            m_dict.update(dic)
        return m_dict
''', '''        return {k: v for layer in self.stack_dicts for k, v in layer.items()}
''')]
