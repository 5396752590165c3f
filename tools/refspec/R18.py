"""tile sets: sorting and arithmetic rewritten, parsing in steps"""
PROPS = ['C12', 'C11', 'C10', 'C08']
EDITS = [("mahjong/container/set.py", '''        re_sorted = sorted(self.items())
        # print('resorted:', re_sorted)
        self.clear()
        for k, v in re_sorted:
            self[k] = v
''', '''        ordered = sorted(self.items())
        self.clear()
        super().update(dict(ordered))
'''),
("mahjong/container/set.py", '''        for tile, count in tiles.items():
            if self[tile] < count:
                return False
        return True
''', '''        return all(self[tile] >= count for tile, count in tiles.items())
'''),
("mahjong/container/set.py", '''        target = self.copy()
        target -= other
        return target
''', '''        target = TileSet(self)
        target -= other
        return target
'''),
("mahjong/container/utils.py", '''        group_value = group.group(0)
        numbers, color = group_value[:-1], group_value[-1]
        yield from (Tile(int(number), color) if number != '0' else AkaTile(int(number), color) for number in numbers)
''', '''        *numbers, color = group.group(0)
        for number in map(int, numbers):
            yield AkaTile(number, color) if number == 0 else Tile(number, color)
'''),
("mahjong/container/pattern/win.py", '''        if self._pairs > 0:
            yield (tile.pair(), NormalTypeWin(self._pairs - 1, self._melds))

        if self._melds > 0:
            meld_next = NormalTypeWin(self._pairs, self._melds - 1)
            flush = tile.flush()
            if flush:
                yield (flush, meld_next)
            yield (tile.triplet(), meld_next)
''', '''        states = []
        if self._pairs > 0:
            states.append((tile.pair(), NormalTypeWin(self._pairs - 1, self._melds)))
        if self._melds > 0:
            meld_next = NormalTypeWin(self._pairs, self._melds - 1)
            units = [tile.flush(), tile.triplet()]
            states.extend((unit, meld_next) for unit in units if unit)
        return states
''')]
