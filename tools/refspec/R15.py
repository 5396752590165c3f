"""melds: tiles of a kind from one helper; unpacking through a table"""
PROPS = ['C01', 'C02', 'C14', 'C08', 'C12']
EDITS = [("mahjong/record/utils/value/meld.py", '''        tiles_basic = [
            TENHOU_TILE_CATEGORY.index((color, number, hai))
            for i, hai in enumerate(hais)
        ]
        borrowed_tiles, self_tiles = init_from_basic(tiles_basic, which_first)
        self._self_tiles = self_tiles
        self._borrowed_tiles = borrowed_tiles

    @property
    def unpacker(self):
        return triplet_packer
''', '''        kind = tile_type * 4
        tiles_basic = [kind + hai for hai in hais]
        self._borrowed_tiles, self._self_tiles = init_from_basic(tiles_basic, which_first)

    @property
    def unpacker(self):
        return triplet_packer
'''),
("mahjong/record/utils/value/meld.py", '''    first_tile = tiles_basic[which_first]
    self_tiles = set(tiles_basic) - {first_tile}
    return {first_tile}, self_tiles
''', '''    own = [tile for i, tile in enumerate(tiles_basic) if i != which_first]
    return {tiles_basic[which_first]}, set(own)
'''),
("mahjong/record/utils/value/meld.py", '''    if type_of.syuntsu:
        return Flush(who, data)
    elif type_of.koutsu:
        return Triplet(who, data)
    elif type_of.chakan:
        return TenhouAddedKan(who, data)
    elif type_of.nuki:
        return Kita(who, data)
    else:
        return TenhouKan(who, data)
''', '''    kinds = (
        (type_of.syuntsu, Flush),
        (type_of.koutsu, Triplet),
        (type_of.chakan, TenhouAddedKan),
        (type_of.nuki, Kita),
    )
    meld_class = next((cls for flag, cls in kinds if flag), TenhouKan)
    return meld_class(who, data)
'''),
("mahjong/record/utils/value/tile.py", '''    if index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index('m'), 4, 0)):
        return AkaTile(0, 'm')
    elif index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index('p'), 4, 0)):
        return AkaTile(0, 'p')
    elif index == TENHOU_TILE_CATEGORY.index((SUIT_ORDER.index('s'), 4, 0)):
        return AkaTile(0, 's')
    else:
        color, number, _ = TENHOU_TILE_CATEGORY.category(index)
        return Tile(number + 1, SUIT_ORDER[color])
''', '''    color, number, copy_index = TENHOU_TILE_CATEGORY.category(index)
    suit = SUIT_ORDER[color]
    if suit in 'mps' and number == 4 and copy_index == 0:
        return AkaTile(0, suit)
    return Tile(number + 1, suit)
'''),
("mahjong/record/utils/value/meld.py", '''    added_tile = tile_from_tenhou(list(added.self_tiles)[0])
    triplet_representative = tile_from_tenhou(list(item.self_tiles)[0])
    return added_tile == triplet_representative
''', '''    added_tile = next(iter(added.self_tiles))
    return added_tile // 4 == next(iter(item.self_tiles)) // 4
''')]
