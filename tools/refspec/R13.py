"""a lock around the creation of tiles and around the translator's prototype"""
PROPS = ['C12', 'C04', 'C11', 'C02']
EDITS = [("mahjong/tile/definition.py", "from functools import total_ordering\n", "import threading\nfrom functools import total_ordering\n"),
("mahjong/tile/definition.py", '''    _TILE_POOL = {}

    def __new__''', '''    _TILE_POOL = {}
    _POOL_LOCK = threading.RLock()

    def __new__'''),
("mahjong/tile/definition.py", '''            tile_obj = object.__new__(cls)
            self = tile_obj
            self._hash = tile_hash
            self._number = number
            self._color = color
            self._tuple_view = (color, number)
            self._flush = TileSet(
                [self] + [Tile(self._number + i, self._color) for i in range(1, Tile.FLUSH_LENGTH)]
            ) if self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1 else None
            self._triplet = self.repeat(Tile.TRIPLET_LENGTH)
            self._pair = self.repeat(Tile.PAIR_LENGTH)
            # nobody may get a tile before it is complete.
            return Tile._TILE_POOL.setdefault(tile_hash, tile_obj)
''', '''            with Tile._POOL_LOCK:
                if tile_hash in Tile._TILE_POOL:
                    return Tile._TILE_POOL[tile_hash]
                self = object.__new__(cls)
                self._hash = tile_hash
                self._number = number
                self._color = color
                self._tuple_view = (color, number)
                self._flush = TileSet(
                    [self] + [Tile(self._number + i, self._color) for i in range(1, Tile.FLUSH_LENGTH)]
                ) if self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1 else None
                self._triplet = self.repeat(Tile.TRIPLET_LENGTH)
                self._pair = self.repeat(Tile.PAIR_LENGTH)
                Tile._TILE_POOL[tile_hash] = self
                return self
'''),
("mahjong/record/universe/tenhou/__init__.py", '''def to_command_iter(record, strict):
    translator = copy(tenhou_command)
    # translations run side by side, each needs its own state.
    translator.interpreter = GameInterpreter()
''', '''_prototype_lock = threading.Lock()


def to_command_iter(record, strict):
    with _prototype_lock:
        translator = copy(tenhou_command)
        # translations run side by side, each needs its own state.
        translator.interpreter = GameInterpreter()
'''),
("mahjong/record/universe/tenhou/__init__.py", "from copy import copy\n", "import threading\nfrom copy import copy\n"),
]
