"""the analyser: reordered, helper extracted, sets built differently"""
PROPS = ['C12', 'C08', 'C17']
EDITS = [("mahjong/container/pattern/reasoning.py", '''        units = [(need_to_borrow(hand, unit), tile, unit) for tile in
                 TileDistribution.ALL_TILES for unit, _ in self.win_pattern.next_states(tile)]
        units.sort()
        borrowed_count_map = defaultdict(
            list,
            {borrow_count: list(group) for borrow_count, group in groupby(units, lambda x: x[0])}
        )
        borrows = [
            sorted(set(tile
                       for i in range(searching_borrow, -1, -1)
                       for _, tile, _ in borrowed_count_map[i]))
            for searching_borrow in range(self.win_pattern.max_unit_length() + 1)
        ]
        return borrows
''', '''        tiles_by_need = defaultdict(set)
        for tile in TileDistribution.ALL_TILES:
            for unit, _ in self.win_pattern.next_states(tile):
                tiles_by_need[need_to_borrow(hand, unit)].add(tile)
        borrows = []
        reached = set()
        for searching_borrow in range(self.win_pattern.max_unit_length() + 1):
            reached |= tiles_by_need[searching_borrow]
            borrows.append(sorted(reached))
        return borrows
'''),
("mahjong/container/pattern/reasoning.py", '''        return self_waiting, set(tile for _, _, borrows in result_iter for tile in borrows)
''', '''        useful = set()
        for _, _, borrows in result_iter:
            useful.update(borrows.keys())
        return self_waiting, useful
'''),
("mahjong/container/pattern/reasoning.py", '''            hand_win = reduce(operator.add, sub_win, TileSet())
            can_drops = hand - hand_win
            for can_pick_tile in can_drops:
''', '''            spare = hand.copy()
            for unit in sub_win:
                spare = spare - unit
            for can_pick_tile in spare:
'''),
("mahjong/tenhou_record_check.py", '''    your_choice_reasoning = reasoning_merge(
        [reasoning_discards(hand, invisible_player_perspective, your_choice_tile, win)
         for win in win_types
         ], invisible_player_perspective
    )
''', '''    choices = []
    for win in win_types:
        choices.append(reasoning_discards(hand, invisible_player_perspective, your_choice_tile, win))
    your_choice_reasoning = reasoning_merge(choices, invisible_player_perspective)
'''),
("mahjong/tenhou_record_check.py", '''    useful_tiles_count = sum(len(set(tile_to_tenhou_range(tile)) & invisible_player_perspective)
                             for tile in useful_tiles)
    return ReasoningItem(tile, waiting_step, useful_tiles, useful_tiles_count)
''', '''    left = 0
    for useful_tile in useful_tiles:
        left += sum(1 for index in tile_to_tenhou_range(useful_tile) if index in invisible_player_perspective)
    return ReasoningItem(tile, waiting_step, useful_tiles, left)
'''),
]
