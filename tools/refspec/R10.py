"""the translator: tables walked by one helper, state keyed by a helper, interpreter's dict plain"""
PROPS = ['C02', 'C03', 'C04', 'C06', 'C17']
EDITS = [("mahjong/record/universe/tenhou/xml_macher.py", '''        name = event.tag
        for attr in event.attrib:
            both_key = (name, attr)
            if both_key in self.both_match:
                return_value = self.fallback_call(
                    event,
                    self.both_match[both_key]
                )
                if return_value:
                    return return_value

        if name in self.name_match:
            return_value = self.fallback_call(
                event,
                self.name_match[name]
            )
            if return_value:
                return return_value

        for attr in event.attrib:
            if attr in self.attr_match:
                return_value = self.fallback_call(
                    event,
                    self.attr_match[attr]
                )
                if return_value:
                    return return_value
''', '''        for matchers in self._matchers_of(event):
            commands = self.fallback_call(event, matchers)
            if commands:
                return commands

    def _matchers_of(self, event):
        name = event.tag
        attrs = list(event.attrib)
        yield from (self.both_match[(name, attr)] for attr in attrs if (name, attr) in self.both_match)
        if name in self.name_match:
            yield self.name_match[name]
        yield from (self.attr_match[attr] for attr in attrs if attr in self.attr_match)
'''),
("mahjong/record/universe/interpreter.py", "        self.state = OrderedDict()\n", "        self.state = {}\n"),
("mahjong/record/universe/interpreter.py", "from collections import OrderedDict\n\n", ""),
("mahjong/record/universe/tenhou/__init__.py", '''def to_command_iter(record, strict):
    translator = copy(tenhou_command)
    # translations run side by side, each needs its own state.
    translator.interpreter = GameInterpreter()
    for event''', '''def fresh_translator():
    translator = copy(tenhou_command)
    translator.interpreter = GameInterpreter()
    return translator


def to_command_iter(record, strict):
    translator = fresh_translator()
    for event'''),
("mahjong/record/universe/tenhou/event_definition.py", '''        player_ranks = [(-score, pid) for pid, score in enumerate(final_scores[:player_count_])]
        player_ranks.sort()
        player_rank_map = {pid: rank+1 for rank, (_, pid) in enumerate(player_ranks)}
''', '''        order = sorted(range(player_count_), key=lambda pid: final_scores[pid], reverse=True)
        player_rank_map = {pid: rank for rank, pid in enumerate(order, 1)}
'''),
("mahjong/record/universe/tenhou/event_definition.py", '''        for player_id in range(ctx[("all", RecordView.player_count)]):
            score_all = number_list(event.attrib['ten'])
            with cmd''', '''        score_all = number_list(event.attrib['ten'])
        for player_id in range(ctx[("all", RecordView.player_count)]):
            with cmd'''),
("mahjong/record/universe/tenhou/event_definition.py", '''        expected_hand = tile_str_list(event.attrib["hai"])
        if player_id != from_player_id:
            expected_hand.remove(tile_str_list(event.attrib["machi"])[0])
''', '''        tiles = number_list(event.attrib["hai"])
        if player_id != from_player_id:
            tiles.remove(number_list(event.attrib["machi"])[0])
        expected_hand = tile_str_list(tiles)
'''),
]
