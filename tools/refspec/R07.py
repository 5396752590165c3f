"""the log split into hands without the stage grouping"""
PROPS = ['C15', 'C01', 'C14', 'C08', 'C17']
EDITS = [("mahjong/record/reader.py", '''        head_events, *game_chunks = list(list(g) for _, g in StageGroupby(events, True, False, key=is_game_init))
''', '''        starts = [i for i, event in enumerate(events) if is_game_init(event)]
        head_events = events[:starts[0]] if starts else events
        game_chunks = [events[a:b] for a, b in zip(starts, starts[1:] + [len(events)])]
'''),
("mahjong/record/reader.py", "from .stage import StageGroupby\n", ""),
("mahjong/record/reader.py", '''        first_end_index = next(i for (i, x) in enumerate(playing) if is_game_end(x))
        end = [x for x in playing[first_end_index:] if is_game_end(x)]
        self.end_events = end
''', '''        self.end_events = [x for x in playing if is_game_end(x)]
        if not self.end_events:
            raise ValueError("a hand without an end")
'''),
("mahjong/record/reader.py", '''        player_scores = list(zip(self.players, self.end_score, self.end_point))
        player_scores.sort(key=lambda item: item[1], reverse=True)
        return "%s %s" % (
            self.game_type,
            ",".join(
                "%d位:%s(%.1f)" % (
                    i + 1, player.name, end_point
                )
                for i, (player, end_score, end_point) in enumerate(player_scores)
            )
        )
''', '''        player_scores = sorted(zip(self.players, self.end_score, self.end_point), key=lambda item: -item[1])
        standings = []
        for rank, (player, _, end_point) in enumerate(player_scores, 1):
            standings.append("{}位:{}({:.1f})".format(rank, player.name, end_point))
        return "{} {}".format(self.game_type, ",".join(standings))
''')]
