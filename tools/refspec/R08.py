"""state trackers through helpers and frozen sets"""
PROPS = ['C01', 'C08', 'C17']
EDITS = [("mahjong/record/state.py", '''        if is_game_init(event):
            return PlayerHand(self._player, set(number_list(event.attrib['hai%d' % self._player.index])))
        elif self._player.is_draw(event):
            return PlayerHand(self._player, self.hand | {self._player.draw_tile_index(event)})
        elif self._player.is_discard(event):
            return PlayerHand(self._player, self.hand - {self._player.discard_tile_index(event)})
        elif self._player.is_open_hand(event):
            meld = meld_from(event)
            return PlayerHand(self._player, self.hand - meld.self_tiles)
        return self
''', '''        player = self._player
        if is_game_init(event):
            return self._holding(number_list(event.attrib['hai{}'.format(player.index)]))
        if player.is_draw(event):
            return self._holding(self.hand.union([player.draw_tile_index(event)]))
        if player.is_discard(event):
            return self._holding(self.hand.difference([player.discard_tile_index(event)]))
        if player.is_open_hand(event):
            return self._holding(self.hand.difference(meld_from(event).self_tiles))
        return self

    def _holding(self, tiles):
        return PlayerHand(self._player, frozenset(tiles))
'''),
("mahjong/record/state.py", '''                invisible_tiles = set(chain(color_1m_9m, others))
''', '''                invisible_tiles = {*color_1m_9m, *others}
'''),
("mahjong/record/state.py", '''        discard_val = discard_value(event)
        if discard_val is not None:
            return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
        elif is_open_hand(event):
            return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
        elif is_dora_indicator_event(event):
            return InvisibleTiles(self._player_num, self._invisible_tiles - set(DoraIndicators().scan(event).value))
        return self
''', '''        shown = self._shown_by(event)
        return InvisibleTiles(self._player_num, self._invisible_tiles - shown) if shown else self

    @staticmethod
    def _shown_by(event):
        discard_val = discard_value(event)
        if discard_val is not None:
            return {discard_val}
        if is_open_hand(event):
            return set(meld_from(event).self_tiles)
        if is_dora_indicator_event(event):
            return {int(event.attrib["hai"])}
        return set()
'''),
("mahjong/record/state.py", '''        return reduce(lambda x, y: y, self.with_key_events(events), self)
''', '''        last = self
        for last in self.with_key_events(events):
            pass
        return last
'''),
("mahjong/record/state.py", '''                return PlayerMeld(self._player,
                                  [(KanFromTriplet(item, meld)
                                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld)
                                    else item)
                                   for item in self._meld_list]
                                  )
''', '''                melds = list(self._meld_list)
                for i, item in enumerate(melds):
                    if isinstance(item, Triplet) and is_triplet_of_added_kan(item, meld):
                        melds[i] = KanFromTriplet(item, meld)
                return PlayerMeld(self._player, melds)
''')]
