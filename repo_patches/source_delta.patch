From 753554985413591812cc9bec13ea8a576905585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 01/22] fix: a discarded tile 0 is no longer invisible

---
 mahjong/record/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 7a6a7f2..94f5641 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -188,7 +188,7 @@ class InvisibleTiles(GameState):
             return brand
 
         discard_val = discard_value(event)
-        if discard_val:
+        if discard_val is not None:
             return InvisibleTiles(self._player_num, self._invisible_tiles - {discard_val})
         elif is_open_hand(event):
             return InvisibleTiles(self._player_num, self._invisible_tiles - set(meld_from(event).self_tiles))
-- 
2.43.0


From 1e540e3cf1ad8d4c101b21b0c5d037b327353de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 02/22] fix: the invisible 1m and 9m of three players are tile
 numbers

---
 mahjong/record/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/state.py b/mahjong/record/state.py
index 94f5641..dd410f9 100644
--- a/mahjong/record/state.py
+++ b/mahjong/record/state.py
@@ -174,7 +174,8 @@ class InvisibleTiles(GameState):
             if player_num == 4:
                 invisible_tiles = set(range(tile_total))
             elif player_num == 3:
-                color_1m_9m = ((0, num, i) for num, i in product([1 - 1, 9 - 1], range(4)))
+                color_1m_9m = (TENHOU_TILE_CATEGORY.index((0, num, i))
+                               for num, i in product([1 - 1, 9 - 1], range(4)))
                 others = range(TENHOU_TILE_CATEGORY.index((1, 0, 0)), tile_total)
                 invisible_tiles = set(chain(color_1m_9m, others))
         self._invisible_tiles = invisible_tiles
-- 
2.43.0


From 11b7d038c79ade5c218ec3536010fc5af5ce532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 03/22] fix: faan counts of a winner are not yaku

---
 mahjong/record/universe/tenhou/event_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mahjong/record/universe/tenhou/event_definition.py b/mahjong/record/universe/tenhou/event_definition.py
index 8762e8e..29034e0 100644
--- a/mahjong/record/universe/tenhou/event_definition.py
+++ b/mahjong/record/universe/tenhou/event_definition.py
@@ -255,7 +255,9 @@ def agari_command(event: TenhouEvent, ctx):
     with cmd.when(update=Update.REPLACE):
         yield cmd(prop=GameView.nobody_win, value=False)
     attr = event.attrib
-    yaku = list(map(lambda t: SCORE_PATTERN[t], number_list(attr.get("yaku", attr.get("yakuman")))))
+    # "yaku" lists pairs of yaku and its faans, "yakuman" lists yaku only.
+    yaku_ids = number_list(attr["yaku"])[::2] if "yaku" in attr else number_list(attr["yakuman"])
+    yaku = [SCORE_PATTERN[t] for t in yaku_ids]
     yield from game_finish(cmd, ctx, from_player_id, player_id, sc_list, yaku, event)
 
 
-- 
2.43.0


From f121e89f9e2243355c62db10bc34e1e2967f585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 04/22] fix: simultaneous translations no longer share their
 state

---
 mahjong/record/universe/tenhou/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/tenhou/__init__.py b/mahjong/record/universe/tenhou/__init__.py
index 027a402..3270e64 100644
--- a/mahjong/record/universe/tenhou/__init__.py
+++ b/mahjong/record/universe/tenhou/__init__.py
@@ -1,11 +1,16 @@
+from copy import copy
+
 import mahjong.record.universe.tenhou.event_definition as _event_def
+from mahjong.record.universe.interpreter import GameInterpreter
 from mahjong.record.universe.tenhou.xml_macher import tenhou_command
 
 
 def to_command_iter(record, strict):
-    tenhou_command.clear()
+    translator = copy(tenhou_command)
+    # translations run side by side, each needs its own state.
+    translator.interpreter = GameInterpreter()
     for event in record.events:
-        yield from tenhou_command(event, strict)
+        yield from translator(event, strict)
 
 
 def to_command_records(record, raw=False, strict=False):
-- 
2.43.0


From b945c917c0bbdee4d2f4234d7296e6d659ec0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 05/22] fix: merge the reasonings of the same discard, not of
 the same position

---
 mahjong/tenhou_record_check.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 31cbca9..4e1c71e 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -3,6 +3,7 @@ import operator as op
 import base64
 import os
 import sys
+from collections import defaultdict
 
 import pkg_resources
 
@@ -232,8 +233,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
         win_types.append(UniquePairs())
     win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
     merged_win_reasonings = [
-        reasoning_merge(list(reasoning_same_discard), invisible_player_perspective)
-        for reasoning_same_discard in zip(*win_reasonings)
+        reasoning_merge(reasoning_same_discard, invisible_player_perspective)
+        for reasoning_same_discard in group_by_discard(win_reasonings)
     ]
     merged_win_reasonings.sort(key=reasoning_key)
     _, expected_reasonings = next(groupby(merged_win_reasonings, key=reasoning_key))
@@ -289,6 +290,14 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     return round_reasoning
 
 
+def group_by_discard(win_reasonings):
+    same_discards = defaultdict(list)
+    for win_reasoning in win_reasonings:
+        for item in win_reasoning:
+            same_discards[item.discard_tile].append(item)
+    return same_discards.values()
+
+
 def all_win_type_reasoning(hand, invisible_player_perspective, win_types):
     for win in win_types:
         yield list(one_win_reasoning(hand, invisible_player_perspective, win))
-- 
2.43.0


From 2ca8184e3fd27ff643f3b1d3bdd2b1d58e976391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 06/22] fix: a complete hand can be discarded from

---
 mahjong/container/pattern/reasoning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index faafa6d..0d17930 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -166,6 +166,11 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def batch_waiting_and_useful_tiles(self, hand, ignore_4counts=True):
         waiting_step = self.before_waiting_step(hand)
+        if waiting_step < 0:
+            # a complete hand has no spare tile, every discard breaks it.
+            for tile in list(hand):
+                yield (tile, *self.waiting_and_useful_tiles(hand - TileSet([tile]), ignore_4counts))
+            return
         result_iter = self.count_hand_borrow_combinition_iter(hand, ignore_4counts, waiting_step)
         all_hand_cnt = defaultdict(set)
         for _, sub_win, borrows in result_iter:
-- 
2.43.0


From c947078e3d65226d7c8196ca34f21be9ad74d931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 07/22] fix: the best choice may have no useful tile left

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 4e1c71e..af8cbaf 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -258,7 +258,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     base = expect_counts * shanten_sequence_count
     # print("base=", base, "expect_counts=", expect_counts, "your_counts=", your_counts)
 
-    correct_rate = your_counts / base
+    # no useful tile may be left, even for the best choice.
+    correct_rate = your_counts / base if base > 0 else float(your_shanten == expect_shanten)
     wrong_rate = 1 - correct_rate
     # print("correct=", correct_rate, "wrong=", wrong_rate)
 
-- 
2.43.0


From 789e292bb0bc98aa2d3024b447a29882c18ec9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 08/22] fix: tenhou indices of a red five

---
 mahjong/record/utils/value/tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/value/tile.py b/mahjong/record/utils/value/tile.py
index d4107c3..07838f8 100644
--- a/mahjong/record/utils/value/tile.py
+++ b/mahjong/record/utils/value/tile.py
@@ -20,6 +20,6 @@ def tile_from_tenhou(index):
 
 def tile_to_tenhou_range(tile: Tile):
     color = SUIT_ORDER.index(tile.color)
-    number = tile.number - 1
+    number = (tile.number or 5) - 1  # aka dora is numbered 0
     start_tile, end_tile = (TENHOU_TILE_CATEGORY.index(t) for t in [(color, number, 0), (color, number, 3)])
     return range(start_tile, end_tile + 1)
-- 
2.43.0


From 187bfae50944fe27b1e8a7ee88eb44370471f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 09/22] fix: a player number consists of decimal digits

---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index af8cbaf..aa0fdae 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -165,7 +165,7 @@ def main():
         n=len(record.players)
     ))
     planned_players = record.players.copy()
-    if input_id.isdigit():
+    if input_id.isdecimal():
         input_id = int(input_id)
         if input_id in range(1, len(record.players) + 1):
             player = record.players[input_id - 1]
-- 
2.43.0


From 4833570b36271bc3a091dcf521ce2f49e6e863fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 10/22] fix: report file names of players whose name is no
 legal file name

---
 mahjong/tenhou_record_check.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index aa0fdae..3cbc6e2 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -2,6 +2,7 @@
 import operator as op
 import base64
 import os
+import re
 import sys
 from collections import defaultdict
 
@@ -194,7 +195,9 @@ def render_template(player, record, template, log_url=None, log_id=None, generat
     render_str = template.render(player=str(player), record=str(record), log_url=log_url, games=games,
                                  all_tiles=all_tiles)
     if generate_filename:
-        return "tenhou_record_%s_%s_%d.html" % (log_id, player.name, player.index), render_str
+        # names may contain characters which are illegal or separators in file names.
+        name = re.sub(r'[\\/:*?"<>|\x00-\x1f]', "_", player.name)
+        return "tenhou_record_%s_%s_%d.html" % (log_id, name, player.index), render_str
     else:
         return render_str
 
-- 
2.43.0


From 4d165d86fd29caa924ac427a01f08cfaa98ab176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 11/22] fix: searches of one analyser no longer share their
 bound

---
 mahjong/container/pattern/reasoning.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index 0d17930..c690619 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -2,6 +2,7 @@ import logging
 import operator
 from abc import ABCMeta, abstractmethod
 from collections import defaultdict
+from copy import copy
 from functools import reduce
 from itertools import count, product, chain, groupby
 from typing import List
@@ -129,11 +130,12 @@ class HeuristicPatternMatchWaiting(Waiting):
         self.borrowed_count = None
 
     def before_waiting_step(self, hand: TileSet, ignore_4counts=True):
-        self.max_used_tiles = sum(hand.values())
+        search = copy(self)  # the bound belongs to one search only
+        search.max_used_tiles = sum(hand.values())
 
         borrows = self.init_search_by_hand(hand)
 
-        result_iter = self._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
+        result_iter = search._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
                                                     borrows, 0, 1)
         return min(v for v, _, _ in result_iter) - 1
 
@@ -183,9 +185,10 @@ class HeuristicPatternMatchWaiting(Waiting):
 
     def count_hand_borrow_combinition_iter(self, hand, ignore_4counts, self_waiting):
         borrows = self.init_search_by_hand(hand)
-        self.max_used_tiles = self_waiting + 1
+        search = copy(self)  # the bound belongs to one search only
+        search.max_used_tiles = self_waiting + 1
         logging.debug("finding useful tiles")
-        result_iter = self._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
+        result_iter = search._win_selections_in_tiles(hand, ignore_4counts, self.win_pattern, borrowed_limit(hand),
                                                     borrows, 0, 0)
         return result_iter
 
-- 
2.43.0


From 134843ae201148808b8626e96eed97521a831f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 12/22] fix: displaying and matching a hand leaves its order
 alone

---
 mahjong/container/pattern/reasoning.py | 1 -
 mahjong/container/pattern/win.py       | 1 +
 mahjong/container/set.py               | 3 +--
 mahjong/tenhou_record_check.py         | 1 +
 4 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mahjong/container/pattern/reasoning.py b/mahjong/container/pattern/reasoning.py
index c690619..48d2ef4 100644
--- a/mahjong/container/pattern/reasoning.py
+++ b/mahjong/container/pattern/reasoning.py
@@ -49,7 +49,6 @@ class BruteForceWaiting(Waiting):
 
 def borrowed_limit(hand):
     borrow_limit = hand.copy()
-    hand.re_sort()
     for tile in TileDistribution.ALL_TILES:
         borrow_limit[tile] -= 4
     return borrow_limit
diff --git a/mahjong/container/pattern/win.py b/mahjong/container/pattern/win.py
index 2dd0bda..9aaabfd 100644
--- a/mahjong/container/pattern/win.py
+++ b/mahjong/container/pattern/win.py
@@ -16,6 +16,7 @@ class WinPattern(metaclass=ABCMeta):
         return False
 
     def win_selections(self, hand: TileSet) -> Iterator[List[TileSet]]:
+        hand = hand.copy()
         hand.re_sort()
         return self._win_selections(hand)
 
diff --git a/mahjong/container/set.py b/mahjong/container/set.py
index 400e4f2..0c17f66 100644
--- a/mahjong/container/set.py
+++ b/mahjong/container/set.py
@@ -25,7 +25,7 @@ class TileSet(Counter):
         return True
 
     def _gen_str_iter(self) -> Iterator[str]:
-        for key, group in groupby(self.items(), key=lambda tup: tup[0].color):
+        for key, group in groupby(sorted(self.items()), key=lambda tup: tup[0].color):
             for tile, num in group:
                 yield str(tile.number) * num
             yield key
@@ -41,7 +41,6 @@ class TileSet(Counter):
             return None
 
     def __str__(self):
-        self.re_sort()
         return ''.join(self._gen_str_iter())
 
     def __repr__(self):
diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 3cbc6e2..af02c26 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -229,6 +229,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     invisible_player_perspective = invisible_tiles_state.value - set(hand_state.value)
     meld_count = sum(1 for meld in player_meld_state.value if not isinstance(meld, Kita))
     hand = TileSet(tile_from_tenhou(index) for index in hand_state.value)
+    hand.re_sort()
     logger.info("reasoning {}", hand)
     win_types = [NormalTypeWin(melds=4 - meld_count)]
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
-- 
2.43.0


From b82488f840dee8209e9772c3d8cfc36f508a532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 13/22] fix: a tile is shared only when it is complete

---
 mahjong/tile/definition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mahjong/tile/definition.py b/mahjong/tile/definition.py
index 59b087d..f9afa69 100644
--- a/mahjong/tile/definition.py
+++ b/mahjong/tile/definition.py
@@ -40,13 +40,13 @@ class Tile:
             self._number = number
             self._color = color
             self._tuple_view = (color, number)
-            Tile._TILE_POOL[tile_hash] = tile_obj
             self._flush = TileSet(
-                (Tile(self._number + i, self._color) for i in range(Tile.FLUSH_LENGTH))
+                [self] + [Tile(self._number + i, self._color) for i in range(1, Tile.FLUSH_LENGTH)]
             ) if self.is_suit() and self._number <= Tile.SUIT_MAX - Tile.FLUSH_LENGTH + 1 else None
             self._triplet = self.repeat(Tile.TRIPLET_LENGTH)
             self._pair = self.repeat(Tile.PAIR_LENGTH)
-            return tile_obj
+            # nobody may get a tile before it is complete.
+            return Tile._TILE_POOL.setdefault(tile_hash, tile_obj)
 
     def __hash__(self):
         return self._hash
@@ -87,7 +87,7 @@ class Tile:
 
     def repeat(self, count: int) -> TileSet:
         return TileSet(
-            (Tile(self._number, self._color) for _ in range(count))
+            (self for _ in range(count))
         )
 
     def triplet(self) -> TileSet:
-- 
2.43.0


From de508f10b8d9d4eaa7c9a87a75ae5c59d0467716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 14/22] fix: a state can not be cleared in place

---
 mahjong/record/universe/executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index ca67f28..af48938 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -175,9 +175,9 @@ class TransferDict:
         return repr(self.nested_dict)
 
     def _readonly(self, *args, **kwards):
-        raise NotImplemented
+        raise TypeError("states are readonly, use set or drop to get a modified one")
 
-    __setitem__ = __delattr__ = pop = update = popitem = _readonly
+    __setitem__ = __delitem__ = __delattr__ = pop = update = popitem = clear = _readonly
 
     def set(self, key, value):
         modified_dict = {
-- 
2.43.0


From 535d65c1ce7a08674c6408172cd0c2fdc92f8dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 15/22] fix: win rates when nothing wins or pick rates come as
 complex numbers

---
 mahjong/win_rate_demo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mahjong/win_rate_demo.py b/mahjong/win_rate_demo.py
index 1f99249..42f267a 100644
--- a/mahjong/win_rate_demo.py
+++ b/mahjong/win_rate_demo.py
@@ -67,7 +67,8 @@ def main():
     min_rate = 1 / try_count
     condition_matrix = np.full((solution_count, solution_count), min_rate, dtype=np.double)
     for condition_index, condition_tile in enumerate(solution_tiles):
-        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count
+        self_transfer_rate = avg_win_counter[condition_tile] / total_win_count if total_win_count > 0 \
+            else 1 / solution_count
         # self_transfer_rate = 0
         for transfer_index, transfer_tile in enumerate(solution_tiles):
             transfer_count = condition_win_counter[condition_tile][transfer_tile]
@@ -86,7 +87,7 @@ def main():
     nearest_one_index = abs(eigenvalues - 1).argmin()
     infinite_pick = eigenvectors[:, nearest_one_index]
     infinite_pick = np.array(infinite_pick).reshape(-1)
-    infinite_pick /= sum(infinite_pick)
+    infinite_pick = np.real(infinite_pick / sum(infinite_pick))  # other eigenvalues may be complex
     pick_rank_map = {tile: (rough, infinite) for tile, rough, infinite in
                      zip(solution_tiles, rough_pick, infinite_pick)}
     # results = sorted(win_counter.items(), key=lambda tup: tup[1], reverse=True)
-- 
2.43.0


From c29547c3c5de37628da172c41925137d2b80b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 16/22] fix: defaulting an existing key returns the whole
 state, too

---
 mahjong/record/universe/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index af48938..fa50af9 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -211,7 +211,7 @@ class TransferDict:
         if key not in self:
             return self.set(key, default)
         else:
-            return self
+            return self.set(key, self[key])
 
     def transfer_value(self, k, v):
         if isinstance(v, dict):
-- 
2.43.0


From f6d51da952d813c4c5fd04a5c1e2a5b2e9b43d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 17/22] fix: exported names and missing values survive
 reloading

---
 mahjong/record/universe/command.py  |  8 +++++++-
 mahjong/record/universe/executor.py | 10 +++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mahjong/record/universe/command.py b/mahjong/record/universe/command.py
index 4b0c2eb..4e1462e 100644
--- a/mahjong/record/universe/command.py
+++ b/mahjong/record/universe/command.py
@@ -88,7 +88,13 @@ class GameCommand:
 
     @staticmethod
     def read_clean_csv(csv_path):
-        return GameCommand.clean(pandas.read_csv(csv_path))
+        # the text of values and states is kept as it is: a name may look like a number or a missing value.
+        return GameCommand.clean(pandas.read_csv(
+            csv_path,
+            dtype={"value": str, "state": str},
+            keep_default_na=False,
+            na_values={"timestamp": [""], "event": [""]},
+        ))
 
     @staticmethod
     def pandas_columns_clean(row_origin):
diff --git a/mahjong/record/universe/executor.py b/mahjong/record/universe/executor.py
index fa50af9..f4f25cc 100644
--- a/mahjong/record/universe/executor.py
+++ b/mahjong/record/universe/executor.py
@@ -61,17 +61,21 @@ def state_series_apply(x):
     col_last = x.name[-1]
     if hasattr(col_last, "type"):
         def from_str_view(t):
-            return prop_manager.from_str(t, prop=col_last)
+            return prop_manager.from_str(t, prop=col_last) if t != "" else None
 
         return x.apply(from_str_view)
-    return x
+    try:
+        return pd.to_numeric(x)
+    except ValueError:
+        return x
 
 
 
 class GameExecutor:
     @staticmethod
     def read_clean_csv(csv_path):
-        df_states = pd.read_csv(csv_path, header=[0, 1, 2], skipinitialspace=True)
+        # the text is kept as it is: a name may look like a number or a missing value.
+        df_states = pd.read_csv(csv_path, header=[0, 1, 2], dtype=str, keep_default_na=False)
         df_states = df_states.rename(columns=replace_enum_values)
         df_states = df_states.apply(state_series_apply, axis="rows")
         return df_states
-- 
2.43.0


From 185870891bb28215c0c487afa2ed363a3174fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 18/22] fix: the report shows each red five once

---
 mahjong/tenhou_record_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index af02c26..77a3c6d 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -273,7 +273,8 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     for item in merged_win_reasonings:
         item.norm()
 
-    hand_str = join_tiles(to_plain_tile(x) for x in hand.tiles())
+    # a tile set takes a red five and a plain one for the same tile.
+    hand_str = join_tiles(to_plain_tile(tile_from_tenhou(x)) for x in sorted(hand_state.value))
     meld_strs = [
         join_tiles(to_plain_tile(tile_from_tenhou(x))
                    for x in list(meld.self_tiles) + list(meld.borrowed_tiles))
-- 
2.43.0


From 2a7d0ff9cc0bc150a2110f6d4a38021f84a5644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 19/22] fix: a group left behind takes nothing from a later
 group

---
 mahjong/record/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mahjong/record/stage.py b/mahjong/record/stage.py
index 383e69f..fe9db9b 100644
--- a/mahjong/record/stage.py
+++ b/mahjong/record/stage.py
@@ -53,6 +53,9 @@ class StageGroupby:
     def _grouper(self, tgtkey: List[K], id):
         while self.id is id and self._stage_accepted(tgtkey):
             yield self.currvalue
+            if self.id is not id:
+                # left behind: the next element belongs to a later group.
+                return
             try:
                 self.currvalue = next(self.it)
             except StopIteration:
-- 
2.43.0


From f6ba05e900787a94f222e6d57f251a7c59d6159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 20/22] fix: a tag that only begins like a draw or discard is
 neither

---
 mahjong/record/utils/constant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mahjong/record/utils/constant.py b/mahjong/record/utils/constant.py
index 8c9de84..3d2480a 100644
--- a/mahjong/record/utils/constant.py
+++ b/mahjong/record/utils/constant.py
@@ -111,7 +111,7 @@ SCORE_PATTERN = [
     "裏ドラ",
     "赤ドラ",
 ]
-DRAW_REGEX = [re.compile(r"^%s([0-9]+)" % draw) for draw in DRAW_INDICATOR]
-DISCARD_REGEX = [re.compile(r"^%s([0-9]+)" % draw) for draw in DISCARD_INDICATOR]
+DRAW_REGEX = [re.compile(r"^%s([0-9]+)$" % draw) for draw in DRAW_INDICATOR]
+DISCARD_REGEX = [re.compile(r"^%s([0-9]+)$" % draw) for draw in DISCARD_INDICATOR]
 API_URL_TEMPLATE = 'http://e.mjv.jp/0/log/?{0}'
 TENHOU_TILE_CATEGORY = MixedCategory([SubCategory(9, 4)] * 3 + [SubCategory(7, 4)])
-- 
2.43.0


From 4e9c3e07d327a9eac9d33769a98fe3e68029f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 21/22] fix: an event of the log can be displayed

TenhouEvent.__repr__ applied % to self alone, which has one value for two
places, so that every repr() of an event raised TypeError.
---
 mahjong/record/utils/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/record/utils/event.py b/mahjong/record/utils/event.py
index 1712e41..5d7c0b1 100644
--- a/mahjong/record/utils/event.py
+++ b/mahjong/record/utils/event.py
@@ -100,7 +100,7 @@ class TenhouEvent:
         return getattr(self._wrapped_xml_event, name)
 
     def __repr__(self):
-        return "[%s]:%s" % self, self._wrapped_xml_event
+        return "[%s]:%s" % (self, self._wrapped_xml_event)
 
     @property
     def meta_attribute(self):
-- 
2.43.0


From 69c4a99c27bee27809edfba9616d0ee1748b9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 22/22] fix: the reasonings by kind of hand are shown

They came from a generator that merging had used up before, so that their
sections of the report were always empty.
---
 mahjong/tenhou_record_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mahjong/tenhou_record_check.py b/mahjong/tenhou_record_check.py
index 77a3c6d..4784e4a 100644
--- a/mahjong/tenhou_record_check.py
+++ b/mahjong/tenhou_record_check.py
@@ -235,7 +235,7 @@ def discard_reasoning(discard_event, hand_state, invisible_tiles_state, player,
     reasoning_names = ["normal_reasonings", "seven_pair_reasonings"]
     if meld_count == 0:
         win_types.append(UniquePairs())
-    win_reasonings = all_win_type_reasoning(hand, invisible_player_perspective, win_types)
+    win_reasonings = list(all_win_type_reasoning(hand, invisible_player_perspective, win_types))
     merged_win_reasonings = [
         reasoning_merge(reasoning_same_discard, invisible_player_perspective)
         for reasoning_same_discard in group_by_discard(win_reasonings)
-- 
2.43.0

