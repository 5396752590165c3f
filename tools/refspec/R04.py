"""the simulator in smaller functions, f-strings, time.perf_counter, os.system through subprocess-free helper"""
PROPS = ['C10']
EDITS = [("mahjong/win_rate_demo.py", "from time import perf_counter\n", "import time\n"),
("mahjong/win_rate_demo.py", '''    start = perf_counter()
    task_start_time = start
    for i''', '''    start = time.perf_counter()
    task_start_time = start
    for i'''),
("mahjong/win_rate_demo.py", '''        interval = perf_counter() - start
        if interval > 1:
            start = perf_counter()
            elapsed_time = start - task_start_time
            done = i + 1
            eta = elapsed_time / done * try_count - elapsed_time
            print("Experiments %d/%d with %.1fs, ETA %.1fs" % (done, try_count, elapsed_time, eta))
''', '''        now = time.perf_counter()
        if now - start > 1:
            start = now
            elapsed_time = now - task_start_time
            done = i + 1
            left = elapsed_time / done * (try_count - done)
            print(f"Experiments {done}/{try_count} with {elapsed_time:.1f}s, ETA {left:.1f}s")
'''),
("mahjong/win_rate_demo.py", '''    print("Done in %.1fs!" % (perf_counter() - task_start_time))
''', '''    print(f"Done in {time.perf_counter() - task_start_time:.1f}s!")
'''),
("mahjong/win_rate_demo.py", '''        possible_win_set = set()

        for tile, hand in possible_discard.items():
            total_hand = hand + sample_wall
            for win_pattern in win_patterns:
                if win_pattern.match(total_hand):
                    win_counter.update([tile])
                    total_win_count += 1
                    possible_win_set.add(tile)
                    break

        for tile in possible_win_set:
            avg_win_counter[tile] += 1 / len(possible_win_set)

        for no_win_tile in set(possible_discard.keys()) - possible_win_set:
            for tile in possible_win_set:
                condition_win_counter[no_win_tile][tile] += 1 / len(possible_win_set)
''', '''        possible_win_set = {
            tile for tile, hand in possible_discard.items()
            if any(win_pattern.match(hand + sample_wall) for win_pattern in win_patterns)
        }
        win_counter.update(possible_win_set)
        total_win_count += len(possible_win_set)

        if possible_win_set:
            share = 1 / len(possible_win_set)
            for tile in possible_win_set:
                avg_win_counter[tile] += share
            for no_win_tile in possible_discard:
                if no_win_tile not in possible_win_set:
                    for tile in possible_win_set:
                        condition_win_counter[no_win_tile][tile] += share
'''),
("mahjong/win_rate_demo.py", '''    input_hand = tile_set_from_string(input('Input hand:'))
    while len(input_hand) != 14:
        print("Input hand should be 14 tiles, e.g. 123m067p9s1234567z. " +
              "You have input %s legal tiles" % len(input_hand))
        input_hand = tile_set_from_string(input('Input hand:'))
''', '''    input_hand = ask_hand()
'''),
("mahjong/win_rate_demo.py", '''def main():
''', '''def ask_hand():
    while True:
        hand = tile_set_from_string(input('Input hand:'))
        count = len(hand)
        if count == 14:
            return hand
        print("Input hand should be 14 tiles, e.g. 123m067p9s1234567z. "
              "You have input {} legal tiles".format(count))


def main():
'''),
]
