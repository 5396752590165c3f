#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

U = "mahjong/record/universe/"
prop("C01", "Game-state trackers equal the real table after every event",
 "For every legal Tenhou game history (three or four players; chi, pon, all kinds of kan, kita, riichi, red fives, several winners, abortive draws, disconnects and reconnects, events of a kind unknown to the tools), after every log event the tracked concealed hand, melds (tiles, called tile, source seat; an added kan replaces its pon), discards, dora indicators and set of not yet revealed tiles equal those of the real table. "
 "This is so whether events are fed one at a time, in batches of any size or resumed from any earlier tracker value, for each player separately or in a collection, and tracker values already handed out never change.",
 ["histories", "schedules", "inputs"], "all legal multi-player game histories, all ways of batching the events and of resuming from an earlier tracker value",
 "No test runs the trackers at all; six fixed logs exist. A tracker is a fold over an unbounded history produced by several parties, with rare transitions (added kan, kita, tile 0, three-player tile set).",
 ["mahjong/record/state.py", "mahjong/record/player.py", "mahjong/record/utils/value/meld.py", "mahjong/record/utils/event.py", "mahjong/record/reader.py"],
 [("GameState.scan / passed_events / with_events", "mahjong/record/state.py"), ("meld decoding", "mahjong/record/utils/value/meld.py")],
 [("PlayerHand/PlayerMeld/DiscardTiles/DoraIndicators/InvisibleTiles values", "what a player holds, has called, has thrown; what is still unseen", "mahjong/record/state.py")],
 ["tracker.value after each event"])
prop("C02", "Universal replay reproduces the table after every event",
 "Translating a legal log into universal commands and executing them gives, after each log event, exactly the table: rules, wind, round, honba, deposits at round start, dora, dealer, and per player name, rank, rating, connection, hand, discards with from-hand flags, turn count, melds, exposed and bonus tiles, riichi flag and score, and after a round or record end the outcome, yaku, final score, points and rank. "
 "Every command carries the index of its log event, its event kind and the resulting value of its property, and that value equals the executor's. Strict translation and strict execution accept every legal log.",
 ["histories", "inputs", "configurations"], "all legal game histories over all rule sets (player count, winds, red fives, tips, speed)",
 "Tests only check that six fixed logs translate without error and in strict mode; the resulting states are never compared with a table, and most event combinations do not occur in those logs.",
 [U+"tenhou/event_definition.py", U+"tenhou/xml_macher.py", U+"translator.py", U+"interpreter.py", U+"executor.py", U+"property_manager.py", U+"format.py", "mahjong/record/utils/builder.py"],
 [("event to command rules", U+"tenhou/event_definition.py"), ("command execution", U+"executor.py")],
 [("executor state tree", "scope -> seat -> property -> value", U+"executor.py"), ("translator context", "running interpreter state used by the rules", U+"translator.py")],
 ["to_commands", "to_command_records", "GameExecutor.execute"])
prop("C03", "Strict replay rejects exactly the logs that contradict themselves",
 "When log events are lost, duplicated, reordered or altered, strict execution fails at the first event whose asserted fact (player name, score, winner's hand) or removed tile disagrees with the state replayed so far, and a log without such a disagreement is accepted. "
 "Non-strict execution adopts an asserted fact that disagrees and continues from it. An event of unknown kind makes strict translation fail, and otherwise contributes no command and leaves the translation of all other events unchanged.",
 ["fault_sequences", "histories"], "all sequences of lost, duplicated, swapped, altered and unknown events applied to legal histories",
 "Tests replay only intact logs; no test contains a contradiction, so the rejecting half is never executed.",
 [U+"executor.py", U+"translator.py", U+"tenhou/event_definition.py", U+"property_manager.py"],
 [("assert-or-set commands in strict and lenient mode", U+"executor.py"), ("unmatched events", U+"translator.py")],
 observe=["GameExecutor(strict_mode=...).execute", "to_commands(record, strict=...)"])
prop("C04", "Translations never influence each other",
 "The commands produced for a log depend on that log only. Any number of translations, consumed lazily in any interleaving, run from several threads, abandoned, cancelled or failed midway at any point, repeated or run in any order, each yield the same commands as when run alone in a fresh process.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of lazily consumed translations and threads, all points of abandonment, cancellation or failure",
 "Tests translate one complete log at a time; the translator is one module-level object whose state every translation shares.",
 [U+"tenhou/__init__.py", U+"tenhou/xml_macher.py", U+"translator.py", U+"interpreter.py", "mahjong/record/utils/builder.py"],
 [("module-level translator and its clear()", U+"tenhou/__init__.py"), ("command builder context stack", "mahjong/record/utils/builder.py")],
 [("tenhou_command.interpreter.state", "context of the running translation", U+"translator.py")],
 ["to_command_iter / to_command_records / to_commands"])
prop("C05", "Replayed states are immutable snapshots",
 "Every state produced while replaying commands keeps its contents forever: later commands, other replays started from the same executor or the same commands in any interleaving, and edits branching off any earlier state never change it. "
 "Setting, dropping or defaulting a key in any (nested) part of a state returns the whole new state, which differs from the old one at that key only; attempts to modify a state in place fail.",
 ["schedules", "histories"], "all interleavings of replays and all trees of edits branching from any produced state",
 "Three fixed edit sequences are tested; sharing between versions shows only after particular sequences of edits and interleaved replays.",
 [U+"executor.py", U+"interpreter.py", U+"property_manager.py"],
 [("persistent nested dictionary", U+"executor.py")],
 [("TransferDict.nested_dict / parent links", "one version of the table state", U+"executor.py")],
 ["GameExecutor.execute", "TransferDict.set/drop/setdefault/flatten"])
prop("C06", "Exported tables reload to the same commands and states",
 "Writing translated commands or replayed states as CSV and reloading them with the library's readers gives back the same commands (timestamp, event, scope, seat, property, update, value, state) and the same state after every command, for every legal log and every player name. "
 "A storage error while writing or reading surfaces as an exception and never as a shorter or altered table.",
 ["inputs", "fault_sequences", "crash_points"], "all legal logs with arbitrary player names, all storage faults (short transfers, errors, full disk) at any point of writing or reading",
 "Tests reload six logs whose names are all Japanese, never compare reloaded states, and use a disk that never fails.",
 [U+"command.py", U+"property_manager.py", U+"executor.py", "mahjong/record/util_functions.py"],
 [("to_record/from_record and per-type text codecs", U+"command.py"), ("CSV readers", U+"executor.py")],
 observe=["GameCommand.to_dataframe + read_clean_csv", "GameExecutor.execute_as_dataframe + read_clean_csv"])
prop("C07", "A fetch returns the whole record or fails, within its timeout",
 "Loading a record by its URL returns exactly the log the server holds for the id in that URL (every event, attribute, and their order) or raises, whatever the network does: refusal, reset, truncation, stall, fragmentation, compression, redirects, error pages. "
 "The caller's timeout bounds every wait for the server. After the network recovers the next call succeeds.",
 ["fault_sequences", "schedules", "inputs"], "all fault and delay sequences of the connection, all record contents, URL spellings and timeouts",
 "The two tests that fetch need the real site and are not run; no test sees a failing network.",
 ["mahjong/record/reader.py", "mahjong/record/checker.py", "mahjong/record/utils/constant.py"],
 [("fetch and parse", "mahjong/record/reader.py")],
 observe=["from_url", "TenhouChecker.parse(url)", "download_url / log_id_from_url"])
prop("C08", "The efficiency report judges every discard of the player correctly",
 "For every discard of the selected player, in order and per round of play, the report shows the hand and melds held at that moment, the tile thrown, and as expected choices exactly the discards that minimise the steps to a complete hand (melds and a pair, or seven pairs while nothing is melded) and among those maximise the number of useful tiles the player cannot see; steps and tile counts shown for the expected and the actual choice are exact. The reasonings listed overall for the best discards and those listed per kind of hand (discard, steps, number of useful tiles, useful tiles) are exact too. "
 "Shading is zero exactly for a best choice, equals the lost fraction of useful tiles when the steps are equal, never exceeds one, and takes the after-riichi colour exactly when anyone declared riichi before that discard in that round. Report generation succeeds for every legal log and player, renders names literally, names the match, each round with its results and the log it came from, and shows each tile with its own picture.",
 ["histories", "inputs"], "all legal game histories, every player of each",
 "The only test of the report downloads one log from the real site, is not run, and only checks that some HTML comes out.",
 ["mahjong/tenhou_record_check.py", "mahjong/record/checker.py", "mahjong/container/pattern/reasoning.py", "mahjong/container/pattern/win.py", "mahjong/record/state.py", "mahjong/record/utils/value/tile.py", "mahjong/templates/record_checker_template.html"],
 [("per-discard reasoning and merge of hand types", "mahjong/tenhou_record_check.py"), ("steps and useful tiles", "mahjong/container/pattern/reasoning.py")],
 observe=["HTML returned by TenhouChecker.parse / render_template"])
prop("C09", "The tools announce only completely written files",
 "The report tool and the converter announce a file only once it holds the complete output for the selected player or log and nothing else, whatever it held before; there is one distinct file per selected player in the working directory, whatever the player is called. A player number picks that player, any other answer all players. "
 "If writing fails or the process dies at any point, no incomplete file has been announced and files this run announced earlier stay complete.",
 ["fault_sequences", "crash_points", "inputs"], "all storage faults and process deaths at any point of a run, all player selections and player names, any previous file content",
 "No test runs the command line tools.",
 ["mahjong/tenhou_record_check.py", "mahjong/universe_paifu_convert.py"],
 [("main programs", "mahjong/tenhou_record_check.py"), ("converter", "mahjong/universe_paifu_convert.py")],
 observe=["standard output and files in the working directory"])
prop("C10", "The win-rate tool counts exactly the winning experiments",
 "For any legal 14-tile hand, up to 122 draws (from the 122 tiles not in the hand) and at least one experiment, the tool asks again until 14 tiles are given, then always terminates and lists each distinct tile of the hand once with the exact number and percentage of experiments in which the other 13 tiles together with the drawn tiles contain four melds and a pair or seven distinct pairs, out of the requested experiments (1000 by default). "
 "The listing is ordered by the last rate shown, highest first, these rates add up to 100%, and the listing depends only on the answers and the random draws, never on the clock (stalled, slow, or jumping in either direction).",
 ["inputs", "schedules", "configurations"], "all hands, draw and experiment counts, all random draws and all clock behaviours",
 "No test runs the tool; it depends on randomness, a clock and console input.",
 ["mahjong/win_rate_demo.py", "mahjong/container/distribution.py", "mahjong/container/pattern/win.py", "mahjong/container/utils.py"],
 [("Monte Carlo loop", "mahjong/win_rate_demo.py"), ("hand matching", "mahjong/container/pattern/win.py")],
 observe=["standard output of the tool"])
prop("C11", "Wall draws are without replacement and proportional to what is left",
 "Drawing from a wall never yields a tile more often than the wall holds it; drawing as many tiles as the wall holds yields exactly its content, and each draw picks a tile with probability proportional to its remaining copies. "
 "Any number of drawings from the same wall, consumed lazily in any interleaving or abandoned, are independent of each other and leave the wall unchanged.",
 ["schedules", "inputs"], "all walls, all random sequences, all interleavings of lazily consumed drawings from one wall",
 "No test draws from a wall.",
 ["mahjong/container/distribution.py", "mahjong/container/set.py"],
 [("StaticWall.sample / pick", "mahjong/container/distribution.py")],
 observe=["StaticWall(...).sample(n), weights()"])
prop("C12", "Shared tiles and hands survive concurrency and cancellation",
 "Tile and hand operations (construction, units, matching, enumerating wins, steps, useful tiles, comparing, displaying) give the right answer from any number of threads and half-consumed iterators over the same tiles, hands and patterns in any interleaving, and reading, analysing or displaying a hand never changes what others see of it. "
 "An operation cancelled or failing at any point, including the first use of a tile, leaves no trace: later answers are still right.",
 ["schedules", "crash_points", "fault_sequences"], "all thread and iterator interleavings, all points of cancellation",
 "Tests call each operation once from a single thread and never interrupt one; tiles live in process-wide pools that are filled on first use.",
 ["mahjong/tile/definition.py", "mahjong/container/set.py", "mahjong/container/utils.py", "mahjong/container/pattern/win.py", "mahjong/container/pattern/reasoning.py"],
 [("tile pools", "mahjong/tile/definition.py"), ("hand ordering", "mahjong/container/set.py"), ("search state", "mahjong/container/pattern/reasoning.py")],
 [("Tile._TILE_POOL / AkaTile._ATILE_POOL", "shared tile objects", "mahjong/tile/definition.py")],
 ["results of the public operations and contents of shared hands"])
prop("C13", "Stage grouping partitions a stream under any consumption",
 "Grouping a stream by a list of stages yields consecutive groups that partition it in order: a group is the longest run whose keys never go back in the stage order, and a key outside the stages forms runs of equal keys. "
 "The consumer may read groups fully, partly, not at all or late: unread rest of a group is skipped, a group left behind yields nothing more, elements are taken from the source one at a time and only when needed, and an error of the source reaches the consumer once, in its place, without losing or repeating an element: it ends the group being read (whose rest counts as unread) and leaves all later groups as they are.",
 ["schedules", "fault_sequences", "inputs"], "all streams, stage lists, consumption schedules and points of source failure",
 "Tests read every group completely and in order, on four fixed strings with a source that never fails.",
 ["mahjong/record/stage.py"],
 [("StageGroupby", "mahjong/record/stage.py")],
 observe=["iteration protocol of the grouping"])
prop("C14", "The flat export mirrors every event of the history",
 "For every legal log the flat per-event export lists, in log order and labelled with the right round, starting hands and scores of exactly the seated players, dora, deposits, each draw, discard, call (kind, caller, source seat, tiles shown from hand and whole meld; for an added kan the tile added), kita, riichi declaration and deposit, win with winner and source, draw reason, and finally each player's final score. "
 "Nothing is missing, repeated or attributed to another player.",
 ["histories", "inputs"], "all legal game histories, three and four players",
 "Tests count rows for two fixed logs and never look at their content.",
 ["mahjong/record/utils/event.py", "mahjong/record/reader.py", "mahjong/record/utils/value/meld.py"],
 [("to_paifu", "mahjong/record/utils/event.py")],
 observe=["TenhouRecord.to_paifu", "TenhouGame.to_paifu"])
prop("C15", "A loaded record partitions and summarises the log correctly",
 "A loaded record splits the log into its header and its rounds so that every event belongs to exactly one part, in order, whatever connection events, multiple wins and unknown events lie between. It reports the rules, the seated players with name, rank and rating as at the start, each round's wind, number, honba, deposits, first dora and outcome (winners, sources, points, or kind of draw), and the final ranking by score with ties in seat order. Each player recognises exactly their own draws, discards, calls, declarations and wins, and each event is displayed as what happened to whom, with the tiles, followed by the event of the log.",
 ["histories", "inputs", "configurations"], "all legal histories, rule sets and player names, with connection events at any position",
 "Tests check one fixed rule code and the number of rounds of one log.",
 ["mahjong/record/reader.py", "mahjong/record/stage.py", "mahjong/record/player.py", "mahjong/record/utils/value/gametype.py", "mahjong/record/category.py", "mahjong/record/utils/bit.py", "mahjong/record/utils/event.py", "mahjong/record/utils/value/meld.py"],
 [("TenhouRecord / TenhouGame", "mahjong/record/reader.py"), ("GameType", "mahjong/record/utils/value/gametype.py")],
 observe=["TenhouRecord, TenhouGame attributes and their text", "str() and repr() of TenhouEvent"])
prop("C16", "Loading a log from disk is complete or fails",
 "Loading a record, or the light attribute table, from a file gives every event with every attribute in order (the abstract table leaves out exactly the draw and discard events, whose tag is letters and a number, and all else is kept, labelled with the log's id), or raises, whatever short reads, read errors, truncation, concurrent loads or replaced files occur. A load that failed does not affect later loads.",
 ["fault_sequences", "inputs", "schedules"], "all logs, all read fault sequences and truncation points",
 "Tests load intact files from a disk that never fails, and never look at the light table.",
 ["mahjong/record/reader.py", "mahjong/record/util_functions.py"],
 [("from_file", "mahjong/record/reader.py"), ("light_dataframe_from_file", "mahjong/record/util_functions.py")],
 observe=["from_file", "light_dataframe_from_file"])
prop("C17", "One loaded record serves all uses, in any order, with the same results",
 "Trackers, universal translation, flat export, summaries and efficiency reports for any players can be produced from one loaded record and one checker repeatedly, in any order, interleaved or failing midway, and each result (or failure) is the same as from a freshly loaded record in a fresh process, also while other records are used alongside and after the caller edited a list or table it was given.",
 ["schedules", "histories", "fault_sequences"], "all orders and interleavings of uses of one record, with uses abandoned or failing midway",
 "Every test loads its own record and uses it once.",
 ["mahjong/record/reader.py", "mahjong/record/checker.py", "mahjong/tenhou_record_check.py", "mahjong/record/utils/event.py", "mahjong/record/state.py"],
 [("record objects shared by all features", "mahjong/record/reader.py")],
 observe=["results of each use"])
# pure functions: not claimed
prop("C18", "Tile numbering is a bijection between numbers and categories",
 "For every mixture of categories, turning a number into its category tuple and back gives the same number, and every tuple in range gives a distinct number in range.",
 ["inputs"], "all category shapes and all numbers in range",
 "Tests use a few shapes.", ["mahjong/record/category.py"], [("MixedCategory / SubCategory", "mahjong/record/category.py")])
prop("C19", "Tile notation reads and prints consistently",
 "Reading a hand written in tile notation gives exactly the written tiles, and printing and re-reading any hand gives an equal hand.",
 ["inputs"], "all tile strings and hands", "Tests read fixed strings.",
 ["mahjong/container/utils.py", "mahjong/container/set.py"], [("tile_set_from_string", "mahjong/container/utils.py")])
prop("C20", "Dora and tile-set tables follow the rules",
 "The dora for every indicator and the starting tile multiset for every player count and red-five rule are those of the game.",
 ["inputs"], "all indicators and rule combinations", "No test covers them.",
 ["mahjong/record/const.py"], [("doras / initial_tiles", "mahjong/record/const.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
