#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script only because JSON lines are hard to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
U, A, V = "base/src/utils.rs", "base/src/algorithms.rs", "base/src/videos/"

prop("C01", "Mine layouts are exact and protect the first click",
 "For every board size, mine count and starting cell that admit a legal layout, the plain layout generator and the opening layout generator return a board of exactly the requested dimensions with exactly the requested number of mines, in which every non-mine cell holds the number of neighbouring mines. The plain generator never puts a mine on the starting cell; the opening generator, given mines that fit outside the neighbourhood of the starting cell, never puts one on that cell or its neighbours. The same holds whichever of the rows and columns is larger and wherever the starting cell is.",
 ["inputs", "configurations"], "all rows, columns >= 1, mine counts from 0 to the largest that leaves the starting cell free, every starting cell, every random stream",
 "The tests lay a few fixed 16x30/99-like boards and assert nothing about the result; row/column mix-ups, edge and corner starts and dense boards are never inspected.",
 [U], [("laymine", U+":laymine"), ("laymine_op", U+":laymine_op"), ("cal_board_numbers", U+":cal_board_numbers")],
 ["returned board"])

prop("C02", "Random mine placement is unbiased",
 "Over many calls with the same parameters, every cell that may hold a mine does so equally often, and every pair of such cells is jointly mined equally often, for both the plain and the opening generator, in the library and as the WebAssembly package builds it (which shuffles by code of its own).",
 ["inputs"], "every board size, density and starting cell; quantified over the distribution of returned boards",
 "No test looks at a layout at all, let alone at a distribution; a placement that never uses the last row, or that favours some cells, passes every example.",
 [U], [("shuffle of the flat board", U+":laymine"), ("shuffle and splice around the start", U+":laymine_op"), ("shuffle of the WebAssembly build", U+":js_shuffle / get_random_int")], ["frequencies over returned boards"])

prop("C03", "Board statistics equal their definitions",
 "For every board, the reported 3BV is the number of openings plus the number of numbered cells not adjacent to any opening, the opening count is the number of 8-connected regions of zero cells, the island count is the number of 8-connected regions of numbered cells that border no zero, and the per-number counts are the frequencies of each digit. The board object returns these same values for every getter, in any order and however often they are asked for.",
 ["inputs", "histories"], "all consistent boards of any size and density, including empty and full ones; all sequences of getter calls",
 "One test prints the 3BV of a single board; no value is asserted, no second getter call is made, and no board with an edge-touching or multi-part opening is judged.",
 [U, "base/src/board.rs"], [("cal_bbbv / cal_op / cal_isl / cal_cell_nums", U), ("Board getters and their has_cal flags", "base/src/board.rs:Board")],
 ["return values"], [("has_cal_* flags", "whether a statistic was already computed", "base/src/board.rs")])

prop("C04", "Revealing cells shows exactly the flood fill",
 "Opening a list of cells on a game board reveals exactly the requested cells plus, for each opened zero, the connected zero region and its numbered rim; every revealed safe cell shows its true number and every cell outside stays unchanged. If an opened cell is a mine, the hit mine and the wrong flags get their distinct end-of-game marks, and correct flags and the other unopened mines stay as they were.",
 ["inputs", "histories"], "all boards, all prior game-board states with or without flags, all lists of cells to open in any order and with repetitions",
 "Tests only replay a handful of recorded games and assert nothing on the revealed area.",
 [U], [("refresh_board / infect_board", U+":refresh_board")], ["game board after the call"])

prop("C05", "Constraint extraction is equivalent to the visible board",
 "For every game board, the extracted equation systems - whole, split into blocks, or split into segments grouped into blocks - have exactly one equation per visible number that has an undetermined neighbour, over exactly its undetermined neighbours, with the number reduced by the neighbouring known mines, and every undetermined cell that borders such a number occurs exactly once. Segments share no cell and cannot be split further, segments are grouped exactly when connected through unopened cells, and the reported counts of unconstrained cells and known mines equal those on the board.",
 ["inputs"], "every game board reachable in play, with any subset of known-mine and known-safe marks, of any size",
 "Two tests print the split of two fixed boards; no equation, count or partition is checked.",
 [U], [("refresh_matrix", U+":refresh_matrix"), ("refresh_matrixs", U+":refresh_matrixs"), ("refresh_matrixses", U+":refresh_matrixses")], ["returned matrices, cell lists, right-hand sides and counts"])

prop("C06", "Deductions are sound and enumeration is complete",
 "Whenever any of the deduction engines marks or returns a cell as safe or as a mine on a consistent game board, that cell has that value in every mine layout consistent with the visible numbers; the enumeration engine and the whole-board classifier return every such cell as long as no block exceeds the enumeration limit, and the one-number and two-number engines every cell that one number, or two numbers with a common cell, decide at the time. After a deduction step the remaining equations describe exactly the same set of layouts for the cells that are left, and on a contradictory board the engines return an error or leave the contradiction in place, never crash or hang.",
 ["inputs", "histories"], "every consistent game board of any size and marking, every order of applying the engines",
 "Tests run the engines on three boards and assert nothing; soundness and completeness quantify over all consistent layouts.",
 [A, U], [("solve_direct", A), ("solve_minus", A), ("solve_enumerate", A), ("mark_board", A), ("get_all_not_and_is_mine_on_board", A)], ["returned cells, marks on the game board, remaining matrices"])

prop("C07", "Mine probabilities are exact",
 "For every consistent game board and mine total (counting known mines), the probability reported for each cell, and for the unconstrained cells in common, equals the fraction of the mine layouts consistent with the visible numbers and the total in which that cell is a mine. The reported minimum and maximum are the least and greatest mine totals that the visible numbers allow, a total outside them, a total that no layout has, and a contradictory board are rejected with an error, and the result does not depend on which deducible cells were already marked. Giving the total as a density yields the result for that fraction of the board's cells, brought into the allowed range.",
 ["inputs", "configurations"], "all consistent game boards with any marks, all feasible mine totals given as count or density",
 "Five tests print probabilities of five boards; no number is compared, and the quantifier ranges over all layouts of all boards.",
 [A, U], [("cal_possibility", A+":cal_possibility"), ("cal_possibility_onboard", A+":cal_possibility_onboard"), ("cal_table_minenum_recursion", U)], ["returned probabilities, unconstrained-cell probability, mine range"])

prop("C08", "Opening probabilities are exact",
 "For every consistent game board and mine total, the probability reported for an unopened cell to be an opening (neither it nor any neighbour is a mine) equals the fraction of consistent layouts in which that is so, and cells next to a known mine or already opened are handled the same way.",
 ["inputs", "configurations"], "all consistent game boards, mine totals and queried cell lists",
 "One doc-test prints two values.",
 [A], [("cal_is_op_possibility_cells", A+":cal_is_op_possibility_cells")], ["returned probabilities"])

prop("C09", "Solvability verdict matches exhaustive local reasoning",
 "A board is reported solvable from a starting cell exactly when repeatedly opening every cell that the visible numbers alone force to be safe, starting from that cell, opens every safe cell; in particular a positive verdict always means the game can be finished without a guess. The quick pre-filter for guess patterns only rejects boards that are indeed not solvable.",
 ["inputs"], "all boards and starting cells whose constraint blocks stay within the enumeration limit (soundness beyond it as well)",
 "Tests only run generators that use the verdict; it is never compared with another solver.",
 [A, U], [("is_solvable", A+":is_solvable"), ("unsolvable_structure", U+":unsolvable_structure")], ["verdict"])

prop("C10", "No-guess generators deliver what they flag",
 "Every board returned by the single-threaded, multi-threaded and adjusting no-guess generators has exactly the requested dimensions and mine count, correct numbers and no mine around the starting cell, and whenever the generator flags success the board can be finished from the starting cell without a guess.",
 ["inputs", "schedules"], "all sizes, mine counts and starting cells for which the generators are meant (openings fit, moderate density), all attempt budgets, all thread schedules",
 "Tests print one result each; the flag and the board are not compared with anything.",
 [A, U], [("laymine_solvable", A), ("laymine_solvable_thread", A), ("laymine_solvable_adjust", A)], ["returned board and flag"])

prop("C11", "Guess judgement classifies every click correctly",
 "For every consistent game board, judging a click on a cell reports: already open; safe when the cell is provably safe; certainly a mine when it is provably a mine; otherwise a needless guess when its part of the board (unopened cells linked by adjacency or by a common number) contains a provably safe cell, and a forced guess when it does not. The boolean solvability test of an unopened cell is true exactly when the cell is provably safe or provably a mine.",
 ["inputs"], "all consistent game boards and all unopened cells",
 "Two tests print verdicts for a few fixed cells.",
 [A], [("is_guess_while_needless", A), ("is_able_to_solve", A)], ["returned code"])

prop("C12", "A live game follows the rules of Minesweeper step by step",
 "For every board and every sequence of mouse events the visible board, mouse state, game state and every click counter (left, right, double, effective, flags, solved 3BV) equal those of the published click rules: left-release opens, both-release on a satisfied number opens its unflagged neighbours, right-press toggles a flag, and ineffective or illegal events change nothing. Playing the events one at a time, in a batch, or on the guarded board type gives the same result.",
 ["inputs", "histories"], "all boards, all event sequences including releases without presses, middle clicks, clicks outside, pre-flags and events after the end",
 "Tests replay a few short scripted games with no assertion on any counter.",
 [V+"minesweeper_board.rs"], [("MinesweeperBoard::step / left_click / right_click / chording_click", V+"minesweeper_board.rs")],
 ["getters after every event"], [("mouse_state / game_board_state", "two coupled state machines", V+"minesweeper_board.rs")])

prop("C13", "Game outcome and progress invariants hold at every step",
 "In every game, each opened cell shows its true number, the game is won exactly when every safe cell is open and lost exactly when a mine was opened, a finished game never changes again, solved 3BV never decreases, never exceeds the board's 3BV and equals it exactly at a win. Resetting a game leaves it indistinguishable from a new one.",
 ["inputs", "histories"], "all boards, all event histories, resets at any point",
 "No test asserts an outcome, resets a game in mid-play, or continues after the end.",
 [V+"minesweeper_board.rs"], [("is_win, cal_solved, reset", V+"minesweeper_board.rs")], ["getters after every event"])

prop("C14", "The guarded board returns exactly what was stored",
 "A guarded board built from any board yields the same values by index, by iteration and by conversion back, reports the same dimensions, and after replacing its content yields only the new content.",
 ["inputs", "histories"], "all rectangular boards of cell codes, all sequences of conversions and replacements",
 "One test prints one round trip.",
 ["base/src/safe_board.rs"], [("SafeBoard, SafeBoardRow", "base/src/safe_board.rs")], ["values read back"])

prop("C15", "A recorded game survives saving and reloading",
 "For every game played through the recorder, the replay bytes it generates parse back to the same header fields, true board, event list (kind, position and time to the format's resolution) and checksum, and analysing the reloaded replay ends in the same game result, click counters and solved 3BV as the live game. Setting the checksum again replaces the stored one, and generated data does not depend on earlier games recorded on the same object.",
 ["inputs", "histories"], "all sizes, boards, pixel sizes, header strings, event histories and event times the recorder accepts",
 "Tests save and reload two scripted games and print; not one field is compared.",
 [V+"base_video.rs", V+"evf_video.rs"], [("BaseVideo::step / generate_evf_v0_raw_data", V+"base_video.rs"), ("EvfVideo::parse_video", V+"evf_video.rs")], ["parsed video getters"])

prop("C16", "Foreign replay formats decode to what they encode",
 "A well-formed AVF, MVF, RMV or EVF replay decodes to exactly the board, level, player, flags and event sequence (kind, position, time) written in it, and analysing it gives the outcome of playing those events.",
 ["inputs"], "all well-formed replays: all levels and custom sizes, all boards, all event sequences, all header strings",
 "The tests parsing sample files are not even enabled (files are absent); field decoding is never compared.",
 [V+"avf_video.rs", V+"mvf_video.rs", V+"rmv_video.rs", V+"evf_video.rs"], [("parse_video of each format", V)], ["parsed video getters"])

prop("C17", "Arbitrary bytes never crash a replay parser",
 "For every byte string, parsing it as any of the four replay formats terminates with a video or an error value, and a replay that parsed successfully can be analysed and queried without a crash.",
 ["inputs", "fault_sequences"], "all byte strings, in particular truncations, bit flips, splices and field overwrites of valid replays",
 "No test feeds a damaged file.",
 [V+"avf_video.rs", V+"mvf_video.rs", V+"rmv_video.rs", V+"evf_video.rs", V+"base_video.rs"], [("get_u8/get_u16/... bounds errors", V+"base_video.rs"), ("parse_video", V)], ["Ok/Err, absence of a panic"])

prop("C18", "Replay seeking shows the state of the requested moment",
 "After analysis, seeking a replay to any time shows the last event not after that time (a time that differs from an event's only by rounding may count as it), independently of the position before the seek; the visible board - including the mine hit by a losing click -, the mine probabilities, counters, solved 3BV, mouse state and position shown are those of the game after exactly that event. Seeking by event index and by time agree.",
 ["inputs", "histories"], "all replays, all sequences of seeks (forwards, backwards, repeated, out of range)",
 "One test seeks twice and prints.",
 [V+"base_video.rs"], [("set_current_time / set_current_event_id / get_game_board", V+"base_video.rs")], ["getters after a seek"])

prop("C19", "The game-board object answers as of its current board",
 "A game-board object returns, for the board and mine count last given to it, the probabilities and the lists of certainly safe and certainly mined cells that the underlying analysis gives, whichever queries were made before, in any order and however often, and never answers for an earlier board.",
 ["inputs", "histories"], "all sequences of setting the board, setting the mine count and querying, over all consistent boards",
 "No test uses the object twice.",
 ["base/src/board.rs"], [("GameBoard::set_game_board, get_poss, get_basic_not_mine...", "base/src/board.rs:GameBoard")], ["return values"],
 [("is_marked / has_poss", "cache validity flags", "base/src/board.rs:GameBoard")])

prop("C20", "Replay commentary is total and truthful",
 "For every analysable replay the feature analysis completes for every combination of requested features, in any order, leaves the event list, boards and statistics unchanged, appends a comment to exactly the events that have the commented property and none to others: a high-risk guess is the opening of a cell with the stated mine probability (51% or more), a hard deduction opens or marks a cell that only enumeration proves, a needless guess opens a cell that is not provably safe while another cell is, the luck of a game is the product of the survival probabilities of its guesses, and the mouse-trace and vision-transfer comments follow from the recorded path.",
 ["inputs", "histories"], "all replays and all subsets of features",
 "One test requests features and prints comments.",
 [V+"analyse_methods.rs", V+"base_video.rs"], [("analyse_for_features", V+"base_video.rs"), ("analyse_*", V+"analyse_methods.rs")], ["comments per event"])

prop("C21", "Video statistics obey their definitions",
 "For every replay position the derived statistics - click, left, right, double and effective rates per second, efficiency, throughput, correctness, 3BV per second, estimated time, QG, RQP, STNB and path length - equal their published formulas over the counters, times and positions of that same moment, during live play as well as in playback.",
 ["inputs", "histories"], "all games and replays, all positions, all three levels and custom boards",
 "Values are printed by tests, never asserted.",
 [V+"base_video.rs"], [("get_* statistics", V+"base_video.rs")], ["return values"])

prop("C22", "Board recognition reads a picture of a board back",
 "A sharp, unobstructed picture of a game board in the classic look is read back as that board: the right number of rows and columns wherever the board lies in the picture and whatever the background, also in pictures so large that they are reduced first, and every cell's code, flags being read as closed cells. The fourth component of the pixels has no influence. Recognition may fail on single pictures, as documented, but a board that is returned has at least four rows and columns, holds only known codes, and no number above the count of closed cells around it; a picture of at most 24 pixels in height or width is refused.",
 ["inputs"], "all positions drawn in the classic look, at cell sizes of 12 to 36 and of 80 to 300 pixels and all margins; for legality, all pictures",
 "No test runs recognition.",
 ["base/src/OBR.rs", A, U], [("ImageBoard", "base/src/OBR.rs"), ("OBR_board", A), ("legalize_board", U)], ["recognised board"])

prop("C23", "Enumeration counts every arrangement exactly once",
 "The block enumerator returns, for every block of the constraint system and every possible mine count, exactly the number of satisfying arrangements and for each cell the number of those that mine it; the segment combinator returns precisely every satisfying assignment of a merged cell set once.",
 ["inputs"], "all constraint blocks arising from game boards within the size limit",
 "One test prints the table of one block.",
 [U, A], [("cal_table_minenum_recursion", U), ("combine", U), ("enuOneStep", U)], ["returned tables"])

prop("C24", "The 3BV sampler reports the distribution of 3BV",
 "Sampling 3BV over random boards returns a histogram of exactly the requested number of boards (to the documented multiple) whose entries are 3BV values of boards with the requested size and mine count, so its mean and support agree with the 3BV of independently generated boards.",
 ["inputs", "schedules"], "all three levels, all sample sizes, all thread schedules",
 "No test calls it.",
 [A, U], [("sample_3BVs_exp", A), ("cal_bbbv_exp, laymine_number", U)], ["returned histogram"])

prop("C25", "The Python and WebAssembly bindings are faithful",
 "Every function and method exported to Python or JavaScript returns what the core library returns for the same arguments, with arguments and results in the same order and units, and state changes made through a binding equal those made on the core object.",
 ["inputs", "histories"], "all exported functions and objects, all arguments accepted by the core, all call sequences",
 "There is no test of either binding.",
 ["python_package/src/lib.rs", "python_package/src/board.rs", "python_package/src/gameboard.rs", "python_package/src/base_video.rs", "wasm/src/lib.rs", "wasm/src/board.rs", "wasm/src/transfor.rs"],
 [("pyo3 wrappers", "python_package/src"), ("wasm-bindgen wrappers", "wasm/src")], ["values returned by the binding"])

prop("C26", "Saving a replay never overwrites another file",
 "Saving a replay writes exactly the generated bytes to a file with the requested name and extension, or, when that name is taken, to the first free numbered variant, and leaves every existing file untouched, also when several saves run at once.",
 ["inputs", "histories", "fault_sequences"], "all sequences of saves, all sets of pre-existing files",
 "The tests save twice to one name and never look at the files.",
 [V+"base_video.rs"], [("save_to_evf_file", V+"base_video.rs")], ["directory contents after saves"])

prop("C27", "Chord quality judgement follows its definition on every cell",
 "For every game board and cell, a chord is judged good exactly when it is placed on an opened number whose flags are complete, opens at least one cell, and no orthogonally adjacent opened number with complete flags would open more, for every cell including those on the edges and corners of the board.",
 ["inputs"], "all game boards, all cells including edges and corners",
 "No test calls it at an edge.",
 [U], [("is_good_chording", U+":is_good_chording")], ["verdict"])

prop("C28", "The C interface is faithful and releases its memory correctly",
 "The interface declared in the C header can be built and called from C; its 3BV, layout generator and probability calculation return, cell by cell and row by row, what the core library returns for the same arguments; and the release functions give back everything a call allocated, exactly as it was allocated, leaving nothing behind.",
 ["inputs", "histories"], "all boards, generator parameters and consistent positions, all sequences of calls and releases",
 "There is no test of the C interface, which is not even compiled by the test suite.",
 ["c/src/lib.rs", "c/ms_toollib.h"], [("extern C functions", "c/src/lib.rs")], ["returned structures", "allocator calls"])

prop("C29", "The automatic review of replays decides as documented",
 "After analysis, the review of a replay answers 1 (not valid) unless it was made by Arbiter, Viennasweeper, or the new recorder in versions 3.1.7 and 3.2; 1 for a Viennasweeper replay stamped later than 1682265600 and 3 (uncertain) for one without a readable time stamp in its first ten characters; 1 for a replay of the new recorder that is marked unfair or whose check sum consists of equal bytes; otherwise 3 when there are fewer than ten events per 3BV; and otherwise 0 (valid) exactly when the game was completed, else 1.",
 ["inputs"], "all analysed replays with a 3BV of at least one, of all four formats",
 "One test calls it on a sample file and prints the answer.",
 [V+"base_video.rs"], [("is_valid", V+"base_video.rs")], ["verdict"])

prop("C30", "Marking the mines after the end of a game shows exactly the mines",
 "After a won game, the marking call turns every closed cell into a flag and changes nothing else, so that exactly the mines are flagged; after a lost game, the revealing call shows exactly the mines that are neither flagged nor already shown, as unhit mines. Neither changes anything in a game that has not ended that way, and neither changes the state of the game, its counters or its recorded events; repeating a call has no further effect.",
 ["inputs", "histories"], "all games played through the live recorder, won, lost or unfinished, and all sequences of the two calls",
 "No test looks at the board after these calls.",
 [V+"base_video.rs"], [("win_then_flag_all_mine, loss_then_open_all_mine", V+"base_video.rs")], ["visible board"])

prop("C31", "Converting a replay to the native format loses nothing",
 "A replay loaded from any of the four formats can be written in the native format, before or after it has been analysed. The bytes written hold the header of the original (names, times, flags, mode, board, 3BV and the end of the game as analysed), all recorded events in order with their positions and times, and the check sum it came with; reloaded and analysed they give the same game, result and statistics; a replay already in that format comes out byte for byte as it was, and writing changes nothing in the replay.",
 ["inputs", "histories"], "all well-formed replays of the four formats of less than 16777 seconds, converted before or after analysis or repeatedly",
 "One test converts a sample file and does not look at the bytes.",
 [V+"base_video.rs"], [("generate_evf_v4_raw_data", V+"base_video.rs"), ("parse_video", V)], ["bytes written", "reloaded replay"])

prop("C32", "A board exchanged during play is the board that counts",
 "The live recorder accepts another board during play (as the guess-free mode does, where the board is rearranged under the player). When the new board agrees with every cell already open, the open cells stay as they are and everything afterwards goes by the new board: what is revealed, which mines are hit, when the game is won, the counters and solved 3BV, the recorded board, its 3BV, mine count and level, the saved file and the reloaded replay equal those of the same events on a game played on the new board from the start.",
 ["inputs", "histories"], "all games, all exchanges for boards of the same size that agree with the open cells, any number of times, with any number of mines",
 "No test exchanges a board during play.",
 [V+"base_video.rs", V+"minesweeper_board.rs"], [("set_board", V+"base_video.rs"), ("MinesweeperBoard", V+"minesweeper_board.rs")], ["visible board", "result", "counters", "saved file"])

prop("C33", "Calls outside their state are refused and change nothing",
 "The recorder accepts a header value or check sum only after the game has ended (the program name and cell size also before it starts), a board only while the game is not over and only in the set size, and final statistics, raw data and check sum are handed out only after the end; a loaded replay accepts no header values, no times and no checksum. Every refused call returns an error and leaves everything that can be observed as it was; every accepted value is what is read back; and a reset keeps the names, and clears state and check sum.",
 ["inputs", "histories"], "all guarded functions in all states of a game, in any order between the events of live games and in loaded replays",
 "Tests call setters only where they are accepted.",
 [V+"base_video.rs"], [("set_* and get_* of BaseVideo", V+"base_video.rs")], ["result of the call", "all public fields before and after"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
