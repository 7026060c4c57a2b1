import json,re
exec(open('/verif/tools/claims.py').read())
D={}
D['C01']="Generated (rows, columns, mines, start) including single rows/columns, densest legal boards, every start of small boards (`small_all_starts`); validity predicate on the layout returned. 630 000 layouts quick, 3 s. Tests use fixed sizes and look at a few cells. `large`: boards of up to 300x300 and 3x1000 cells on the default stack."
D['C02']="`frequencies`: 160 configurations, thousands of layouts each; cell and pair frequencies against the hypergeometric expectation, with a Chernoff bound of 1e-13 for each (family-wise false-alarm rate below 1e-7, exact for rare pairs too); the library's own randomness is seeded, so a run is repeatable. `wasm`: 80 configurations of the WebAssembly package built for this machine, which shuffles by code of its own (feature js); it draws from the system, so a run is not repeatable and the bound carries the whole weight. 10 s. Biases below the sampling error stay unseen."
D['C03']="`definitions`: random, structured (snakes, rings, islands with pockets) boards vs. component search; `board_object`: histories of getters on one object; `large`: boards of up to several hundred cells a side in threads with the default 2 MB stack (found an overflow, repaired). Quick 550 000."
D['C04']="`reveal`: boards with flags, wrong flags, opened and marked cells, lists of cells with repeats, mines among them; whole resulting board vs. flood fill and end-mark rules; `large` on a default stack. 600 000."
D['C05']="Equations read off the board independently; each of the three extractions must contain each exactly once; blocks and segments recomputed with union-find. Also boards with engine-found mines/safe marks (codes 11, 12). Strips with indices beyond 255 here and in C03, C04, C06, C07, C11, C19, C27."
D['C06']="`engines`: random sequences of solve_direct/minus/enumerate/whole-board on consistent boards: each mark checked against layout counting, what one number or the difference of two decides must be found at once, and the remaining equations against the set of layouts; `complete`: enumeration finds everything under the limit; `contradictory`: one number altered: error or contradiction remains, no crash; `engines_big`: 16x30 positions."
D['C07']="`exact`, `exact_big`, `exact_huge` (up to expert size and beyond, totals in the hundreds), `brute` (cross-check of the counter), `rejected` (totals outside the range or, inside it, such that no layout has them; contradictory boards, densities). Tolerance 1e-7. Blocks over 45 cells or joint size over 20 000 are skipped: the library itself documents a limit there."
D['C08']="As C07 for the opening probability: ratio of layouts with the zone cleared. About 16 % of the cases have a cell with a probability strictly between 0 and 1 (the rule for non-trivial); a sixth of the positions have every unopened cell next to a number, where some totals have no layout. `opening_big`: the same on boards of the standard sizes (10 000, 10 s; boards with too large a joint table set aside and counted)."
D['C09']="`verdict`: is_solvable vs. repeated exhaustive local reasoning with exact counting (local: mine total not used); `prefilter`: unsolvable_structure may only reject unsolvable boards; `verdict_big`: 8x8 to 16x30 layouts. `prefilter_big`: sparse layouts up to 24x30. A tenth of the boards has one to three rows or columns (found an index panic, repaired), and indices beyond 255 occur."
D['C10']="Every returned board is re-verified with the C09 reference (size, mines, numbers, zone, solvable when flagged). Threads run as the system schedules them: PBT does not own the schedule; 20 000 threaded calls are the sample. `adjust` searches over 10 s (the library has no bound) are set aside and counted. `big`: the three generators on 16x16 to 24x30 boards (1000, 11 s). Boards of fewer than four rows are included, but the adjusting search is run on them only for mine counts which need no search: on narrow boards it seldom ends within the 10 s, and the library promises no bound."
D['C11']="judge: every cell of each position, with random player flags, vs. layout counting and part decomposition. `judge_big`: a fortieth of the cells of positions of the standard sizes."
D['C12']="`rules`: games of up to ~60 events over small and standard boards, with pre-game marks, illegal and outside events, all interleavings of two buttons; visible board, states, all counters and return value after every event vs. `game.rs`; `illegal`: events the model refuses; `variants`: step, step_flow, split batches, SafeBoard; `large`: boards up to 255x255 on the default stack."
D['C13']="`invariants` recompute progress from visible and true boards only (independent of the click model); `reset` compares a reset game with a new one under the same later events."
D['C14']="Round trip of all codes, dimensions, iteration, replacement histories. Rows and columns up to 300."
D['C15']="Games driven through the live recorder (the clock is the real one, or event times are given through the public step function), saved, reloaded, compared field by field with the generator's record; check sum set twice; a second game on the same object. Header strings of any content the format allows; sizes to 255; times to the 24-bit limit; games after a reset with no board set; recordings with a check sum padded to every length around 256 events. `long` and `large`: live games of more than 65 536 events and on boards up to 255x255, saved and reloaded. A part of the recorders never has its header values set."
D['C16']="`evf`, `avf`, `rmv`, `mvf`: generated games written by independent encoders; decoded board, player, marks, events (kind, x, y, time), and the analysed result compared. No sample files of the original programs exist in the sandbox, so agreement with real files is untested. `long`: recordings of up to 150 000 events in each format (indices beyond 65 535); `large`: boards up to 255x255 in the two formats that hold them."
D['C17']="`damaged`: valid encodings truncated, flipped, spliced, fields overwritten at structure offsets; `events`: well-formed headers with wild events (any code, position, time); `wild`: random bytes behind magic prefixes. Everything that parses is analysed, seeked and queried. Panics, aborts (failed allocations included) and hangs (120 s) are violations. Debug build with overflow checks on."
D['C18']="Histories of seeks by time and event; everything shown compared with the game model at the expected event; path, position, mouse state, probabilities vs. direct call on the shown board; some replays are analysed twice first. `long`: over recordings of more than 65 536 events. In a twentieth of the replays the pointer stays outside the board for up to 150 events."
D['C19']="Histories of set_game_board and queries in any order; answers vs. exact counting on the current board. `history_big`: the same on boards of the standard sizes."
D['C20']="`features`: generated replays analysed with random feature lists; each comment recomputed from replayed positions with exact counting; unaffected events, boards, statistics compared before/after, and again after a second analysis. `passage`: replays rich in super-FL and vision-transfer passages compared with a model of these two comments. The mouse-trace comment's *suspect* branch is unreachable in the code and not judged. `features_big`: games on the standard sizes whose every position has a joint table of at most 60 000 entries (12 000, 12 s). A tenth of the analyses ask for all features at once, and unknown names stand at any place of the list."
D['C21']="Every statistic recomputed from counters, times and positions: `playback` at random seeks of replays of all four formats, `live` after each recorded event. Rates at times under 2 ms are not compared (division by a clock of millisecond resolution). A part of the boards has a size next to a standard one."
D['C22']="A renderer draws generated positions in the classic look: any place in the picture, any background shade, cells of 12 to 36 pixels and of 80 to 288 (between 40 and 76 the unchanged tree misreads every second picture, a weakness of its heuristics which is documented as possible; not claimed);  sets of pictures are judged with allowances (single misreadings are documented), legality / size / alpha per picture. Recognition runs the bundled network (params.onnx) in the core; C25 compares the Python call."
D['C23']="Enumerator output vs. brute force on small blocks and vs. an independent dynamic programme on larger ones; combine/enum_comb vs. direct product; enuOneStep vs. definition."
D['C24']="`totals` exact; `distribution`: mean, variance and tail masses vs. an independent sampler at 7 sigma."
D['C25']="Batches of calls sent to a Python process (module built from python_package) and to a native build of the wasm wrapper; every answer compared with the core called directly in the harness; objects are driven through histories. Argument forms: positional/keyword/default. Quick about 150 s including builds. Positions of hundreds of cells (`any_pos`) and layouts wider than 255 cells go through the wrappers too; so do calls of the adjusting generator which fail."
D['C26']="Histories of saves in a scratch directory with pre-existing numbered variants, gaps, other extensions; concurrent saves from threads (barrier). Directory content compared afterwards. The harness never writes outside its own scratch directory. Names are generated, with up to dozens of numbered variants already there."
D['C27']="Every cell of generated positions (many flags complete, edges, corners, ties) vs. the definition."
D['C28']="Generated boards through a C driver linked to the static library; a checking global allocator records layouts: every free must match, nothing may remain. Positions of hundreds of cells and boards wider than 255."
D['C29']="Replays of all formats with software strings, versions, time stamps at and around the limits, event counts at exactly ten per 3BV and around it, check sums of equal and nearly equal bytes; verdict vs. the decision table. Program names other than the known ones."
D['C30']="Generated games with flags (right and wrong), won / lost / open; visible board after the marking call vs. board before and true mines; counters, state, events unchanged; repeated calls. Strips of up to 255 cells."
D['C31']="`convert`: a replay of any of the four formats (independent encoders), converted before or after analysis, or both, or twice. Bytes vs. the independent EVF encoder fed with the original's header; what is reloaded vs. the game model; the original's public fields before and after. 100 000, 30 s. Found that the check sum of a native replay was dropped when its data were generated again."
D['C32']="`exchange`: a generator draws a second board which agrees with every open cell (rejection over random relocation of the unknown mines), exchanged at random points of a live game, up to four times; visible board, counters, state, file and reloaded replay vs. the game model with its board replaced. 60 000, 12 s. Found that the win check kept counting the old board. Marks set before an exchange, on cells which have or have not become mines, are taken off and set again. Boards include strips longer than 30 cells."
D['C33']="`live` (60 000) and `replay` (40 000): a table of states says which guarded call is accepted; before each call a snapshot of all public fields, the event log, the visible board and the raw data is taken, which a refused call must not change; accepted values are read back; names survive a reset."
out=open('/verif/tools/design_head.md').read()
for l in open('/verif/properties.jsonl'):
    p=json.loads(l);i=p['id']
    out+=f"\n**{i} — {p['title']}.** {D[i]}\n"
out+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(out)
import glob,os
t=open('/verif/DESIGN.md').read()
missed=dict(l.strip().split(' ',1) for l in open('/verif/tools/missed.txt')) if os.path.exists('/verif/tools/missed.txt') else {}
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'));n=os.path.basename(d)
    t+=f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {missed.get(n,'yes')} |\n".replace('\n','',0)
open('/verif/DESIGN.md','w').write(t)
