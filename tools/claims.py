NOT = {}
CLAIMS = {
 "C01": ("property-based testing: invariant on generated layouts", "Every generated layout is checked for exact size, mine count, numbers and a protected start; inputs include every start of small boards, single rows and columns and the densest legal boards. Sampled, not exhaustive."),
 "C02": ("property-based testing: statistical oracle over generated layouts", "Frequencies of single cells and pairs over thousands of layouts per configuration, from the library and from the WebAssembly package, with a threshold at a probability of 1e-13; biases smaller than the sampling error are not seen."),
 "C03": ("property-based testing against a reference model", "All statistics compared with a component search written from the definitions; getter histories on one object."),
 "C04": ("property-based testing against a reference model", "The whole board after the call is compared with an independent flood fill."),
 "C05": ("property-based testing against a reference model", "All three extractions compared with equations read off the board directly; partition into segments and blocks recomputed independently."),
 "C14": ("model-based property testing (round-trip, histories)", "Indexing, iteration and conversion compared with the stored board over histories of replacements."),
 "C19": ("stateful model-based property testing against a reference model", "Each query answer compared with exact layout counting on the current board."),
 "C23": ("property-based testing against exhaustive / dynamic-programming counting", "Counts compared with brute force on small blocks and with an independent dynamic programme on larger ones."),
 "C27": ("property-based testing against a reference model", "Every cell of each generated position compared with a direct reading of the definition."),
 "C06": ("property-based testing against exact layout counting", "Marks, returned cells and the remaining equations after random engine sequences compared with an independent dynamic programme; completeness against the same; corrupted boards for crashes and hidden contradictions."),
 "C07": ("property-based testing against exact layout counting", "Every probability and the range compared with an independent dynamic programme over mine counts, itself cross-checked by brute force on tiny boards; tolerance 1e-7. Blocks over 45 cells and very many blocks are excluded."),
 "C08": ("property-based testing against exact layout counting", "Ratio of layout counts with and without the zone cleared; tolerance 1e-7."),
 "C09": ("differential property-based testing", "Verdict compared with exhaustive local reasoning built on exact layout counting, on small and standard-size boards."),
 "C10": ("property-based testing with a verification oracle", "Every returned board is re-verified; schedules of the threaded generator are those the system happens to produce; searches over 10 s are set aside."),
 "C11": ("property-based testing against exact layout counting", "Every cell of each position judged with random player flags."),
 "C12": ("stateful model-based property testing", "After every event of generated games the visible board, states, counters and returned value are compared with an independent two-button model; step, step_flow, split batches and the guarded board are compared at the end."),
 "C13": ("stateful property testing: invariants over histories", "Outcome and progress invariants recomputed after each event from the visible and true board alone; reset games compared with new ones under the same events."),
 "C15": ("stateful model-based property testing with a round-trip oracle", "Games driven through the recorder with generated headers and event times, saved, reloaded and compared field by field with the generator's own record and with the independent game model; stale-data and checksum histories. Sizes up to 255, times within the format's range."),
 "C16": ("generative testing: independent encoders as round-trip oracle", "Encoders for the four formats written from the format documentation produce well-formed replays from generated games; everything decoded and the analysed outcome are compared with what was encoded and with the game model. The repository ships no sample files, so agreement with files of the real programs is not tested."),
 "C17": ("mutational and structure-aware fuzzing", "Valid encodings of all four formats are truncated, bit-flipped, spliced and have fields overwritten; random bytes too. Any panic, abort, hang or runaway allocation is a violation."),
 "C18": ("stateful property testing against a reference model", "After each seek of a generated history everything shown is compared with the game model replayed up to the expected event; probabilities against the core analysis of the shown board."),
 "C20": ("metamorphic and model-based property testing", "Each comment is recomputed from the replayed positions with exact layout counting; analysis with different feature lists compared; events, boards and statistics compared before and after."),
 "C21": ("property-based testing against published formulas", "Every statistic recomputed from counters, times and positions after each live event and at each playback position, for recorded games and foreign replays."),
 "C26": ("stateful property testing over a scratch directory", "Histories of saves among pre-existing files, including several at once from threads, in a scratch directory removed afterwards; directory contents compared with the expected ones."),
 "C24": ("property-based testing: statistical differential oracle against an independent sampler", "Totals compared exactly in the fields that must add up; per-statistic distributions compared with an independent sampler built from the layout definition with a 7-sigma threshold, so shifts smaller than the sampling error are not seen."),
 "C22": ("generative testing: rendering as round-trip oracle", "Pictures drawn from generated positions are read back and compared; the library documents that single pictures may be misread (1 of 1500 at 32 pixels per cell on the unchanged tree), so sets of pictures are judged with an allowance far above that rate; legality, refusal of small pictures and independence of the fourth component are judged per picture. Only a skin drawn here is tested, no real screenshots."),
 "C25": ("differential property-based testing of the bindings against the core", "The Python module is built and called in batches by generated arguments and histories (all functions, objects, replay classes and the live recorder); the WebAssembly wrapper's classes and functions are compiled for this machine and driven alike, so that its Rust code is tested but not the generated JavaScript glue. The C++ interface uses a released crate and is not covered."),
 "C28": ("differential property-based testing through the C header with a checking allocator", "Calls through the C header against the static library built from the tree; results compared with the core, every release compared with its allocation's layout, and no allocation left behind."),
 "C29": ("property-based testing against a decision table", "Verdicts on generated replays of all formats compared with the documented rules, with time stamps, event counts and check sums at and around the limits."),
 "C30": ("stateful model-based property testing", "Visible board after the marking calls compared with the board before and the true mines, over generated games."),
 "C31": ("generative testing: round-trip against an independent encoder", "Replays of the four formats written by independent encoders are converted by the library; bytes compared with the independent EVF encoder, reload compared with the game model. Events later than 16777 s (the format's 24 bits) are not generated."),
 "C32": ("stateful model-based property testing", "Boards up to 8x8 exchanged one to four times during live games for generated boards that agree with the open cells; everything afterwards compared with the game model on the new board, also after saving and reloading."),
 "C33": ("stateful model-based property testing against a table of states", "Random guarded calls between the events of live games and on loaded replays; acceptance against a table written from the documentation, with a snapshot of everything observable around each call."),
}
