//! C15, C16, C17, C18, C20, C21, C26: recording, replay files, playback, commentary.
use crate::core::*;
use crate::game::*;
use crate::props::p_game::ms_of;
use crate::refm::*;
use crate::venc::*;
use crate::{ensure, ensure_eq, gen};
use ms_toollib as ms;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C15", rule: "Games (with restarts, pre-game marks, illegal and outside events, all event names the format has) are played to their end through the live recorder on boards of 1x1 to 30x30 cells and any cell size, with simulated time between events; headers, check sums and a second game on the same object follow. The generated bytes are compared with an independent encoder and reloaded. Two more kinds: games of 66,000 to 140,000 events (moves, or marks set and taken back), and games on boards up to 255x255. Non-trivial: at least 6 recorded events, one opening and one mark or chord.",
            assumptions: &["event times below 16777 s and at most 255 rows and columns (limits of the format)", "header strings contain no zero byte", "a pre-game mark without its press (pf) occurs while no button is held", "the middle button is released only after its press", "the board is set before the first mark"],
            subs: vec![
                Sub { name: "roundtrip", f: c15_roundtrip, quick: 60000, thorough: 1200000, serial: false },
                Sub { name: "long", f: c15_long, quick: 40, thorough: 1000, serial: false },
                Sub { name: "large", f: c15_large, quick: 400, thorough: 10000, serial: false },
                Sub { name: "checksum", f: c15_checksum, quick: 40000, thorough: 800000, serial: false },
            ] },
        Prop { id: "C16", rule: "Replays of generated games are written by independent encoders of the four formats (all levels, custom sizes, all header fields, every event code) and parsed; every field and event is compared, and after analysis every event's counters, board, mouse state and codes are compared with the game model. Two more kinds: recordings of 20,000 to 150,000 events in all formats, and boards up to 255x255 in the two formats that can hold them. Non-trivial: at least 6 events, one opening and one mark or chord.",
            assumptions: &["encoders follow the published descriptions of the formats (no sample files are available)", "shift-chord events of Arbiter (code 11) are decoded but not played, as the game has no such event", "positions outside the board are (rows, columns) x cell size after decoding"],
            subs: vec![
                Sub { name: "evf", f: c16_evf, quick: 60000, thorough: 1200000, serial: false },
                Sub { name: "avf", f: c16_avf, quick: 60000, thorough: 1200000, serial: false },
                Sub { name: "rmv", f: c16_rmv, quick: 60000, thorough: 1200000, serial: false },
                Sub { name: "long", f: c16_long, quick: 60, thorough: 1500, serial: false },
                Sub { name: "large", f: c16_large, quick: 600, thorough: 15000, serial: false },
                Sub { name: "mvf", f: c16_mvf, quick: 60000, thorough: 1200000, serial: false },
            ] },
        Prop { id: "C17", rule: "Valid encodings of generated games, damaged by truncation, bit flips, overwritten and inserted fields, splices and duplicated ranges; valid containers holding arbitrary event codes, positions and times; random bytes with and without the format's signature. What parses is analysed, sought through and queried by every getter (commentary and probabilities on boards of at most 64 cells). Non-trivial: the damaged file differs from the valid one and gets past the signature, or parses.",
            assumptions: &["a parse of arbitrary bytes may return any value or error"],
            subs: vec![
                Sub { name: "damaged", f: c17_damaged, quick: 300000, thorough: 6000000, serial: false },
                Sub { name: "events", f: c17_events, quick: 100000, thorough: 2000000, serial: false },
                Sub { name: "wild", f: c17_wild, quick: 200000, thorough: 4000000, serial: false },
            ] },
        Prop { id: "C18", rule: "Histories of seeks (by time and by event, forwards, backwards, equal, beyond both ends) over generated replays; after each seek everything shown is compared with the game model at the expected event; also over recordings of 66,000 to 140,000 events. Non-trivial: at least 4 seeks over a replay with an opening.",
            assumptions: &["event times do not decrease", "a time within 1 ns of an event may show either side"],
            subs: vec![
                Sub { name: "long", f: c18_long, quick: 40, thorough: 1000, serial: false },
                Sub { name: "seek", f: c18_seek, quick: 80000, thorough: 1600000, serial: false },
            ] },
        Prop { id: "C20", rule: "Replays of generated games (1..7 x 1..8, and boards of the standard sizes) analysed for random sequences of features; every comment is parsed and recomputed from the model's boards, exact probabilities and mouse positions; events, boards and statistics are compared before and after. Non-trivial: a comment was made.",
            assumptions: &["judgements about provable cells are taken from the board queries checked by C19, asked about the independent model's boards"],
            subs: vec![
                Sub { name: "features", f: c20_features, quick: 240000, thorough: 6000000, serial: false },
                Sub { name: "features_big", f: c20_big, quick: 12000, thorough: 240000, serial: false },
                Sub { name: "passage", f: c20_passage, quick: 40000, thorough: 800000, serial: false },
            ] },
        Prop { id: "C21", rule: "Playback: formulas recomputed at each position sought. Live play: the same during and after games with simulated time. Non-trivial: statistics with non-zero time and counters were compared.",
            assumptions: &["live rates are compared with the interval of values possible between two readings of the clock"],
            subs: vec![
                Sub { name: "playback", f: c21_playback, quick: 80000, thorough: 1600000, serial: false },
                Sub { name: "live", f: c21_live, quick: 60000, thorough: 1200000, serial: false },
            ] },
        Prop { id: "C26", rule: "Sequences of saves into a scratch directory with pre-existing files, directories and numbered variants (with gaps), from one or several threads at once. Non-trivial: a name was already taken.",
            assumptions: &[],
            subs: vec![
                Sub { name: "saves", f: c26_saves, quick: 60000, thorough: 1500000, serial: false },
                Sub { name: "concurrent", f: c26_concurrent, quick: 400, thorough: 8000, serial: true },
            ] },
        Prop { id: "C29", rule: "Replays of generated games in all four formats, the new format also with the other programs' names, time stamps at and around the limit and malformed, uniform and mixed check sums, both fairness flags, and event counts at and around ten per 3BV. Non-trivial: the program is an accepted one.",
            assumptions: &["boards without any 3BV are set aside"],
            subs: vec![Sub { name: "review", f: c29_review, quick: 150000, thorough: 4000000, serial: false }] },
        Prop { id: "C30", rule: "Games with flags right and wrong, restarts and illegal events, played through the live recorder to a win, a loss or an open end; the two marking calls in any order and number. Non-trivial: the game is over and the call changes a cell.",
            assumptions: &[],
            subs: vec![Sub { name: "marks", f: c30_marks, quick: 120000, thorough: 3000000, serial: false }] },
        Prop { id: "C31", rule: "Replays of generated games in all four formats, loaded and converted before or after analysis (or both, or again); the bytes produced are compared with an independent encoder's, and what is reloaded from them with the game model and the header of the original. Non-trivial: the original is of another format or carries a check sum, and the game has an opening.",
            assumptions: &["no event later than 16777 s, the limit of the format", "replays without events of kinds the new format does not have"],
            subs: vec![Sub { name: "convert", f: c31_convert, quick: 100000, thorough: 2500000, serial: false }] },
        Prop { id: "C32", rule: "Games on boards of at most 8x8 cells played through the live recorder, during which the board is exchanged one to four times for another one that agrees with every open cell (same or another number of mines); each later event, the result, the file and the reloaded replay are compared with the model of a game on the new board. Non-trivial: a board was exchanged for a different one and a cell was opened afterwards.",
            assumptions: &["the new board agrees with every open cell and leaves a safe cell closed", "games of at least one opening before the exchange"],
            subs: vec![Sub { name: "exchange", f: c32_exchange, quick: 60000, thorough: 1500000, serial: false }] },
        Prop { id: "C33", rule: "Games played through the live recorder (and a second one after a reset) and loaded replays of the four formats, with calls of the recorder's guarded functions in random order between the events; each call's acceptance is compared with the table of states, what an accepted call set is read back, and a refused call must leave every observable value as it was. Non-trivial: a call was refused and another accepted.",
            assumptions: &["an accepted change of the cell size keeps its value"],
            subs: vec![
                Sub { name: "live", f: c33_live, quick: 60000, thorough: 1500000, serial: false },
                Sub { name: "replay", f: c33_replay, quick: 40000, thorough: 1000000, serial: false },
            ] },
    ]
}

// ---------- scratch files ----------
pub fn scratch_dir() -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let d = format!("{}/vharness-{}", base, std::process::id());
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn scratch_cleanup() {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let _ = std::fs::remove_dir_all(format!("{}/vharness-{}", base, std::process::id()));
}
pub fn put(bytes: &[u8]) -> String {
    thread_local! { static NAME: String = format!("{}/f{:?}", scratch_dir(), std::thread::current().id()); }
    let n = NAME.with(|n| n.clone());
    std::fs::write(&n, bytes).unwrap();
    n
}
pub type V = ms::BaseVideo<Vec<Vec<i32>>>;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fmt {
    Evf,
    Avf,
    Rmv,
    Mvf,
}
pub fn parse(f: Fmt, bytes: &[u8]) -> Result<(V, Result<(), String>), Fail> {
    let n = put(bytes);
    Ok(match f {
        Fmt::Evf => {
            let mut v = ms::EvfVideo::new(&n);
            let r = lib("parse_evf", || v.parse_video())?;
            (v.data, r.map_err(|e| format!("{:?}", e)))
        }
        Fmt::Avf => {
            let mut v = ms::AvfVideo::new(&n);
            let r = lib("parse_avf", || v.parse_video())?;
            (v.data, r.map_err(|e| format!("{:?}", e)))
        }
        Fmt::Rmv => {
            let mut v = ms::RmvVideo::new(&n);
            let r = lib("parse_rmv", || v.parse_video())?;
            (v.data, r.map_err(|e| format!("{:?}", e)))
        }
        Fmt::Mvf => {
            let mut v = ms::MvfVideo::new(&n);
            let r = lib("parse_mvf", || v.parse_video())?;
            (v.data, r.map_err(|e| format!("{:?}", e)))
        }
    })
}

// ---------- the model of a replay ----------
#[derive(Clone, Debug)]
struct Exp {
    k: [usize; 6],
    mouse: Ms,
    gb: B,
    st: St,
    eff: Eff,
    path: f64,
}
struct Run {
    steps: Vec<Exp>,
    /// the first left release that opened something
    first: Option<usize>,
    end: Option<usize>,
    marks: usize,
    opens: usize,
    chords: usize,
    illegal: usize,
}
fn play(board: &B, pix: usize, evs: &[RE]) -> Run {
    let (rows, cols) = dims(board);
    let mut g = Game::new(board);
    let mut r = Run { steps: vec![], first: None, end: None, marks: 0, opens: 0, chords: 0, illegal: 0 };
    let mut path = 0.0;
    let mut last = (0.0, 0.0);
    for (i, e) in evs.iter().enumerate() {
        let over = g.over();
        let p = (e.y as usize / pix, e.x as usize / pix);
        let eff = g.event(e.e, p);
        match eff {
            Eff::Flag => r.marks += 1,
            Eff::Chord => {
                r.chords += 1;
                r.opens += 1
            }
            Eff::Open => r.opens += 1,
            Eff::Illegal => r.illegal += 1,
            _ => {}
        }
        let begun = matches!(g.st, St::Playing | St::Win | St::Loss);
        let inside = (e.y as usize) < rows * pix && (e.x as usize) < cols * pix;
        if begun {
            if r.first.is_none() {
                r.first = Some(i);
                last = (e.x as f64, e.y as f64);
            } else if inside {
                path += ((e.x as f64 - last.0).powi(2) + (e.y as f64 - last.1).powi(2)).sqrt() * 16.0 / pix as f64;
                last = (e.x as f64, e.y as f64);
            }
        }
        if g.over() && !over {
            r.end = Some(i);
        }
        r.steps.push(Exp { k: [g.left, g.right, g.double, g.ce, g.flags(), g.solved()], mouse: g.mouse(), gb: g.gb.clone(), st: g.st, eff, path });
    }
    r
}
fn classify(c: &mut Case, run: &Run) {
    c.nontrivial(run.steps.len() >= 6 && run.opens >= 1 && run.marks + run.chords >= 1);
    if let Some(l) = run.steps.last() {
        c.class_if(l.st == St::Win, "won");
        c.class_if(l.st == St::Loss, "lost");
        c.class_if(!matches!(l.st, St::Win | St::Loss), "unfinished");
    }
    c.class_if(run.chords > 0, "chord opened cells");
}
const KEYS: [&str; 6] = ["left", "right", "double", "effective", "flags", "solved 3BV"];
fn keys(k: &ms_key::K) -> [usize; 6] {
    [k.left, k.right, k.double, k.ce, k.flag, k.bbbv_solved]
}
mod ms_key {
    pub struct K {
        pub left: usize,
        pub right: usize,
        pub double: usize,
        pub ce: usize,
        pub flag: usize,
        pub bbbv_solved: usize,
    }
}
macro_rules! key {
    ($e:expr) => {
        keys(&ms_key::K {
            left: $e.key_dynamic_params.left,
            right: $e.key_dynamic_params.right,
            double: $e.key_dynamic_params.double,
            ce: $e.key_dynamic_params.ce,
            flag: $e.key_dynamic_params.flag,
            bbbv_solved: $e.key_dynamic_params.bbbv_solved,
        })
    };
}
/// Compares everything recorded per event with the model.
macro_rules! check_states {
    ($v:expr, $run:expr, $evs:expr, $ctx:expr) => {{
        let (v, run, ctx) = (&$v, &$run, &$ctx);
        for (i, (a, x)) in v.video_action_state_recorder.iter().zip(&run.steps).enumerate() {
            let k = key!(a);
            for j in 0..6 {
                ensure_eq!(k[j], x.k[j], &format!("state:{}", KEYS[j]), "{} after event {} ({:?}) of {}", KEYS[j], i, $evs[i], ctx);
            }
            ensure_eq!(ms_of(a.mouse_state), Some(x.mouse), "state:mouse", "mouse state after event {} ({:?}) of {}", i, $evs[i], ctx);
            let want = match x.eff {
                Eff::None | Eff::Illegal | Eff::Hit => Some(0),
                Eff::Flag => Some(1),
                Eff::Open => Some(2),
                Eff::Chord => Some(3),
                _ => None,
            };
            if let Some(w) = want {
                ensure_eq!(a.useful_level, w, "state:useful", "use of event {} ({:?}) of {}", i, $evs[i], ctx);
            }
            ensure!(a.next_game_board_id < v.game_board_stream.len() && a.prior_game_board_id < v.game_board_stream.len(), "state:stream", "board index of event {} of {}", i, ctx);
            let blank = vec![vec![10; x.gb[0].len()]; x.gb.len()];
            let prior = if i == 0 { &blank } else { &run.steps[i - 1].gb };
            ensure_eq!(&v.game_board_stream[a.prior_game_board_id].game_board, prior, "state:prior", "board before event {} ({:?}) of {}", i, $evs[i], ctx);
            ensure_eq!(&v.game_board_stream[a.next_game_board_id].game_board, &x.gb, "state:next", "board after event {} ({:?}) of {}", i, $evs[i], ctx);
            if run.end.map_or(true, |e| i <= e) {
                ensure!((a.path - x.path).abs() < 1e-6 * (1.0 + x.path), "state:path", "path after event {} ({:?}): {} instead of {} in {}", i, $evs[i], a.path, x.path, ctx);
            }
        }
    }};
}

// ---------- generation ----------
const EVF_NAMES: [&str; 9] = ["mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc"];
pub fn video_board(s: &mut Src) -> B {
    match s.weighted(&[12, 4, 1, 1, 1, 2]) {
        5 => strip(s, 30),
        0 => gen::board(s, 1, 8, 1, 9),
        1 => {
            let (rows, cols) = (s.us(3, 9), s.us(3, 9));
            let k = s.us(1, (rows * cols / 8).max(1));
            gen::board_mines(s, rows, cols, k)
        }
        2 => gen::board_mines(s, 8, 8, 10),
        3 => {
            standard(s)
        }
        _ => gen::board(s, 1, 30, 1, 30),
    }
}
/// The standard sizes, and some that differ from one in a single respect
fn standard(s: &mut Src) -> B {
            let (r, cl, m) = match s.chance(1, 2) {
                true => *s.pick(&[(16, 16, 40), (16, 30, 99)]),
                false => *s.pick(&[(30, 16, 99), (20, 24, 99), (24, 20, 99), (15, 32, 99), (16, 30, 98), (16, 30, 100), (16, 29, 99), (17, 30, 99), (16, 16, 39), (16, 16, 41), (15, 16, 40), (16, 17, 40), (8, 32, 40), (8, 8, 9), (8, 8, 11), (9, 9, 10), (8, 9, 10), (7, 8, 10), (4, 16, 10), (16, 4, 10)]),
            };
            gen::board_mines(s, r, cl, m)
}
/// A long thin board: one side up to `max`, the other 1..4.
fn strip(s: &mut Src, max: usize) -> B {
    let (a, b) = (s.us(10, max), s.us(1, 4));
    let (rows, cols) = if s.chance(1, 2) { (a, b) } else { (b, a) };
    let k = s.us(1, (rows * cols / 5).max(1));
    gen::board_mines(s, rows, cols, k)
}
pub fn plain(s: &mut Src, board: &B, o: Opts, done: (u64, u64)) -> Vec<Ev> {
    let raw = history(s, board, o);
    if s.chance(done.0, done.1) {
        finish(s, board, raw, o)
    } else {
        raw
    }
}
pub fn dts(s: &mut Src) -> u32 {
    match s.weighted(&[3, 6, 6, 2, 1]) {
        0 => 0,
        1 => s.us(1, 9) as u32,
        2 => s.us(10, 400) as u32,
        3 => s.us(400, 3000) as u32,
        _ => s.us(3000, 40000) as u32,
    }
}
pub fn pixel(s: &mut Src, p: P, pix: usize, dim: P) -> (u16, u16) {
    if p.0 >= dim.0 || p.1 >= dim.1 {
        return ((dim.1 * pix) as u16, (dim.0 * pix) as u16);
    }
    let (dy, dx) = match s.weighted(&[6, 1, 1]) {
        0 => (s.us(0, pix - 1), s.us(0, pix - 1)),
        1 => (0, 0),
        _ => (pix - 1, pix - 1),
    };
    ((p.1 * pix + dx) as u16, (p.0 * pix + dy) as u16)
}
/// Events with names from `names` only, legal, with times in multiples of `unit` ms not above `limit`.
fn replay(s: &mut Src, board: &B, pix: usize, raw: &[Ev], names: &[&str], unit: u32, start: u32, limit: u32) -> Vec<RE> {
    let mut g = Game::new(board);
    let mut t = start;
    let mut v = vec![];
    for (e, p) in raw {
        let n = if *e == "cc" && !names.contains(&"cc") {
            // the press of whichever button is up
            let mut h = g.clone();
            if g.event("cc", *p) == Eff::Illegal {
                continue;
            }
            if h.event("rc", *p) != Eff::Illegal && h.mouse() == g.mouse() {
                "rc"
            } else {
                "lc"
            }
        } else {
            let n = g.norm(e);
            if !names.contains(&n) || (n == "pf" && !g.idle()) {
                continue;
            }
            let n: &'static str = EVF_NAMES.iter().find(|x| **x == n).unwrap();
            if g.event(n, *p) == Eff::Illegal {
                continue;
            }
            n
        };
        let (x, y) = pixel(s, *p, pix, dims(board));
        v.push(RE { e: n, ms: t, x, y });
        let dt = if s.chance(1, 100) { s.us(40000, 9_000_000) as u32 } else { dts(s) };
        t = (t + dt / unit * unit).min(limit);
    }
    if v.is_empty() {
        v.push(RE { e: "mv", ms: start, x: 0, y: 0 });
    }
    match FILL.with(|f| f.get()) {
        0 => v,
        n => stretch(s, board, pix, v, n, unit, limit),
    }
}
thread_local! {
    /// how many events `replay` inserts
    static FILL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Inserts about `n` events at one place of a recording: moves, and marks set and taken back.
fn stretch(s: &mut Src, board: &B, pix: usize, evs: Vec<RE>, n: usize, unit: u32, limit: u32) -> Vec<RE> {
    let (rows, cols) = dims(board);
    let mut g = Game::new(board);
    let mut places = vec![];
    for (i, e) in evs.iter().enumerate() {
        g.event(e.e, (e.y as usize / pix, e.x as usize / pix));
        if g.idle() && g.st == St::Playing {
            places.push((i, g.gb.clone()));
        }
    }
    let (at, mark) = if places.is_empty() {
        (evs.len() - 1, None)
    } else {
        let (at, gb) = s.pick(&places).clone();
        let closed: Vec<P> = (0..rows * cols).map(|k| (k / cols, k % cols)).filter(|p| gb[p.0][p.1] == 10).collect();
        (at, if closed.is_empty() || s.chance(1, 3) { None } else { Some(*s.pick(&closed)) })
    };
    let every = s.us(1, 8);
    let (dx, dy) = (s.us(1, cols * pix), s.us(1, rows * pix));
    let mut v = evs[..at + 1].to_vec();
    let mut t = v[at].ms;
    for k in 0..n / 4 {
        if k % every == 0 {
            t = (t + unit).min(limit);
        }
        for j in 0..4usize {
            match mark {
                Some(p) => v.push(RE { e: if j % 2 == 0 { "rc" } else { "rr" }, ms: t, x: (p.1 * pix + k % pix) as u16, y: (p.0 * pix + k / pix % pix) as u16 }),
                None => v.push(RE { e: "mv", ms: t, x: ((k * 4 + j) * dx % (cols * pix)) as u16, y: ((k * 4 + j) * dy % (rows * pix)) as u16 }),
            }
        }
    }
    let shift = t - evs[at].ms;
    v.extend(evs[at + 1..].iter().map(|e| RE { ms: (e.ms + shift).min(limit), ..e.clone() }));
    v
}
pub fn opts(s: &mut Src, max: usize) -> Opts {
    Opts { aliases: s.chance(1, 2), illegal: false, outside: s.chance(1, 3), middle: s.chance(1, 3), moves: s.chance(2, 3), max }
}
fn bytes(s: &mut Src, max: usize, not: &[u8]) -> Vec<u8> {
    let n = s.us(0, max);
    (0..n)
        .map(|_| {
            let b = if s.chance(1, 3) { s.byte() } else { b'a' + s.below(26) as u8 };
            if b == 0 || not.contains(&b) {
                b'_'
            } else {
                b
            }
        })
        .collect()
}
/// As a field of a header: mostly short, now and then longer than a length byte holds
fn field(s: &mut Src, most: usize, not: &[u8]) -> Vec<u8> {
    let max = if s.chance(1, 25) { most } else { 12.min(most) };
    bytes(s, max, not)
}
fn text(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.us(0, max);
    (0..n).map(|_| *s.pick(b"abcXYZ 019.-,")).collect()
}

// ---------- C15 ----------
pub struct Played {
    v: ms::BaseVideo<ms::SafeBoard>,
    board: B,
    pix: usize,
    /// what should have been recorded; `ms` is the recorder's own time
    rec: Vec<RE>,
    /// earliest and latest time possible for each event, ms
    span: Vec<(f64, f64)>,
    start_wall: (u128, u128),
    end_wall: (u128, u128),
    over: bool,
    log: Vec<String>,
}
fn wall() -> u128 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros()
}
fn clock_back(v: &mut ms::BaseVideo<ms::SafeBoard>, us: u32) {
    if let Some(t) = v.video_start_instant.checked_sub(Duration::from_micros(us as u64)) {
        v.video_start_instant = t;
    }
}
pub struct LivePlan {
    pub board: B,
    pub pix: usize,
    /// event, position (y, x), microseconds that pass before it
    pub evs: Vec<(&'static str, (usize, usize), u32)>,
    /// the true board is set only when the game is about to start
    pub late: bool,
    /// boards exchanged before an event, during play
    pub swaps: Vec<(usize, B)>,
}
pub fn live_plan(s: &mut Src, board: B, pix: usize, finished: bool) -> LivePlan {
    let o = Opts { aliases: s.chance(1, 2), illegal: s.chance(1, 4), outside: s.chance(1, 3), middle: s.chance(1, 3), moves: s.chance(1, 2), max: s.us(4, 30) };
    let mut raw = history(s, &board, o);
    if finished {
        raw = finish(s, &board, raw, o);
    }
    let mut g = Game::new(&board);
    let mut evs = vec![];
    let (mut marked, mut far) = (false, false);
    for (e, p) in raw {
        let n = if e == "cc" { "cc" } else { g.norm(e) };
        if n == "pf" && !g.idle() {
            continue;
        }
        let n: &'static str = match EVF_NAMES.iter().find(|x| **x == n) {
            Some(n) => n,
            None => continue,
        };
        let mut h = g.clone();
        if h.event(n, p) == Eff::Illegal && n == "mr" && g.st == St::Playing {
            // a middle release without its press is outside the rules
            continue;
        }
        g = h;
        if !matches!(g.st, St::Playing | St::Win | St::Loss) && g.flags() > 0 {
            marked = true;
        }
        let (x, y) = pixel(s, p, pix, dims(&board));
        let dt = if !far && s.chance(1, 150) { s.us(40000, 4_000_000) as u32 } else { dts(s) };
        far |= dt > 40000;
        let dt = dt * 1000 + *s.pick(&[0, 0, 499, 600, 999]);
        evs.push((n, (y as usize, x as usize), dt));
    }
    let late = !marked && s.chance(1, 2);
    LivePlan { board, pix, evs, late, swaps: vec![] }
}
/// Moves at a moment of play when no button is held, so that there are about 256 events.
fn pad(s: &mut Src, plan: &mut LivePlan) {
    let (rows, cols) = dims(&plan.board);
    let pix = plan.pix;
    let mut g = Game::new(&plan.board);
    let mut places = vec![];
    for (i, (e, p, _)) in plan.evs.iter().enumerate() {
        g.event(e, (p.0 / pix, p.1 / pix));
        if g.idle() && g.st == St::Playing {
            places.push(i + 1);
        }
    }
    if places.is_empty() {
        return;
    }
    let at = *s.pick(&places);
    let n = s.us(252, 259).saturating_sub(plan.evs.len());
    let (dx, dy) = (s.us(1, cols * pix), s.us(1, rows * pix));
    let more: Vec<(&'static str, (usize, usize), u32)> = (0..n).map(|k| ("mv", (k * dy % (rows * pix), k * dx % (cols * pix)), (k % 5) as u32 * 1000)).collect();
    plan.evs.splice(at..at, more);
}
/// Plays the plan on `v` (new or reset).
fn live(mut v: ms::BaseVideo<ms::SafeBoard>, plan: &LivePlan, each: &mut dyn FnMut(&mut ms::BaseVideo<ms::SafeBoard>, &Game, usize, Instant) -> R) -> Result<Played, Fail> {
    let mut g = Game::new(&plan.board);
    let (rows, cols) = dims(&plan.board);
    let mut p = Played { v: ms::BaseVideo::<ms::SafeBoard>::new_before_game(vec![vec![0]], 16), board: plan.board.clone(), pix: plan.pix, rec: vec![], span: vec![], start_wall: (0, 0), end_wall: (0, 0), over: false, log: vec![] };
    let mut t0 = (Instant::now(), Instant::now());
    let mut sim = 0f64;
    let mut set = !plan.late;
    for (i, (e, pos, dt)) in plan.evs.iter().enumerate() {
        let cell = (pos.0 / plan.pix, pos.1 / plan.pix);
        let was_over = g.over();
        let before = g.st;
        if !set && *e == "lr" && matches!(before, St::Pre) && cell.0 < rows && cell.1 < cols {
            set = true;
            ensure!(v.set_board(plan.board.clone()).is_ok(), "live:set_board", "set_board refused before the first click");
        }
        for (_, nb) in plan.swaps.iter().filter(|x| x.0 == i) {
            ensure!(lib("set_board", || v.set_board(nb.clone()))?.is_ok(), "live:exchange", "set_board refused during play, before event {} of {:?}", i, p.log);
            let mut h = Game::new(nb);
            for (e, pos, _) in &plan.evs[..i] {
                h.event(e, (pos.0 / plan.pix, pos.1 / plan.pix));
            }
            assert_eq!((&h.gb, h.st), (&g.gb, g.st));
            g = h;
            p.board = nb.clone();
        }
        clock_back(&mut v, *dt);
        sim += *dt as f64 / 1000.0;
        let (b, w0) = (Instant::now(), wall());
        let r = lib("video_step", || v.step(e, *pos))?;
        let (a, w1) = (Instant::now(), wall());
        let eff = g.event(e, cell);
        p.log.push(format!("{} {:?} {:?}", e, pos, dt));
        let recorded = !was_over && (eff != Eff::Illegal || r.is_ok());
        ensure!(eff == Eff::Illegal || r.is_ok(), "live:refused", "legal event {} ({} at {:?}) refused", i, e, cell);
        if recorded {
            if g.st == St::Ready {
                p.rec.clear();
                p.span.clear();
            } else {
                if before == St::Ready {
                    t0 = (b, a);
                    sim = 0.0;
                    p.span.push((0.0, 0.0));
                } else {
                    p.span.push((sim + (b - t0.1).as_secs_f64() * 1e3 - 1.01, sim + (a - t0.0).as_secs_f64() * 1e3 + 1.01));
                }
                p.rec.push(RE { e, ms: 0, x: pos.1 as u16, y: pos.0 as u16 });
            }
        }
        let begun = |s: St| matches!(s, St::Playing | St::Win | St::Loss);
        if begun(g.st) && !begun(before) {
            p.start_wall = (w0, w1);
        }
        if g.over() && !was_over {
            p.end_wall = (w0, w1);
        }
        each(&mut v, &g, i, b)?;
    }
    p.over = g.over();
    ensure_eq!(v.video_action_state_recorder.len(), p.rec.len(), "live:count", "number of recorded events after {:?}", p.log);
    for i in 0..p.rec.len() {
        let a = &v.video_action_state_recorder[i];
        let t = a.time * 1000.0;
        ensure_eq!((a.mouse.as_str(), a.x, a.y), (p.rec[i].e, p.rec[i].x, p.rec[i].y), "live:event", "recorded event {} after {:?}", i, p.log);
        ensure!((t - t.round()).abs() < 1e-6, "live:ms", "event time {} is not in whole ms", a.time);
        ensure!(t >= p.span[i].0 - 1.0 && t <= p.span[i].1 + 1.0, "live:time", "event {} recorded at {} ms, expected {:?} after {:?}", i, t, p.span[i], p.log);
        p.rec[i].ms = t.round() as u32;
        if i > 0 {
            ensure!(p.rec[i].ms >= p.rec[i - 1].ms, "live:order", "event times decrease");
        }
    }
    p.v = v;
    Ok(p)
}
#[derive(Debug)]
pub struct Heads {
    pub flags: (bool, bool),
    pub mode: u16,
    pub strings: [Vec<u8>; 6],
    pub times: Option<(Vec<u8>, Vec<u8>)>,
    /// nothing is set: a new recorder's values are blank
    pub unset: bool,
}
fn no_heads() -> Heads {
    Heads { flags: (false, false), mode: 0, strings: Default::default(), times: None, unset: true }
}
pub fn heads(s: &mut Src) -> Heads {
    let st = |s: &mut Src| if s.chance(1, 8) { "元3.2".as_bytes().to_vec() } else { field(s, 400, &[]) };
    Heads {
        flags: (s.chance(1, 2), s.chance(1, 2)),
        mode: if s.chance(1, 8) { s.us(0, 65535) as u16 } else { s.us(0, 13) as u16 },
        strings: [st(s), st(s), st(s), st(s), st(s), st(s)],
        times: if s.chance(1, 4) { Some((text(s, 20), text(s, 20))) } else { None },
        unset: false,
    }
}
fn apply_heads(p: &mut Played, h: &Heads) -> R {
    let v = &mut p.v;
    let ok = h.unset || v.set_is_offical(h.flags.0).is_ok()
        && v.set_is_fair(h.flags.1).is_ok()
        && v.set_mode(h.mode).is_ok()
        && v.set_software(h.strings[0].clone()).is_ok()
        && v.set_player_designator(h.strings[1].clone()).is_ok()
        && v.set_race_designator(h.strings[2].clone()).is_ok()
        && v.set_uniqueness_designator(h.strings[3].clone()).is_ok()
        && v.set_country(h.strings[4].clone()).is_ok()
        && v.set_device_uuid(h.strings[5].clone()).is_ok();
    ensure!(ok, "live:set", "a header setter refuses after the game's end");
    // recorded time stamps: microseconds since 1970 of the first opening and of the end
    for (x, w, n) in [(&v.start_time, p.start_wall, "start"), (&v.end_time, p.end_wall, "end")] {
        let t = String::from_utf8_lossy(x).to_string();
        let t: u128 = t.parse().or_else(|_| fail("live:stamp", format!("{} time stamp {:?} is no number", n, t)))?;
        ensure!(t >= w.0 && t <= w.1, "live:stamp", "{} time stamp {} outside {:?}", n, t, w);
    }
    if let Some((a, b)) = &h.times {
        ensure!(v.set_start_time(a.clone()).is_ok() && v.set_end_time(b.clone()).is_ok(), "live:set", "set_start_time refused");
    }
    Ok(())
}
/// What the file should be, from the model and the header values set.
fn expected_file(p: &Played, h: &Heads, run: &Run, sum: Option<[u8; 32]>) -> Vec<u8> {
    let won = run.steps.last().unwrap().st == St::Win;
    let first = run.first.unwrap();
    let times = h.times.clone().unwrap_or((p.v.start_time.clone(), p.v.end_time.clone()));
    let eh = EvfHead {
        version: 0,
        flags: (won as u8) << 7 | (h.flags.0 as u8) << 6 | (h.flags.1 as u8) << 5,
        pix: p.pix as u8,
        mode: h.mode,
        bbbv: stats(&p.board).bbbv as u16,
        rtime: p.rec[run.end.unwrap()].ms - p.rec[first].ms,
        strings: [h.strings[0].clone(), h.strings[1].clone(), h.strings[2].clone(), h.strings[3].clone(), times.0, times.1, h.strings[4].clone(), h.strings[5].clone()],
        checksum: sum,
    };
    evf(&p.board, &eh, &p.rec)
}
fn show(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("")
}
fn same_bytes(got: &[u8], exp: &[u8], what: &str, ctx: &str) -> R {
    if got != exp {
        let at = got.iter().zip(exp).position(|(a, b)| a != b).unwrap_or(got.len().min(exp.len()));
        return fail(&format!("bytes:{}", what), format!("{}: {} bytes instead of {}, first difference at {}\n got {}\n exp {}\n {}", what, got.len(), exp.len(), at, show(&got[at.min(got.len())..(at + 40).min(got.len())]), show(&exp[at.min(exp.len())..(at + 40).min(exp.len())]), ctx));
    }
    Ok(())
}
pub fn pix_for(s: &mut Src, b: &B) -> usize {
    let _ = b;
    match s.weighted(&[4, 3, 1, 1]) {
        0 => 16,
        1 => s.us(1, 40),
        2 => 255,
        _ => s.us(1, 255),
    }
}
fn c15_roundtrip(s: &mut Src, c: &mut Case) -> R {
    let board = video_board(s);
    let pix = pix_for(s, &board);
    let mut plan = live_plan(s, board.clone(), pix, true);
    if s.chance(1, 60) {
        pad(s, &mut plan);
    }
    let h = if s.chance(1, 10) { no_heads() } else { heads(s) };
    c.class_if(h.unset, "no header value set");
    let second = if s.chance(1, 3) {
        // a reset leaves a board without mines, until one is set
        let blank = s.chance(1, 6);
        let b2 = if blank { vec![vec![0; s.us(1, 12)]; s.us(1, 12)] } else { video_board(s) };
        let pix2 = pix_for(s, &b2);
        let mut plan2 = live_plan(s, b2, pix2, true);
        plan2.late &= !blank;
        c.class_if(blank, "reset, no board set");
        Some((plan2, heads(s), blank))
    } else {
        None
    };
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &plan.evs);
    c.input("late", &plan.late);
    c.input("header", &h);
    c.input("second", &second.as_ref().map(|(p, h, _)| (p.board.clone(), p.pix, p.evs.clone(), h)));
    let placeholder = if plan.late { vec![vec![0; board[0].len()]; board.len()] } else { board.clone() };
    let v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(placeholder, pix as u8))?;
    let p = one_game(c, v, &plan, &h)?;
    if let (Some((plan2, h2, blank)), Some(mut p)) = (second, p) {
        let (r2, c2) = dims(&plan2.board);
        lib("reset", || p.v.reset(r2, c2, plan2.pix as u8))?;
        ensure!(p.v.video_action_state_recorder.is_empty() && p.v.game_board_stream.is_empty(), "reset:events", "events left after reset");
        if !plan2.late && !blank {
            ensure!(lib("set_board", || p.v.set_board(plan2.board.clone()))?.is_ok(), "live:set_board", "set_board refused after reset");
        }
        let Played { v, .. } = p;
        one_game(c, v, &plan2, &h2)?;
    }
    Ok(())
}
/// Games of more than 65536 events: many moves, or marks set and taken back many times.
fn c15_long(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 2, 5, 2, 5);
    let pix = s.us(1, 40);
    let mut plan = live_plan(s, board.clone(), pix, true);
    let n = s.us(66000, 140000);
    let (rows, cols) = dims(&board);
    let mut g = Game::new(&board);
    let mut places = vec![];
    for (i, (e, p, _)) in plan.evs.iter().enumerate() {
        g.event(e, (p.0 / pix, p.1 / pix));
        if g.idle() && g.st == St::Playing {
            places.push((i, g.gb.clone()));
        }
    }
    if places.is_empty() {
        c.class("over at once");
        return Ok(());
    }
    let (at, gb) = s.pick(&places).clone();
    let closed: Vec<P> = (0..rows * cols).map(|k| (k / cols, k % cols)).filter(|p| gb[p.0][p.1] == 10).collect();
    let mark = if closed.is_empty() || s.chance(1, 3) { None } else { Some(*s.pick(&closed)) };
    let (dx, dy) = (s.us(1, cols * pix), s.us(1, rows * pix));
    let more: Vec<(&'static str, (usize, usize), u32)> = (0..n / 4 * 4)
        .map(|k| match mark {
            Some(p) => (if k % 2 == 0 { "rc" } else { "rr" }, (p.0 * pix + k % pix, p.1 * pix + k / pix % pix), (k % 3) as u32 * 7),
            None => ("mv", (k * dy % (rows * pix), k * dx % (cols * pix)), (k % 3) as u32 * 7),
        })
        .collect();
    plan.evs.splice(at + 1..at + 1, more);
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("inserted", &(n / 4 * 4, at, mark));
    let h = heads(s);
    let placeholder = if plan.late { vec![vec![0; cols]; rows] } else { board.clone() };
    let v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(placeholder, pix as u8))?;
    one_game(c, v, &plan, &h)?;
    c.nontrivial(plan.evs.len() > 65536);
    Ok(())
}
/// Games on boards up to the largest size a recording can hold.
fn c15_large(s: &mut Src, c: &mut Case) -> R {
    let board = gen::large(s);
    let pix = s.us(1, 255);
    let mut plan = live_plan(s, board.clone(), pix, false);
    // most games are ended on a mine, or by the last cell
    let mines: Vec<P> = mines_of(&board);
    if !mines.is_empty() {
        let p = *s.pick(&mines);
        let mut g = Game::new(&board);
        for (e, p, _) in &plan.evs {
            g.event(e, (p.0 / pix, p.1 / pix));
        }
        if g.idle() && g.st == St::Playing && g.gb[p.0][p.1] == 10 {
            for e in ["lc", "lr"] {
                plan.evs.push((e, (p.0 * pix, p.1 * pix), 1000));
            }
        }
    }
    c.input("board", &(dims(&board), &mines));
    c.input("pix", &pix);
    c.input("events", &plan.evs);
    let h = heads(s);
    let placeholder = if plan.late { vec![vec![0; board[0].len()]; board.len()] } else { board.clone() };
    let v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(placeholder, pix as u8))?;
    one_game(c, v, &plan, &h)?;
    Ok(())
}
fn one_game(c: &mut Case, v: ms::BaseVideo<ms::SafeBoard>, plan: &LivePlan, h: &Heads) -> Result<Option<Played>, Fail> {
    let mut p = live(v, plan, &mut |_, _, _, _| Ok(()))?;
    if !p.over {
        c.class("game did not end");
        return Ok(None);
    }
    let run = play(&p.board, p.pix, &p.rec);
    classify(c, &run);
    let ctx = format!("{:?} recorded on {:?} (cell size {})", p.rec, p.board, p.pix);
    check_states!(p.v, run, p.rec, ctx);
    if plan.late {
        ensure_eq!((p.v.level, p.v.mine_num), (level_of(&p.board), mine_count(&p.board)), "live:level", "level and mines of the board set, {}", ctx);
    }
    let (Some(_first), Some(_end)) = (run.first, run.end) else { return fail("live:model", "recorded events do not end the game".into()) };
    apply_heads(&mut p, h)?;
    lib("generate", || p.v.generate_evf_v0_raw_data())?;
    let got = p.v.get_raw_data().unwrap();
    same_bytes(&got, &expected_file(&p, h, &run, None), "generated", &ctx)?;
    ensure_eq!(p.v.get_rtime_ms().unwrap(), p.rec[run.end.unwrap()].ms - p.rec[run.first.unwrap()].ms, "live:rtime", "final time of {}", ctx);
    ensure!((p.v.get_rtime().unwrap() * 1000.0 - p.v.get_rtime_ms().unwrap() as f64).abs() < 1e-6, "live:rtime", "final time in seconds");
    // reload
    let (mut w, r) = parse(Fmt::Evf, &got)?;
    ensure!(r.is_ok(), "reload:parse", "generated data does not parse: {:?} {}", r, ctx);
    let won = run.steps.last().unwrap().st == St::Win;
    ensure_eq!((w.is_completed, w.is_offical, w.is_fair), (won, h.flags.0, h.flags.1), "reload:flags", "flags of {}", ctx);
    ensure_eq!((w.height, w.width, w.mine_num), (p.board.len(), p.board[0].len(), mine_count(&p.board)), "reload:size", "size of {}", ctx);
    ensure_eq!(w.board, p.board, "reload:board", "board of {}", ctx);
    ensure_eq!((w.cell_pixel_size as usize, w.mode), (p.pix, h.mode), "reload:head", "cell size and mode of {}", ctx);
    ensure_eq!(w.level, level_of(&p.board), "reload:level", "level of {}", ctx);
    ensure_eq!(w.static_params.bbbv, stats(&p.board).bbbv, "reload:bbbv", "3BV of {}", ctx);
    ensure_eq!(w.get_rtime_ms().unwrap(), p.v.get_rtime_ms().unwrap(), "reload:rtime", "final time of {}", ctx);
    let st: [&Vec<u8>; 8] = [&w.software, &w.player_designator, &w.race_designator, &w.uniqueness_designator, &w.start_time, &w.end_time, &w.country, &w.device_uuid];
    let lv: [&Vec<u8>; 8] = [&p.v.software, &p.v.player_designator, &p.v.race_designator, &p.v.uniqueness_designator, &p.v.start_time, &p.v.end_time, &p.v.country, &p.v.device_uuid];
    ensure_eq!(st, lv, "reload:strings", "header strings of {}", ctx);
    check_events(&w, &p.rec, &ctx)?;
    lib("analyse", || w.analyse())?;
    check_states!(w, run, p.rec, ctx);
    ensure_eq!(w.is_completed, won, "reload:completed", "result of {}", ctx);
    Ok(Some(p))
}
pub fn check_events(w: &V, evs: &[RE], ctx: &str) -> R {
    ensure_eq!(w.video_action_state_recorder.len(), evs.len(), "decode:count", "number of events of {}", ctx);
    for (i, (a, e)) in w.video_action_state_recorder.iter().zip(evs).enumerate() {
        ensure_eq!((a.mouse.as_str(), a.x, a.y), (e.e, e.x, e.y), "decode:event", "event {} of {}", i, ctx);
        ensure!((a.time - e.ms as f64 / 1000.0).abs() < 1e-9, "decode:time", "time of event {}: {} instead of {} ms, {}", i, a.time, e.ms, ctx);
    }
    Ok(())
}
fn c15_checksum(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 1, 5, 1, 5);
    let pix = pix_for(s, &board);
    let mut plan = live_plan(s, board.clone(), pix, true);
    if s.chance(1, 20) {
        pad(s, &mut plan);
    }
    let h = heads(s);
    let rounds = s.us(1, 2);
    let mut ops = vec![];
    for _ in 0..rounds {
        let n = s.us(1, 6);
        ops.push(
            (0..n)
                .map(|_| {
                    if s.chance(1, 2) {
                        let mut a = [0u8; 32];
                        for x in a.iter_mut() {
                            *x = s.byte();
                        }
                        Some(a)
                    } else {
                        None
                    }
                })
                .collect::<Vec<_>>(),
        );
    }
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &plan.evs);
    c.input("header", &h);
    c.input("ops (None: generate, Some: set check sum)", &ops);
    let mut v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(board.clone(), pix as u8))?;
    for (ri, ops) in ops.iter().enumerate() {
        if ri > 0 {
            lib("reset", || v.reset(board.len(), board[0].len(), pix as u8))?;
            ensure!(lib("set_board", || v.set_board(board.clone()))?.is_ok(), "live:set_board", "set_board refused after reset");
        }
        let mut p = live(v, &plan, &mut |_, _, _, _| Ok(()))?;
        if !p.over {
            return Ok(());
        }
        let run = play(&p.board, p.pix, &p.rec);
        apply_heads(&mut p, &h)?;
        let (mut sum, mut made) = (None, false);
        let mut sets = 0;
        for op in ops {
            match op {
                None => {
                    lib("generate", || p.v.generate_evf_v0_raw_data())?;
                    made = true;
                }
                Some(x) => {
                    let r = lib("set_checksum", || p.v.set_checksum(*x))?;
                    ensure!(r.is_ok(), "sum:refused", "set_checksum refused");
                    sum = Some(*x);
                    sets += 1;
                    ensure_eq!(p.v.get_checksum().unwrap(), *x, "sum:get", "check sum set");
                }
            }
            if made {
                let got = p.v.get_raw_data().unwrap();
                same_bytes(&got, &expected_file(&p, &h, &run, sum), "with check sum", &format!("{:?}", ops))?;
            }
        }
        if !made {
            lib("generate", || p.v.generate_evf_v0_raw_data())?;
        }
        let got = p.v.get_raw_data().unwrap();
        let (w, r) = parse(Fmt::Evf, &got)?;
        ensure!(r.is_ok(), "reload:parse", "generated data does not parse");
        ensure_eq!(w.get_checksum().unwrap(), sum.unwrap_or([0; 32]), "sum:reload", "check sum after reloading");
        c.nontrivial(sets > 0);
        c.class_if(sets > 1, "set again");
        c.class_if(ri > 0, "second game");
        v = p.v;
    }
    Ok(())
}

// ---------- C16 ----------
fn evf_case(s: &mut Src, board: &B, evs: &[RE], pix: usize) -> (EvfHead, Vec<u8>) {
    let st = |s: &mut Src| field(s, 400, &[]);
    let run_end = evs.last().map_or(0, |e| e.ms);
    let h = EvfHead {
        version: 0,
        flags: (s.below(8) as u8) << 5,
        pix: pix as u8,
        mode: if s.chance(1, 6) { s.us(0, 65535) as u16 } else { s.us(0, 13) as u16 },
        bbbv: stats(board).bbbv as u16,
        rtime: if s.chance(1, 4) { s.us(0, 0xff_ffff) as u32 } else { run_end },
        strings: [st(s), st(s), st(s), st(s), st(s), st(s), st(s), st(s)],
        checksum: if s.chance(1, 2) {
            let mut a = [0u8; 32];
            for x in a.iter_mut() {
                *x = s.byte();
            }
            Some(a)
        } else {
            None
        },
    };
    let b = evf(board, &h, evs);
    (h, b)
}
fn level_of(b: &B) -> u8 {
    match (b.len(), b[0].len(), mine_count(b)) {
        (8, 8, 10) => 3,
        (16, 16, 40) => 4,
        (16, 30, 99) => 5,
        _ => 6,
    }
}
fn decoded(w: &V, f: Fmt, bytes: &[u8], board: &B, evs: &[RE], bbbv: usize, rtime_ms: u32, ctx: &str) -> R {
    ensure_eq!((w.height, w.width, w.mine_num), (board.len(), board[0].len(), mine_count(board)), "decode:size", "size of {}", ctx);
    ensure_eq!(w.board, *board, "decode:board", "board of {}", ctx);
    ensure_eq!(w.static_params.bbbv, bbbv, "decode:bbbv", "3BV of {}", ctx);
    ensure_eq!(w.get_rtime_ms().unwrap(), rtime_ms, "decode:rtime", "final time of {}", ctx);
    ensure!((w.get_rtime().unwrap() - rtime_ms as f64 / 1000.0).abs() < 1e-6, "decode:rtime", "final time {} of {}", w.get_rtime().unwrap(), ctx);
    ensure_eq!(w.get_raw_data().unwrap(), bytes.to_vec(), "decode:raw", "raw data of {}", ctx);
    let _ = f;
    check_events(w, evs, ctx)
}
fn analysed(w: &mut V, c: &mut Case, board: &B, pix: usize, evs: &[RE], ctx: &str) -> R {
    let run = play(board, pix, evs);
    classify(c, &run);
    lib("analyse", || w.analyse())?;
    check_states!(*w, run, evs, ctx);
    ensure_eq!(w.is_completed, run.steps.last().unwrap().st == St::Win, "analyse:completed", "result of {}", ctx);
    let s = stats(board);
    let p = &w.static_params;
    ensure_eq!((p.op, p.isl), (s.op, s.isl), "analyse:static", "openings and islands of {}", ctx);
    ensure_eq!([p.cell0, p.cell1, p.cell2, p.cell3, p.cell4, p.cell5, p.cell6, p.cell7, p.cell8], s.nums, "analyse:cells", "cell counts of {}", ctx);
    if let Some(f) = run.first {
        let t = evs[f].ms as f64 / 1000.0;
        ensure!((w.get_video_start_time().unwrap() + t).abs() < 1e-9, "analyse:start", "start {} of {}", w.get_video_start_time().unwrap(), ctx);
        let e = evs.last().unwrap().ms as f64 / 1000.0 - t;
        ensure!((w.get_video_end_time().unwrap() - e).abs() < 1e-9, "analyse:end", "end {} of {}", w.get_video_end_time().unwrap(), ctx);
    }
    // a second analysis gives the same
    lib("analyse", || w.analyse())?;
    check_states!(*w, run, evs, ctx);
    Ok(())
}
fn c16_evf(s: &mut Src, c: &mut Case) -> R {
    let board = video_board(s);
    let pix = pix_for(s, &board);
    let o = opts(s, 30);
    let raw = plain(s, &board, o, (2, 3));
    let start = dts(s);
    if s.chance(1, 60) {
        FILL.with(|f| f.set(s.us(220, 280)));
    }
    let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, start, 0xff_ffff);
    FILL.with(|f| f.set(0));
    let (h, b) = evf_case(s, &board, &evs, pix);
    c.input("board", &board);
    c.input("head", &h);
    c.input("events", &evs);
    let ctx = format!("{:?} {:?} {:?}", board, h, evs);
    let (mut w, r) = parse(Fmt::Evf, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    decoded(&w, Fmt::Evf, &b, &board, &evs, h.bbbv as usize, h.rtime, &ctx)?;
    ensure_eq!((w.is_completed, w.is_offical, w.is_fair), (h.flags & 0x80 != 0, h.flags & 0x40 != 0, h.flags & 0x20 != 0), "decode:flags", "flags of {}", ctx);
    ensure_eq!((w.level, w.mode, w.cell_pixel_size), (level_of(&board), h.mode, h.pix), "decode:head", "level, mode, cell size of {}", ctx);
    let st = [&w.software, &w.player_designator, &w.race_designator, &w.uniqueness_designator, &w.start_time, &w.end_time, &w.country, &w.device_uuid];
    let hs: Vec<&Vec<u8>> = h.strings.iter().collect();
    ensure_eq!(st.to_vec(), hs, "decode:strings", "strings of {}", ctx);
    ensure_eq!(w.get_checksum().unwrap(), h.checksum.unwrap_or([0; 32]), "decode:checksum", "check sum of {}", ctx);
    analysed(&mut w, c, &board, pix, &evs, &ctx)
}
fn avf_case(s: &mut Src) -> (B, AvfHead, Vec<RE>, Vec<u8>, Vec<u8>, u32) {
    let (board, level) = match s.weighted(&[12, 2, 1, 1, 3, 1]) {
        4 => (strip(s, 40), 6),
        5 => (strip(s, 255), 6),
        0 => (gen::board(s, 1, 9, 1, 9), 6),
        1 => (gen::board_mines(s, 8, 8, 10), 3),
        2 => (gen::board_mines(s, 16, 16, 40), 4),
        _ => (gen::board_mines(s, 16, 30, 99), 5),
    };
    let o = opts(s, 30);
    let raw = plain(s, &board, o, (2, 3));
    let start = s.us(0, 99) as u32 * 10;
    let mut evs = replay(s, &board, 16, &raw, &EVF_NAMES[..7], 10, start, 60000000);
    // this format keeps the true place of the pointer outside the board
    let (rows, cols) = dims(&board);
    for e in evs.iter_mut() {
        if e.y as usize >= rows * 16 || e.x as usize >= cols * 16 {
            let (dx, dy) = (s.us(0, 200) as u16, s.us(0, 200) as u16);
            match s.below(4) {
                0 => (e.x, e.y) = (s.us(0, cols * 16 - 1) as u16, (rows * 16) as u16 + dy),
                1 => (e.x, e.y) = ((cols * 16) as u16 + dx, s.us(0, rows * 16 - 1) as u16),
                2 => (e.x, e.y) = ((cols * 16) as u16 + dx, (rows * 16) as u16 + dy),
                _ => {}
            }
        }
    }
    // the first record has seconds 1 and a small x
    if evs[0].x > 511 || (evs[0].e == "mv" && evs[0].x > 255) {
        evs[0].x = 7;
    }
    let codes: Vec<u8> = evs.iter().map(|e| avf_code(e.e, s.chance(1, 8))).collect();
    let t = s.us(0, 99999) as u32 * 10;
    let (whole, frac) = ((t + 1000) / 1000, (t + 1000) % 1000 / 10);
    let sep = if s.chance(1, 4) { ',' } else { '.' };
    let mid = match s.weighted(&[3, 1, 1, 1]) {
        0 => b"|".to_vec(),
        1 => vec![],
        3 => {
            // single separators and letters B which do not start the 3BV
            let mut m: Vec<u8> = vec![*s.pick(b"|x1")];
            for _ in 0..s.us(0, 5) {
                let b = *s.pick(b"|Bx1");
                m.push(if b == b'B' && m.last() == Some(&b'|') { b'x' } else { b });
            }
            m.push(b'|');
            m
        }
        _ => {
            let mut m: Vec<u8> = b"x".to_vec();
            m.extend(text(s, 6));
            m.push(b'|');
            m
        }
    };
    let h = AvfHead {
        level,
        skip: [s.byte(), s.byte(), s.byte(), s.byte(), s.byte()],
        before_text: bytes(s, 10, b"["),
        bracket: b'0' + s.below(4) as u8,
        start: bytes(s, 24, b"|"),
        end: bytes(s, 24, b"|"),
        mid,
        bbbv: stats(&board).bbbv,
        t_text: format!("{}{}{:02}", whole, sep, frac),
        filler: {
            // a 1 is the seconds of the first event only after a byte of at most 1
            let n = s.us(1, 8);
            let mut f: Vec<u8> = vec![];
            for i in 0..n {
                let one = i > 0 && i + 1 < n && f[i - 1] > 1 && s.chance(1, 4);
                f.push(if one { 1 } else { s.us(2, 255) as u8 });
            }
            f
        },
        before_skin: bytes(s, 10, b"S"),
        skin: bytes(s, 8, b"\r"),
        name: field(s, 400, b"\r"),
        tail: bytes(s, 8, &[]),
    };
    let b = avf(&board, &h, &evs, &codes);
    (board, h, evs, codes, b, t)
}
fn c16_avf(s: &mut Src, c: &mut Case) -> R {
    let (board, h, evs, codes, b, t) = avf_case(s);
    c.input("board", &board);
    c.input("head", &h);
    c.input("events", &evs);
    let ctx = format!("{:?} {:?} {:?} codes {:?}", board, h, evs, codes);
    let (mut w, r) = parse(Fmt::Avf, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    decoded(&w, Fmt::Avf, &b, &board, &evs, h.bbbv, t, &ctx)?;
    ensure_eq!((w.level, w.is_offical, w.is_fair, w.cell_pixel_size), (h.level, true, true, 16), "decode:head", "level and flags of {}", ctx);
    ensure_eq!((&w.start_time, &w.end_time, &w.player_designator, &w.software), (&h.start, &h.end, &h.name, &b"Arbiter".to_vec()), "decode:strings", "strings of {}", ctx);
    analysed(&mut w, c, &board, 16, &evs, &ctx)
}
/// (board, head, decoded events, file, rtime)
fn rmv_case(s: &mut Src) -> (B, RmvHead, Vec<RE>, Vec<u8>) {
    let board = if s.chance(1, 8) { strip(s, 255) } else { video_board(s) };
    let o = opts(s, 30);
    rmv_of(s, &board, o)
}
fn rmv_of(s: &mut Src, board: &B, o: Opts) -> (B, RmvHead, Vec<RE>, Vec<u8>) {
    let board = board.clone();
    let (rows, cols) = dims(&board);
    let o = Opts { aliases: false, ..o };
    let raw = plain(s, &board, o, (2, 3));
    let start = dts(s);
    let mut evs = replay(s, &board, 16, &raw, &EVF_NAMES[..7], 1, start, 0xff_ffff);
    let mut pf: Vec<P> = vec![];
    let preflags = if s.chance(1, 3) {
        let n = s.us(0, 4);
        for _ in 0..n {
            let p = (s.us(0, rows - 1), s.us(0, cols - 1));
            if !pf.contains(&p) {
                pf.push(p);
            }
        }
        Some(pf.clone())
    } else {
        None
    };
    // the file starts after the first press: the parser supplies it at the place of the first record
    let start = evs.iter().position(|e| e.e == "lc");
    let file: Vec<RE> = match start {
        Some(i) if evs.len() > i + 1 => evs.split_off(i + 1),
        _ => vec![RE { e: "lr", ms: 3, x: 5, y: 5 }],
    };
    let decode = |file: &Vec<RE>| -> Vec<RE> {
        let mut d: Vec<RE> = pf.iter().map(|p| RE { e: "pf", ms: 0, x: p.1 as u16 * 16, y: p.0 as u16 * 16 }).collect();
        d.push(RE { e: "lc", ..file[0].clone() });
        d.extend(file.iter().cloned());
        d
    };
    // only what is legal after the supplied press
    let mut kept: Vec<RE> = vec![];
    let mut g = Game::new(&board);
    for p in &pf {
        g.event("pf", *p);
    }
    let mut started = false;
    for e in file {
        let p = (e.y as usize / 16, e.x as usize / 16);
        // before the game begins nothing happens outside the board
        if (!started || matches!(g.st, St::Ready | St::Pre)) && (p.0 >= rows || p.1 >= cols) {
            continue;
        }
        if !started {
            g.event("lc", p);
            started = true;
        }
        if g.event(e.e, p) != Eff::Illegal {
            kept.push(e);
        } else if kept.is_empty() {
            // keep the first record: it decides where the press was
            kept.push(RE { e: "mv", ..e });
        }
    }
    if kept.is_empty() {
        kept.push(RE { e: "mv", ms: 0, x: 0, y: 0 });
    }
    let dec = decode(&kept);
    let n_ign = s.us(0, 3);
    let h = RmvHead {
        junk: bytes(s, 6, &[]),
        result: if s.chance(3, 4) {
            let b3 = stats(&board).bbbv.min(999);
            let t = match s.below(3) {
                0 => format!("{:3}", b3),
                1 => format!("{:03}", b3),
                _ => format!("{:<3}", b3),
            };
            Some((t.into_bytes(), bytes(s, 20, &[]).into_iter().chain([b'1'; 10]).take(10).collect(), s.us(0, 8)))
        } else {
            None
        },
        short_len: s.us(3, 35),
        version_len: s.us(0, 12),
        players: {
            let n = s.us(0, 4);
            (0..n).map(|_| field(s, 255, &[])).collect()
        },
        nf: s.below(2) as u8,
        mode: s.below(4) as u8,
        level: s.below(4) as u8,
        extra_props: s.us(0, 4),
        preflags,
        ignored: (0..n_ign).map(|_| (s.us(0, kept.len().max(1) - 1), *s.pick(&[0u8, 9, 10, 11, 12, 13, 14, 18, 20, 23, 27]))).collect(),
        end: s.us(15, 17) as u8,
    };
    // as stored: offsets of the window, and anything beyond the board for outside
    let raw_file: Vec<RE> = kept
        .iter()
        .map(|e| {
            if e.y as usize >= rows * 16 {
                match s.below(4) {
                    0 => RE { x: s.us(0, 11) as u16, y: 60, ..e.clone() },
                    1 => RE { x: 20, y: s.us(0, 55) as u16, ..e.clone() },
                    2 => RE { x: (cols * 16 + 12 + s.us(0, 100)) as u16, y: 60, ..e.clone() },
                    _ => RE { x: 20, y: (rows * 16 + 56 + s.us(0, 100)) as u16, ..e.clone() },
                }
            } else {
                RE { x: e.x + 12, y: e.y + 56, ..e.clone() }
            }
        })
        .collect();
    let b = rmv(&board, &h, &raw_file);
    (board, h, dec, b)
}
fn c16_rmv(s: &mut Src, c: &mut Case) -> R {
    let (board, h, evs, b) = rmv_case(s);
    c.input("board", &board);
    c.input("head", &h);
    c.input("events", &evs);
    let ctx = format!("{:?} {:?} {:?}", board, h, evs);
    let (mut w, r) = parse(Fmt::Rmv, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    let bbbv = if h.result.is_some() { stats(&board).bbbv.min(999) } else { 0 };
    decoded(&w, Fmt::Rmv, &b, &board, &evs, bbbv, evs.last().unwrap().ms, &ctx)?;
    ensure_eq!((w.level, w.mode, w.nf, w.is_offical, w.is_fair, w.cell_pixel_size), (h.level + 3, h.mode as u16, h.nf == 1, true, true, 16), "decode:head", "level, mode and flags of {}", ctx);
    let e = vec![];
    let name = h.players.first().unwrap_or(&e);
    let country = h.players.get(2).unwrap_or(&e);
    let stamp = h.result.as_ref().map_or(&e, |r| &r.1);
    ensure_eq!((&w.player_designator, &w.country, &w.start_time, &w.software), (name, country, stamp, &b"Viennasweeper".to_vec()), "decode:strings", "strings of {}", ctx);
    analysed(&mut w, c, &board, 16, &evs, &ctx)
}
fn mvf_case(s: &mut Src) -> (B, MvfHead, Vec<MvfRec>, Vec<RE>, Vec<u8>) {
    let board = match s.weighted(&[10, 1, 1, 3]) {
        3 => strip(s, 31),
        0 => gen::board(s, 1, 9, 1, 9),
        1 => gen::board_mines(s, 8, 8, 10),
        _ => gen::board_mines(s, 16, 30, 99),
    };
    let o = Opts { aliases: false, ..opts(s, 30) };
    let raw = plain(s, &board, o, (2, 3));
    let start = dts(s) / 10 * 10;
    let mut evs = replay(s, &board, 16, &raw, &EVF_NAMES[..7], 10, start, 1023990);
    // two buttons that change in one record are reported in the order below
    let rank = |e: &str| ["lc", "rc", "mc", "lr", "rr", "mr"].iter().position(|x| *x == e);
    let mut merged = vec![false; evs.len()];
    if s.chance(1, 3) {
        for i in 2..evs.len() {
            let (a, b) = (evs[i - 1].clone(), evs[i].clone());
            let cell = |e: &RE| (e.x / 16, e.y / 16);
            if let (Some(x), Some(y)) = (rank(a.e), rank(b.e)) {
                if x < y && x % 3 != y % 3 && cell(&a) == cell(&b) && !merged[i - 1] && s.chance(1, 2) {
                    merged[i] = true;
                    evs[i - 1].ms = b.ms;
                    (evs[i - 1].x, evs[i - 1].y) = (b.x, b.y);
                }
            }
        }
    }
    let (mut l, mut r, mut m) = (false, false, false);
    let mut recs: Vec<MvfRec> = vec![];
    for (e, merged) in evs.iter().zip(merged) {
        match e.e {
            "lc" => l = true,
            "lr" => l = false,
            "rc" => r = true,
            "rr" => r = false,
            "mc" => m = true,
            "mr" => m = false,
            _ => {}
        }
        if merged {
            recs.pop();
        }
        recs.push(MvfRec { l, r, m, x: e.x, y: e.y, cs: e.ms / 10 });
    }
    let dec = mvf_events(&recs);
    let h = MvfHead {
        junk: bytes(s, 6, &[]),
        level: s.us(3, 6) as u8,
        mode: s.below(5) as u8,
        rtime_cs: s.us(0, 99999) as u32,
        bbbv: stats(&board).bbbv as u16,
        name: field(s, 255, &[]),
        leading: s.below(65536) as u16,
    };
    let b = mvf(&board, &h, &recs);
    (board, h, recs, dec, b)
}
fn c16_mvf(s: &mut Src, c: &mut Case) -> R {
    let (board, h, recs, evs, b) = mvf_case(s);
    c.input("board", &board);
    c.input("head", &h);
    c.input("records", &recs);
    let ctx = format!("{:?} {:?} {:?}", board, h, recs);
    let (mut w, r) = parse(Fmt::Mvf, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    decoded(&w, Fmt::Mvf, &b, &board, &evs, h.bbbv as usize, h.rtime_cs * 10, &ctx)?;
    let mode = match h.mode {
        1 => 0,
        2 => 3,
        3 => 1,
        _ => 2,
    };
    ensure_eq!((w.level, w.mode, w.is_offical, w.is_fair, w.cell_pixel_size), (h.level, mode, true, true, 16), "decode:head", "level, mode and flags of {}", ctx);
    ensure_eq!((&w.player_designator, &w.software), (&h.name, &b"0.97 beta".to_vec()), "decode:strings", "strings of {}", ctx);
    analysed(&mut w, c, &board, 16, &evs, &ctx)
}
/// Recordings of tens of thousands of events.
fn c16_long(s: &mut Src, c: &mut Case) -> R {
    let f = *s.pick(&[Fmt::Evf, Fmt::Evf, Fmt::Avf, Fmt::Rmv, Fmt::Mvf]);
    let n = if f == Fmt::Evf { s.us(66000, 150000) } else { s.us(20000, 40000) };
    FILL.with(|f| f.set(n));
    let (board, evs, b, pix) = match f {
        Fmt::Evf => {
            let board = gen::board(s, 2, 6, 2, 6);
            let pix = pix_for(s, &board);
            let o = opts(s, 30);
            let raw = plain(s, &board, o, (2, 3));
            let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, 0, 0xff_ffff);
            let (_, b) = evf_case(s, &board, &evs, pix);
            (board, evs, b, pix)
        }
        Fmt::Avf => {
            let (board, _, evs, _, b, _) = avf_case(s);
            (board, evs, b, 16)
        }
        Fmt::Rmv => {
            let (board, _, evs, b) = rmv_case(s);
            (board, evs, b, 16)
        }
        Fmt::Mvf => {
            let (board, _, _, evs, b) = mvf_case(s);
            (board, evs, b, 16)
        }
    };
    FILL.with(|f| f.set(0));
    c.input("format", &f);
    c.input("board", &board);
    c.input("events", &(evs.len(), &evs[..evs.len().min(20)]));
    let ctx = format!("a recording of {} events on {:?} as {:?}", evs.len(), board, f);
    let (mut w, r) = parse(f, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    ensure_eq!((w.height, w.width, &w.board), (board.len(), board[0].len(), &board), "decode:board", "board of {}", ctx);
    check_events(&w, &evs, &ctx)?;
    analysed(&mut w, c, &board, pix, &evs, &ctx)?;
    c.nontrivial(evs.len() > 15000);
    Ok(())
}
/// Boards up to the largest size a file can hold.
fn c16_large(s: &mut Src, c: &mut Case) -> R {
    let board = gen::large(s);
    let f = *s.pick(&[Fmt::Evf, Fmt::Rmv]);
    let o = opts(s, 12);
    let raw = plain(s, &board, o, (0, 1));
    let (evs, b, pix) = if f == Fmt::Evf {
        let pix = s.us(2, 40);
        let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, 0, 0xff_ffff);
        let (_, b) = evf_case(s, &board, &evs, pix);
        (evs, b, pix)
    } else {
        let (_, _, evs, b) = rmv_of(s, &board, o);
        (evs, b, 16)
    };
    c.input("board", &(dims(&board), mines_of(&board)));
    c.input("events", &evs);
    let ctx = format!("{:?} on {:?} with mines {:?}", evs, dims(&board), mines_of(&board));
    let (mut w, r) = parse(f, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    ensure_eq!((w.height, w.width, w.mine_num), (board.len(), board[0].len(), mine_count(&board)), "decode:size", "size of {}", ctx);
    ensure!(w.board == board, "decode:board", "board of {}", ctx);
    check_events(&w, &evs, &ctx)?;
    analysed(&mut w, c, &board, pix, &evs, &ctx)
}

// ---------- C17 ----------
pub fn valid_file(s: &mut Src, f: Fmt) -> Vec<u8> {
    match f {
        Fmt::Evf => {
            let board = gen::board(s, 1, 6, 1, 6);
            let pix = pix_for(s, &board);
            let o = opts(s, 8);
            let raw = plain(s, &board, o, (1, 4));
            let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, 0, 0xff_ffff);
            evf_case(s, &board, &evs, pix).1
        }
        Fmt::Avf => avf_case(s).4,
        Fmt::Rmv => rmv_case(s).3,
        Fmt::Mvf => mvf_case(s).4,
    }
}
pub fn damage(s: &mut Src, b: &mut Vec<u8>, other: &[u8], header: usize) {
    let n = s.us(1, 4);
    for _ in 0..n {
        if b.is_empty() {
            b.push(s.byte());
        }
        let at = if s.chance(2, 3) { s.us(0, header.min(b.len()) - 1) } else { s.us(0, b.len() - 1) };
        match s.weighted(&[3, 4, 6, 3, 2, 2, 2]) {
            0 => {
                b.truncate(at);
            }
            1 => b[at] ^= 1 << s.below(8),
            2 => {
                let v = *s.pick(&[0u8, 1, 2, 255, 254, 128, 127, 16, 9, 3]);
                b[at] = if s.chance(1, 2) { v } else { s.byte() };
            }
            3 => {
                // a two-byte field
                let v = *s.pick(&[0u16, 1, 0xffff, 0x100, 0x7fff, 2, 3]);
                b[at] = (v >> 8) as u8;
                if at + 1 < b.len() {
                    b[at + 1] = v as u8;
                }
            }
            4 => {
                let e = (at + s.us(0, 12)).min(b.len());
                b.drain(at..e);
            }
            5 => {
                let ins = bytes(s, 6, &[]);
                b.splice(at..at, ins);
            }
            _ => {
                if !other.is_empty() {
                    let o = s.us(0, other.len() - 1);
                    let e = (o + s.us(1, 60)).min(other.len());
                    let ins = other[o..e].to_vec();
                    if s.chance(1, 2) {
                        b.truncate(at);
                        b.extend(&other[o..]);
                    } else {
                        b.splice(at..at, ins);
                    }
                }
            }
        }
    }
}
/// Every query on a parsed replay; only crashes matter.
fn exercise(s: &mut Src, c: &mut Case, v: &mut V) -> R {
    c.class("parsed");
    lib("analyse", || v.analyse())?;
    let n = v.video_action_state_recorder.len();
    let small = v.width * v.height <= 64;
    let a = lib("start", || v.get_video_start_time())?.unwrap();
    let b = lib("end", || v.get_video_end_time())?.unwrap();
    for _ in 0..s.us(1, 4) {
        if s.chance(1, 2) && n > 0 {
            let id = s.us(0, n - 1);
            let _ = lib("set_current_event_id", || v.set_current_event_id(id))?;
        } else {
            let f = s.us(0, 1000) as f64 / 1000.0;
            let t = match s.weighted(&[6, 1, 1]) {
                0 => a + (b - a) * f,
                1 => a - 1.0,
                _ => b + 1.0,
            };
            lib("set_current_time", || v.set_current_time(t))?;
        }
        lib("getters", || {
            let _ = (v.get_game_board(), v.get_left(), v.get_right(), v.get_double(), v.get_cl(), v.get_flag());
            let _ = (v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s(), v.get_path());
            let _ = (v.get_etime(), v.get_bbbv_s(), v.get_bbbv_solved(), v.get_stnb(), v.get_rqp(), v.get_qg(), v.get_ce(), v.get_ce_s());
            let _ = (v.get_corr(), v.get_thrp(), v.get_ioe(), v.get_op_solved(), v.get_isl_solved(), v.get_mouse_state(), v.get_checksum());
            let _ = (v.get_time(), v.get_rtime(), v.get_rtime_ms(), v.get_pix_size(), v.get_raw_data());
        })?;
        let _ = lib("get_x_y", || v.get_x_y())?;
        if small {
            lib("get_game_board_poss", || v.get_game_board_poss())?;
        }
    }
    lib("set_video_playing_pix_size", || v.set_video_playing_pix_size(20))?;
    let _ = lib("get_x_y", || v.get_x_y())?;
    lib("is_valid", || v.is_valid())?;
    if small && n <= 400 {
        lib("analyse_for_features", || v.analyse_for_features(FEATURES.to_vec()))?;
    }
    Ok(())
}
pub const FMTS: [Fmt; 4] = [Fmt::Evf, Fmt::Avf, Fmt::Rmv, Fmt::Mvf];
fn c17_damaged(s: &mut Src, c: &mut Case) -> R {
    let f = *s.pick(&FMTS);
    let mut b = valid_file(s, f);
    let orig = b.clone();
    let other = if s.chance(1, 4) {
        let g = if s.chance(1, 2) { f } else { *s.pick(&FMTS) };
        valid_file(s, g)
    } else {
        b.clone()
    };
    let header = match f {
        Fmt::Evf => 40,
        Fmt::Avf => 120,
        Fmt::Rmv => 130,
        Fmt::Mvf => 140,
    };
    damage(s, &mut b, &other, header);
    c.input("format", &f);
    c.input("file", &show(&b));
    let (mut v, r) = parse(f, &b)?;
    c.nontrivial(b != orig && (r.is_ok() || b.len() > 8));
    match r {
        Ok(()) => exercise(s, c, &mut v),
        Err(_) => {
            c.class("refused");
            Ok(())
        }
    }
}
fn c17_events(s: &mut Src, c: &mut Case) -> R {
    let f = *s.pick(&FMTS);
    let board = gen::board(s, 1, 6, 1, 6);
    let (rows, cols) = dims(&board);
    let n = s.us(0, 20);
    let pix = if f == Fmt::Evf { pix_for(s, &board) } else { 16 };
    let names: Vec<&'static str> = match f {
        Fmt::Evf => EVF_NAMES.iter().copied().chain(["ub"]).collect(),
        Fmt::Avf => EVF_NAMES[..7].iter().copied().chain(["sc"]).collect(),
        _ => EVF_NAMES[..7].to_vec(),
    };
    let mut evs = vec![];
    let mut t = 0u32;
    for _ in 0..n {
        let e = *s.pick(&names);
        let (x, y) = match s.weighted(&[6, 1, 1, 1, 1]) {
            0 => (s.us(0, cols * pix - 1), s.us(0, rows * pix - 1)),
            1 => (cols * pix, rows * pix),
            2 => (s.us(0, 65535), s.us(0, rows * pix - 1)),
            3 => (s.us(0, cols * pix - 1), s.us(0, 65535)),
            _ => (s.us(0, 65535), s.us(0, 65535)),
        };
        t = if s.chance(1, 10) { s.us(0, 60000) as u32 } else { t + s.us(0, 300) as u32 };
        evs.push(RE { e, ms: t / 10 * 10, x: x.min(65535) as u16, y: y.min(65535) as u16 });
    }
    let b = match f {
        Fmt::Evf => evf_case(s, &board, &evs, pix).1,
        Fmt::Avf => {
            let (_, mut h, _, _, _, _) = avf_case(s);
            h.level = 6;
            if let Some(e) = evs.first_mut() {
                e.ms %= 1000;
                e.x %= 256;
            }
            let codes: Vec<u8> = evs.iter().map(|e| avf_code(e.e, s.chance(1, 8))).collect();
            avf(&board, &h, &evs, &codes)
        }
        Fmt::Rmv => {
            let (_, mut h, _, _) = rmv_case(s);
            h.ignored.clear();
            if let Some(pf) = &mut h.preflags {
                for p in pf.iter_mut() {
                    *p = (s.us(0, 255), s.us(0, 255));
                }
            }
            rmv(&board, &h, &evs)
        }
        Fmt::Mvf => {
            let (_, h, _, _, _) = mvf_case(s);
            let recs: Vec<MvfRec> = evs.iter().map(|e| MvfRec { l: s.chance(1, 2), r: s.chance(1, 3), m: s.chance(1, 5), x: e.x % 512, y: e.y % 512, cs: e.ms / 10 }).collect();
            mvf(&board, &h, &recs)
        }
    };
    c.input("format", &f);
    c.input("board", &board);
    c.input("events", &evs);
    let (mut v, r) = parse(f, &b)?;
    match r {
        Ok(()) => {
            c.nontrivial(true);
            exercise(s, c, &mut v)
        }
        Err(_) => {
            c.class("refused");
            Ok(())
        }
    }
}
fn c17_wild(s: &mut Src, c: &mut Case) -> R {
    let f = *s.pick(&FMTS);
    let mut b: Vec<u8> = vec![];
    match f {
        Fmt::Rmv => {
            if s.chance(7, 8) {
                b.extend(b"*rmv");
                b.extend([0, 1]);
            }
        }
        Fmt::Mvf => {
            if s.chance(7, 8) {
                b.extend([0x11, 0x4D]);
                b.extend(vec![7; 25]);
                if s.chance(3, 4) {
                    b.push(b'5');
                    b.extend(vec![7; 46]);
                }
            }
        }
        Fmt::Avf => {
            if s.chance(7, 8) {
                b.extend([1, 2, 3, 4, 5]);
                b.push(s.us(2, 7) as u8);
            }
        }
        Fmt::Evf => {
            if s.chance(1, 2) {
                b.extend([0, 0x80, s.us(0, 5) as u8, s.us(0, 5) as u8, 0, s.us(0, 5) as u8, s.us(0, 20) as u8]);
            }
        }
    }
    let n = s.us(0, 120);
    let small = s.chance(1, 2);
    for _ in 0..n {
        b.push(if small { *s.pick(&[0u8, 0, 1, 2, 3, 5, 8, 9, b'|', b'[', b'B', b'T', b']', b'1', b'S', b'k', b'i', b'n', b':', b'\r', 255]) } else { s.byte() });
    }
    c.input("format", &f);
    c.input("file", &show(&b));
    c.nontrivial(b.len() > 8);
    let (mut v, r) = parse(f, &b)?;
    match r {
        Ok(()) => exercise(s, c, &mut v),
        Err(_) => {
            c.class("refused");
            Ok(())
        }
    }
}

// ---------- C18 ----------
struct Loaded {
    v: V,
    board: B,
    evs: Vec<RE>,
    pix: usize,
    run: Run,
    mines: usize,
}
/// A parsed and analysed replay; `big` allows standard sizes.
fn load(s: &mut Src, c: &mut Case, board: B) -> Result<Loaded, Fail> {
    let (v, board, evs, pix) = if s.chance(1, 4) {
        let mut c2 = Case::default();
        let (board, evs, b, f) = match s.below(3) {
            0 => {
                let (b, _, e, _, f, _) = avf_case(s);
                (b, e, f, Fmt::Avf)
            }
            1 => {
                let (b, _, e, f) = rmv_case(s);
                (b, e, f, Fmt::Rmv)
            }
            _ => {
                let (b, _, _, e, f) = mvf_case(s);
                (b, e, f, Fmt::Mvf)
            }
        };
        let _ = &mut c2;
        let (mut v, r) = parse(f, &b)?;
        ensure!(r.is_ok(), "decode:refused", "{:?}", r);
        lib("analyse", || v.analyse())?;
        (v, board, evs, 16)
    } else {
        let pix = pix_for(s, &board);
        let o = opts(s, 25);
        let mut raw = plain(s, &board, o, (1, 2));
        // the pointer stays outside for a long time
        if s.chance(1, 20) && !raw.is_empty() {
            let at = s.us(0, raw.len() - 1);
            let n = s.us(10, 150);
            let run = vec![("mv", dims(&board)); n];
            raw.splice(at..at, run);
            c.class("long outside");
        }
        let start = dts(s);
        let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, start, 0xff_ffff);
        let (_, b) = evf_case(s, &board, &evs, pix);
        let (mut v, r) = parse(Fmt::Evf, &b)?;
        ensure!(r.is_ok(), "decode:refused", "{:?}", r);
        lib("analyse", || v.analyse())?;
        (v, board, evs, pix)
    };
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &(evs.len(), &evs[..evs.len().min(300)]));
    // a replay may be analysed more than once
    let again = s.chance(1, 15);
    c.input("again", &again);
    let mut v = v;
    if again {
        lib("analyse", || v.analyse())?;
    }
    let run = play(&board, pix, &evs);
    let mines = mine_count(&board);
    Ok(Loaded { v, board, evs, pix, run, mines })
}
#[derive(Clone, Copy, Debug)]
enum Seek {
    Time(f64),
    Id(usize),
}
impl Loaded {
    /// Time of an event in the floating-point form the decoder gave it (which C16 compares with what was written)
    fn time(&self, i: usize) -> f64 {
        let t = self.evs[i].ms as f64 / 1000.0;
        self.v.video_action_state_recorder.get(i).map(|e| e.time).filter(|x| (x - t).abs() < 1e-9).unwrap_or(t)
    }
    /// Time of the first click on the clock of the file
    fn delta(&self) -> f64 {
        let d = self.run.first.map_or(0.0, |i| self.time(i));
        self.v.get_video_start_time().ok().map(|x| -x).filter(|x| (x - d).abs() < 1e-9).unwrap_or(d)
    }
}
fn seeks(s: &mut Src, l: &Loaded, n: usize) -> Vec<Seek> {
    let d = l.delta();
    (0..n)
        .map(|_| {
            let i = s.us(0, l.evs.len() - 1);
            let t = l.time(i) - d;
            match s.weighted(&[3, 4, 3, 3, 1, 1]) {
                0 => Seek::Id(i),
                1 => Seek::Time(t),
                2 => Seek::Time(t + s.us(0, 500) as f64 / 1000.0 + 0.0003),
                3 => Seek::Time(t - s.us(0, 500) as f64 / 1000.0 - 0.0003),
                4 => Seek::Time(-1e4),
                _ => Seek::Time(1e5),
            }
        })
        .collect()
}
/// Performs the seek; returns the events that may be shown and the time shown.
fn do_seek(l: &mut Loaded, k: Seek) -> Result<(Vec<usize>, f64), Fail> {
    let n = l.evs.len();
    let d = l.delta();
    match k {
        Seek::Id(i) => {
            let r = lib("set_current_event_id", || l.v.set_current_event_id(i))?;
            ensure!(r.is_ok(), "seek:refused", "set_current_event_id refused");
            Ok((vec![i], l.time(i) - d))
        }
        Seek::Time(t) => {
            lib("set_current_time", || l.v.set_current_time(t))?;
            // among events at one time the last is shown; the comparison may be made on the clock of the file
            // or on that of the game, which may differ in the last bit
            let time = |i: usize| l.time(i);
            let at = |f: &dyn Fn(usize) -> bool| (0..n).rev().find(|i| f(*i)).unwrap_or(0);
            let mut ok = vec![at(&|i| time(i) - d <= t), at(&|i| time(i) <= t + d)];
            ok.dedup();
            let (lo, hi) = (-d, l.time(n - 1) - d);
            Ok((ok, t.max(lo).min(hi)))
        }
    }
}
fn c18_seek(s: &mut Src, c: &mut Case) -> R {
    let board = video_board(s);
    let l = load(s, c, board)?;
    seek_all(s, c, l)
}
/// Recordings of more than 65536 events.
fn c18_long(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 2, 5, 2, 5);
    let n = s.us(66000, 140000);
    FILL.with(|f| f.set(n));
    let pix = s.us(1, 40);
    let o = opts(s, 25);
    let raw = plain(s, &board, o, (1, 2));
    let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, 0, 0xff_ffff);
    FILL.with(|f| f.set(0));
    let (_, b) = evf_case(s, &board, &evs, pix);
    let (mut v, r) = parse(Fmt::Evf, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}", r);
    lib("analyse", || v.analyse())?;
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &(evs.len(), &evs[..evs.len().min(300)]));
    let run = play(&board, pix, &evs);
    let mines = mine_count(&board);
    seek_all(s, c, Loaded { v, board, evs, pix, run, mines })
}
fn seek_all(s: &mut Src, c: &mut Case, mut l: Loaded) -> R {
    if l.run.first.is_none() && l.run.marks > 0 {
        // a replay whose game never starts has no defined zero of time
        c.class("never started");
        return Ok(());
    }
    let n = s.us(1, 10);
    let ks = seeks(s, &l, n);
    c.input("seeks", &ks);
    let play_pix = s.us(1, 64);
    let scaled = s.chance(1, 3);
    c.input("playing cell size", &(scaled, play_pix));
    if scaled {
        lib("set_video_playing_pix_size", || l.v.set_video_playing_pix_size(play_pix as u8))?;
    }
    let (rows, cols) = dims(&l.board);
    for (j, k) in ks.iter().enumerate() {
        let (ok, t) = do_seek(&mut l, *k)?;
        let ctx = format!("after seek {} of {:?} in {} events {:?} on {:?} (cell size {})", j, ks, l.evs.len(), &l.evs[..l.evs.len().min(300)], l.board, l.pix);
        let id = l.v.current_event_id;
        ensure!(ok.contains(&id), "seek:event", "event {} shown instead of {:?} {}", id, ok, ctx);
        ensure!((l.v.current_time - t).abs() < 1e-9, "seek:time", "time {} shown instead of {} {}", l.v.current_time, t, ctx);
        ensure!((lib("get_time", || l.v.get_time())? - t).abs() < 1e-9, "seek:time", "get_time {}", ctx);
        let x = &l.run.steps[id];
        let v = &l.v;
        ensure_eq!(lib("get_game_board", || v.get_game_board())?, x.gb, "seek:board", "board shown {}", ctx);
        let got = lib("getters", || [v.get_left(), v.get_right(), v.get_double(), v.get_ce().unwrap_or(9999), v.get_flag(), v.get_bbbv_solved().unwrap_or(9999)])?;
        for i in 0..6 {
            ensure_eq!(got[i], x.k[i], &format!("seek:{}", KEYS[i]), "{} {}", KEYS[i], ctx);
        }
        ensure_eq!(v.get_cl(), x.k[0] + x.k[1] + x.k[2], "seek:clicks", "clicks {}", ctx);
        let m = match x.mouse {
            Ms::UpUp => 1,
            Ms::UpDown => 2,
            Ms::UpDownNotFlag => 3,
            Ms::DownUp => 4,
            Ms::Chording => 5,
            Ms::ChordingNotFlag => 6,
            Ms::DownUpAfterChording => 7,
        };
        ensure_eq!(v.get_mouse_state(), m, "seek:mouse", "mouse state {}", ctx);
        if l.run.end.map_or(true, |e| id <= e) {
            ensure!((v.get_path() - x.path).abs() < 1e-6 * (1.0 + x.path), "seek:path", "path {} instead of {} {}", v.get_path(), x.path, ctx);
        }
        // the pointer: the last position on the board; a position below or above the board, which the formats
        // do not record (outside means both coordinates), may count as either
        let inx = |i: &usize| (l.evs[*i].x as usize) < cols * l.pix;
        let iny = |i: &usize| (l.evs[*i].y as usize) < rows * l.pix;
        let got = lib("get_x_y", || v.get_x_y())?;
        if let Some(i) = (0..=id).rev().find(|i| inx(i) && iny(i)) {
            let f = if scaled { play_pix as f64 / l.pix as f64 } else { 1.0 };
            let ok = [i, (0..=id).rev().find(inx).unwrap_or(i)].map(|i| (l.evs[i].x as f64 * f, l.evs[i].y as f64 * f));
            ensure!(got.is_ok(), "seek:xy", "no position {}", ctx);
            let (gx, gy) = got.unwrap();
            ensure!(ok.iter().any(|(ex, ey)| (gx as f64 - ex).abs() < 1.0 && (gy as f64 - ey).abs() < 1.0), "seek:xy", "position {:?} instead of one of {:?} {}", (gx, gy), ok, ctx);
        }
        // probabilities of the board shown
        if rows * cols <= 49 {
            let useful = (0..=id).rev().find(|i| matches!(l.run.steps[*i].eff, Eff::Open | Eff::Chord | Eff::ChordHit));
            let mut gb = x.gb.clone();
            for c in gb.iter_mut().flatten() {
                if *c > 10 {
                    *c = 10;
                }
            }
            let want = match useful {
                None => Some(vec![vec![l.mines as f64 / (rows * cols) as f64; cols]; rows]),
                Some(_) => analyse(&gb).and_then(|a| if a.view.comps.iter().all(|c| c.cells.len() <= 40) { a.poss(&gb, l.mines).map(|p| p.0) } else { None }),
            };
            if let Some(w) = want {
                let got = lib("get_game_board_poss", || l.v.get_game_board_poss())?;
                ensure_eq!((got.len(), got.iter().map(|r| r.len()).collect::<Vec<_>>()), (rows, vec![cols; rows]), "seek:poss_dims", "size of the probabilities {}", ctx);
                for r in 0..rows {
                    for k in 0..cols {
                        ensure!((got[r][k] - w[r][k]).abs() < 1e-6, "seek:poss", "probability of {:?}: {} instead of {} {}", (r, k), got[r][k], w[r][k], ctx);
                    }
                }
                c.class_if(useful.is_some(), "probabilities");
            }
        }
        c.class_if(matches!(k, Seek::Id(_)), "by event");
    }
    c.nontrivial(ks.len() >= 4 && l.run.opens > 0);
    c.class_if(l.run.end.is_some(), "finished game");
    Ok(())
}

// ---------- C20 ----------
const FEATURES: [&str; 7] = ["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local"];
fn snapshot(v: &V) -> (Vec<(String, u64, u16, u16, u8, usize, usize, [usize; 6], u64)>, Vec<B>, [u64; 3]) {
    (
        v.video_action_state_recorder.iter().map(|a| (a.mouse.clone(), a.time.to_bits(), a.x, a.y, a.useful_level, a.prior_game_board_id, a.next_game_board_id, key!(a), a.path.to_bits())).collect(),
        v.game_board_stream.iter().map(|g| g.game_board.clone()).collect(),
        [v.current_time.to_bits(), v.current_event_id as u64, v.is_completed as u64],
    )
}
/// What is known about the board before an event.
struct Know {
    poss: Vec<Vec<f64>>,
    basic_safe: Vec<P>,
    basic_mine: Vec<P>,
    enum_safe: Vec<P>,
    enum_mine: Vec<P>,
}
fn know(gb: &B, mines: usize) -> Result<Know, Fail> {
    let mut q = ms::GameBoard::new(mines);
    q.set_game_board(gb);
    Ok(Know {
        poss: lib("get_poss", || q.get_poss().clone())?,
        basic_safe: q.get_basic_not_mine().clone(),
        basic_mine: q.get_basic_is_mine().clone(),
        enum_safe: q.get_enum_not_mine().clone(),
        enum_mine: q.get_enum_is_mine().clone(),
    })
}
/// Splits a comment into its parts.
fn parts(t: &str) -> Vec<String> {
    t.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}
fn number_in(t: &str, before: &str, after: &str) -> Option<f64> {
    let i = t.find(before)? + before.len();
    let j = t[i..].find(after)? + i;
    t[i..j].trim().parse().ok()
}
/// Boards of the standard sizes.
fn c20_big(s: &mut Src, c: &mut Case) -> R {
    let (r, q, m) = *s.pick(&[(16, 16, 40), (16, 30, 99), (16, 30, 70), (30, 16, 60), (9, 40, 50)]);
    let board = gen::board_mines(s, r, q, m);
    c20_on(s, c, board)
}
fn c20_features(s: &mut Src, c: &mut Case) -> R {
    let board = match s.weighted(&[3, 2]) {
        0 => gen::board(s, 1, 7, 1, 8),
        _ => {
            let (rows, cols) = (s.us(4, 8), s.us(4, 8));
            let k = s.us(rows * cols / 8, rows * cols / 4);
            gen::board_mines(s, rows, cols, k)
        }
    };
    c20_on(s, c, board)
}
fn c20_on(s: &mut Src, c: &mut Case, board: B) -> R {
    let pix = if s.chance(1, 2) { 16 } else { pix_for(s, &board) };
    let o = opts(s, 25);
    let raw = plain(s, &board, o, (2, 3));
    let start = dts(s);
    let evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, start, 0xff_ffff);
    let (_, b) = evf_case(s, &board, &evs, pix);
    let nf = if s.chance(1, 8) { 30 } else { s.us(1, 4) };
    let mut names: Vec<&str> = vec![];
    for _ in 0..nf {
        let f = *s.pick(&FEATURES);
        if !names.contains(&f) {
            names.push(f);
        }
    }
    let unknown = if s.chance(1, 10) { Some(s.us(0, names.len())) } else { None };
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &evs);
    c.input("features", &names);
    let run = play(&board, pix, &evs);
    if board.len() * board[0].len() > 64 {
        // boards on which the library's table of joint mine counts becomes too large are excluded
        let mut last: Option<&B> = None;
        for st in &run.steps {
            if last != Some(&st.gb) {
                last = Some(&st.gb);
                let clean: B = st.gb.iter().map(|r| r.iter().map(|x| if *x > 10 { 10 } else { *x }).collect()).collect();
                match analyse(&clean) {
                    Some(a) if crate::props::p_board::joint_size(&a) <= 60000.0 && a.view.comps.iter().all(|c| c.cells.len() <= 42) => {}
                    _ => return fail("skip", String::new()),
                }
            }
        }
    }
    let (mut v, r) = parse(Fmt::Evf, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}", r);
    lib("analyse", || v.analyse())?;
    let again = s.chance(1, 15);
    c.input("again", &again);
    if again {
        lib("analyse", || v.analyse())?;
    }
    let before = snapshot(&v);
    let mut ask = names.clone();
    if let Some(i) = unknown {
        ask.insert(i, "no such feature");
    }
    if s.chance(1, 2) {
        lib("analyse_for_features", || v.analyse_for_features(ask))?;
    } else {
        for a in ask {
            lib("analyse_for_features", || v.analyse_for_features(vec![a]))?;
        }
    }
    ensure_eq!(snapshot(&v), before, "feature:changed", "the commentary changed the replay {:?}", evs);
    let mines = mine_count(&board);
    let (rows, cols) = dims(&board);
    let ctx = format!("{:?} on {:?} (cell size {}), features {:?}", evs, board, pix, names);
    let blank = vec![vec![10; cols]; rows];
    let n = evs.len();
    let mut got: Vec<Vec<String>> = v.video_action_state_recorder.iter().map(|a| parts(&a.comments)).collect();
    let total: usize = got.iter().map(|g| g.len()).sum();
    c.nontrivial(total > 0 && run.opens > 0);
    // take a comment with this marker off event i
    let take = |got: &mut Vec<Vec<String>>, i: usize, marker: &str| -> Option<String> {
        let k = got[i].iter().position(|t| t.contains(marker))?;
        Some(got[i].remove(k))
    };
    let mut kn: Vec<Option<Know>> = (0..n).map(|_| None).collect();
    for i in 0..n {
        let st = &run.steps[i];
        if matches!(st.eff, Eff::Open | Eff::Chord | Eff::ChordHit | Eff::Flag) {
            let prior = if i == 0 { &blank } else { &run.steps[i - 1].gb };
            kn[i] = Some(know(prior, mines)?);
        }
    }
    let cell = |i: usize| (evs[i].y as usize / pix, evs[i].x as usize / pix);
    let opened = |i: usize| matches!(run.steps[i].eff, Eff::Open | Eff::Chord | Eff::ChordHit);
    if names.contains(&"high_risk_guess") {
        for i in 0..n {
            let t = take(&mut got, i, "危险的猜雷");
            if run.steps[i].eff == Eff::Open {
                let p = kn[i].as_ref().unwrap().poss[cell(i).0][cell(i).1];
                if let Some(t) = t {
                    c.class("risky guess");
                    ensure!(p > 0.51 - 1e-6, "feature:risk", "event {} called a dangerous guess at mine probability {} in {}", i, p, ctx);
                    let x = number_in(&t, "猜对概率", ")");
                    ensure!(x.map_or(false, |x| (x - (1.0 - p)).abs() < 0.00051), "feature:risk_number", "event {}: {:?} at mine probability {} in {}", i, t, p, ctx);
                } else {
                    ensure!(p < 0.51 + 1e-6 || Some(i) == run.first || i < 2, "feature:risk_missed", "event {} is a guess with mine probability {} but has no comment in {}", i, p, ctx);
                }
            } else {
                ensure!(t.is_none(), "feature:risk_place", "event {} {:?} called a guess in {}", i, evs[i], ctx);
            }
        }
    }
    if names.contains(&"jump_judge") {
        for i in 0..n {
            let l = take(&mut got, i, "高难度的判雷(左键)");
            let r = take(&mut got, i, "高难度的判雷(标雷)");
            let (mut wl, mut wr) = (false, false);
            if run.steps[i].eff == Eff::Open {
                let k = kn[i].as_ref().unwrap();
                wl = !k.basic_safe.contains(&cell(i)) && k.enum_safe.contains(&cell(i));
            }
            if run.steps[i].eff == Eff::Flag && evs[i].e == "rc" && run.steps[i].gb[cell(i).0][cell(i).1] == 11 {
                let k = kn[i].as_ref().unwrap();
                wr = !k.basic_mine.contains(&cell(i)) && k.enum_mine.contains(&cell(i));
            }
            let skip = i < 2;
            ensure!(l.is_some() == wl || skip, "feature:jump_left", "event {}: hard deduction (open) {:?}, expected {} in {}", i, l, wl, ctx);
            ensure!(r.is_some() == wr || skip, "feature:jump_mark", "event {}: hard deduction (mark) {:?}, expected {} in {}", i, r, wr, ctx);
            c.class_if(wl, "hard deduction");
            c.class_if(wr, "hard mark");
        }
    }
    if names.contains(&"needless_guess") {
        for i in 0..n {
            let t = take(&mut got, i, "可以判雷时选择猜雷");
            if run.steps[i].eff == Eff::Open {
                let k = kn[i].as_ref().unwrap();
                let p = k.poss[cell(i).0][cell(i).1];
                let proven = k.basic_safe.contains(&cell(i)) || k.enum_safe.contains(&cell(i));
                let some = !k.basic_safe.is_empty() || !k.enum_safe.is_empty();
                let prior = if i == 0 { &blank } else { &run.steps[i - 1].gb };
                let by_count = (0..rows).any(|r| (0..cols).any(|q| prior[r][q] >= 10 && k.poss[r][q] < 1e-9));
                if t.is_some() {
                    c.class("needless guess");
                    ensure!(p > 1e-12 && !proven && (some || by_count), "feature:needless", "event {} called a needless guess (probability {}, proven {}, others provable {}) in {}", i, p, proven, some, ctx);
                } else {
                    ensure!(!(p > 1e-9 && !proven && some) || i < 2, "feature:needless_missed", "event {} is a needless guess in {}", i, ctx);
                }
            } else {
                ensure!(t.is_none(), "feature:needless_place", "event {} {:?} called a guess in {}", i, evs[i], ctx);
            }
        }
    }
    if names.contains(&"mouse_trace") {
        let mut want: Vec<Vec<(f64, f64)>> = vec![vec![]; n];
        let mut last = 0;
        let mut path = 0.0;
        let d = |a: usize, b: usize| ((evs[a].x as f64 - evs[b].x as f64).powi(2) + (evs[a].y as f64 - evs[b].y as f64).powi(2)).sqrt();
        for i in 0..n {
            if i > 0 {
                path += d(i - 1, i);
            }
            if matches!(evs[i].e, "lr" | "rc" | "rr") {
                want[last].push((path, d(last, i)));
                last = i;
                path = 0.0;
            }
        }
        for i in 0..n {
            let e = take(&mut got, i, "过于弯曲的鼠标轨迹");
            let w = take(&mut got, i, "warning: 弯曲的鼠标轨迹");
            // each stretch starting at event i ends at one click
            let k: Vec<f64> = want[i].iter().filter(|x| x.1 > 0.0).map(|x| x.0 / x.1).collect();
            let degenerate = want[i].iter().any(|x| x.1 == 0.0);
            if degenerate {
                continue;
            }
            let k = k.first().copied().unwrap_or(1.0);
            if k > 7.0 + 1e-9 || (k > 3.5 + 1e-9 && k < 7.0 - 1e-9) || k < 3.5 - 1e-9 {
                ensure!(e.is_some() == (k > 7.0) && w.is_some() == (k > 3.5 && k <= 7.0), "feature:trace", "event {}: comments {:?} {:?} at path ratio {} in {}", i, e, w, k, ctx);
                if let Some(t) = e.or(w) {
                    c.class("bent path");
                    let x = number_in(&t, "(", "%");
                    ensure!(x.map_or(false, |x| (x - k * 100.0).abs() < 0.51), "feature:trace_number", "event {}: {:?} at path ratio {} in {}", i, t, k, ctx);
                }
            }
        }
    }
    if names.contains(&"vision_transfer") {
        let mut want = vec![0; n];
        let mut last = 0;
        let mut exact = true;
        for i in 0..n {
            if opened(i) {
                if run.steps[i].eff == Eff::ChordHit {
                    exact = false;
                }
                let far = ((evs[last].x as f64 - evs[i].x as f64).powi(2) + (evs[last].y as f64 - evs[i].y as f64).powi(2)).sqrt();
                let k = kn[i].as_ref().unwrap();
                let (lr, lc) = cell(last);
                let near = k.basic_safe.iter().chain(&k.enum_safe).any(|p| p.0.abs_diff(lr) <= 3 && p.1.abs_diff(lc) <= 3);
                if far >= 112.0 && near {
                    want[last] = 1;
                }
                last = i;
            }
        }
        for i in 0..n {
            let t = take(&mut got, i, "视野的转移");
            if exact && pix == 16 {
                ensure!(t.is_some() == (want[i] > 0), "feature:vision", "event {}: {:?}, expected {} in {}", i, t, want[i], ctx);
            }
            c.class_if(t.is_some(), "vision transfer");
        }
    }
    if names.contains(&"survive_poss") {
        let mut want = vec![];
        let mut begun = false;
        for i in 0..n {
            if evs[i].e == "lr" && run.steps[i].eff == Eff::Open {
                if begun {
                    let p = kn[i].as_ref().unwrap().poss[cell(i).0][cell(i).1];
                    if p > 1e-9 && p < 1.0 - 1e-9 {
                        want.push(1.0 - p);
                    }
                }
                begun = true;
            }
        }
        for i in 0..n {
            let t = take(&mut got, i, "luck:");
            ensure_eq!(t.is_some(), i + 1 == n, "feature:luck_place", "luck comment at event {} in {}", i, ctx);
            if let Some(t) = t {
                let body = t.trim_start_matches("luck:").trim().to_string();
                let prod: f64 = want.iter().product();
                if want.is_empty() {
                    ensure!(body.parse::<f64>() == Ok(1.0), "feature:luck", "{:?} although no guess was made in {}", t, ctx);
                } else {
                    c.class("luck");
                    let mut it = body.split('=');
                    let f: Vec<f64> = it.next().unwrap().split('*').filter_map(|x| x.trim().parse().ok()).collect();
                    let p: Option<f64> = it.next().and_then(|x| x.trim().parse().ok());
                    ensure!(f.len() == want.len() && f.iter().zip(&want).all(|(a, b)| (a - b).abs() < 0.00051), "feature:luck", "{:?} instead of {:?} in {}", t, want, ctx);
                    ensure!(p.map_or(false, |p| (p - prod).abs() < 0.00000051), "feature:luck_product", "{:?} instead of {} in {}", t, prod, ctx);
                }
            }
        }
    }
    if names.contains(&"super_fl_local") {
        for i in 0..n {
            while let Some(t) = take(&mut got, i, "教科书式的FL局部") {
                c.class("model FL");
                let k = number_in(&t, "步数", ")").unwrap_or(0.0) as usize;
                ensure!(k >= 5, "feature:fl_count", "{:?} at event {} in {}", t, i, ctx);
                ensure!(evs[i].e == "rc" && run.steps[i].eff == Eff::Flag && run.steps[i].gb[cell(i).0][cell(i).1] == 11, "feature:fl_start", "{:?} starts at event {} {:?}, which sets no mark, in {}", t, i, evs[i], ctx);
                // the steps counted: marks set and chords that open, from here on, before any plain opening
                let mut cnt = 0;
                for j in i..n {
                    match run.steps[j].eff {
                        Eff::Flag if run.steps[j].gb[cell(j).0][cell(j).1] == 11 => cnt += 1,
                        Eff::Chord | Eff::ChordHit => cnt += 1,
                        Eff::Open => break,
                        _ => {}
                    }
                }
                ensure!(cnt >= k, "feature:fl_steps", "{:?} at event {}, but only {} marks and chords follow before a plain opening, in {}", t, i, cnt, ctx);
            }
        }
    }
    for i in 0..n {
        ensure!(got[i].is_empty(), "feature:extra", "event {} has unexpected comments {:?} in {}", i, got[i], ctx);
    }
    Ok(())
}

/// A passage of correct marks and full chords with plain openings around it: five steps or more, each at most four cells
/// from the one before, are reported once, at the first mark, with their number.
fn c20_passage(s: &mut Src, c: &mut Case) -> R {
    let cols = 2 * s.us(4, 12) + 1;
    let flip = s.chance(1, 2); // mines in the bottom row
    let turn = s.chance(1, 2); // transposed
    let (rim, mid, far) = if flip { (2, 1, 0) } else { (0, 1, 2) };
    let mut mine = vec![false; 3 * cols];
    for k in (1..cols).step_by(2) {
        mine[rim * cols + k] = true;
    }
    let flat = from_mines(3, cols, &mine);
    let place = |p: P| if turn { (p.1, p.0) } else { p };
    let board: B = if turn { (0..cols).map(|k| (0..3).map(|r| flat[r][k]).collect()).collect() } else { flat.clone() };
    let pix = if s.chance(1, 2) { 16 } else { s.us(4, 40) };
    let mut raw: Vec<(&'static str, P)> = vec![];
    let at = s.us(0, cols - 1);
    raw.push(("lc", (far, at)));
    raw.push(("lr", (far, at)));
    let mut gb = flat.clone();
    for k in 0..cols {
        gb[rim][k] = 10;
    }
    // a step that is too long ends the passage
    let long_at = if s.chance(1, 2) { Some(s.us(1, 12)) } else { None };
    let mut steps: Vec<(bool, P, usize)> = vec![]; // chord, place, distance squared
    let n = s.us(3, 30);
    let mut here = (rim, s.us(0, cols / 2 - 1) * 2 + 1);
    while steps.len() < n {
        let closed = |gb: &B, k: usize| -> Option<usize> {
            let around: Vec<usize> = (k.max(1) - 1..(k + 2).min(cols)).collect();
            let marks = around.iter().filter(|q| gb[rim][**q] == 11).count();
            if flat[mid][k] as usize == marks { Some(around.iter().filter(|q| gb[rim][**q] == 10).count()) } else { None }
        };
        let mut cand: Vec<(bool, P)> = vec![];
        for k in 0..cols {
            if k % 2 == 1 && gb[rim][k] == 10 {
                cand.push((false, (rim, k)));
            }
            if let Some(m) = closed(&gb, k) {
                let left = if k > 0 { closed(&gb, k - 1).unwrap_or(0) } else { 0 };
                let right = if k + 1 < cols { closed(&gb, k + 1).unwrap_or(0) } else { 0 };
                if m > 0 && m >= left && m >= right {
                    cand.push((true, (mid, k)));
                }
            }
        }
        let d2 = |p: P| p.0.abs_diff(here.0).pow(2) + p.1.abs_diff(here.1).pow(2);
        if steps.is_empty() {
            cand.retain(|x| !x.0);
        } else if long_at == Some(steps.len()) {
            cand.retain(|x| d2(x.1) > 16);
        } else {
            cand.retain(|x| d2(x.1) <= 16);
            let edge: Vec<_> = cand.iter().filter(|x| d2(x.1) == 16).cloned().collect();
            if !edge.is_empty() && s.chance(1, 2) {
                cand = edge;
            }
        }
        let Some(&(chord, p)) = (if cand.is_empty() { None } else { Some(s.pick(&cand)) }) else { break };
        // never finish the game
        if chord {
            let mut h = gb.clone();
            for q in p.1.max(1) - 1..(p.1 + 2).min(cols) {
                if h[rim][q] == 10 {
                    h[rim][q] = flat[rim][q];
                }
            }
            if (0..cols).all(|q| h[rim][q] != 10 || q % 2 == 1) {
                break;
            }
            gb = h;
            let names: [&str; 4] = *s.pick(&[["lc", "rc", "lr", "rr"], ["lc", "rc", "rr", "lr"], ["rc", "lc", "lr", "rr"], ["rc", "lc", "rr", "lr"]]);
            raw.extend(names.iter().map(|e| (*e, p)));
        } else {
            gb[rim][p.1] = 11;
            raw.push(("rc", p));
            raw.push(("rr", p));
        }
        steps.push((chord, p, d2(p)));
        here = p;
    }
    let end = (far, s.us(0, cols - 1));
    raw.push(("lc", end));
    raw.push(("lr", end));
    let mut t = 0;
    let mut evs: Vec<RE> = vec![];
    for (e, p) in &raw {
        let q = place(*p);
        let (x, y) = pixel(s, q, pix, dims(&board));
        if s.chance(1, 4) {
            let z = (s.us(0, board.len() - 1), s.us(0, board[0].len() - 1));
            let (x, y) = pixel(s, z, pix, dims(&board));
            evs.push(RE { e: "mv", ms: t, x, y });
        }
        evs.push(RE { e: *e, ms: t, x, y });
        t += s.us(0, 300) as u32;
    }
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &evs);
    let (_, b) = evf_case(s, &board, &evs, pix);
    let (mut v, r) = parse(Fmt::Evf, &b)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}", r);
    lib("analyse", || v.analyse())?;
    lib("analyse_for_features", || v.analyse_for_features(vec!["super_fl_local"]))?;
    let got: Vec<(usize, String)> = v.video_action_state_recorder.iter().enumerate().filter(|a| !a.1.comments.is_empty()).map(|a| (a.0, a.1.comments.clone())).collect();
    let ctx = format!("{:?} on {:?} (cell size {}), steps {:?}", evs, board, pix, steps);
    // the events that set the marks, in order
    let marks: Vec<usize> = (0..evs.len()).filter(|i| evs[*i].e == "rc" && { let q = (evs[*i].y as usize / pix, evs[*i].x as usize / pix); place(q).0 == rim }).collect();
    // what is reported of an unbroken part: its length up to the last chord
    let len = |part: &[(bool, P, usize)]| part.iter().rposition(|x| x.0).map_or(0, |i| i + 1);
    let long = steps.iter().enumerate().skip(1).find(|x| x.1 .2 > 16).map(|x| x.0);
    match long {
        None => {
            let k = len(&steps);
            c.nontrivial(k >= 5);
            if k >= 5 {
                c.class("reported");
                ensure!(got.len() == 1 && number_in(&got[0].1, "步数", ")") == Some(k as f64), "passage:missed", "{:?} instead of one passage of {} steps in {}", got, k, ctx);
                ensure_eq!(got[0].0, marks[0], "passage:start", "the passage starts at another event in {}", ctx);
            } else {
                c.class("too short");
                ensure!(got.is_empty(), "passage:short", "{:?} for {} steps in {}", got, k, ctx);
            }
        }
        Some(i) => {
            c.nontrivial(true);
            c.class("broken by a long step");
            if i < 5 && steps.len() - i < 5 {
                ensure!(got.is_empty(), "passage:short", "{:?} although step {} is too long in {}", got, i, ctx);
            }
            if len(&steps[..i]) >= 5 {
                ensure!(got.iter().any(|g| g.0 == marks[0]), "passage:missed", "{:?}: the part before step {} is not reported in {}", got, i, ctx);
            }
            for g in &got {
                let k = number_in(&g.1, "步数", ")").unwrap_or(0.0) as usize;
                ensure!(k >= 5 && k <= (i + 1).max(steps.len() - i), "passage:count", "{:?} with a long step {} in {}", got, i, ctx);
            }
        }
    }
    Ok(())
}

// ---------- C21 ----------
pub fn close(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-6 * (1.0 + b.abs())
}
fn stnb_c(b: &B) -> Option<f64> {
    match level_of(b) {
        3 => Some(47.299),
        4 => Some(153.73),
        5 => Some(435.001),
        _ => None,
    }
}
/// (name, value, formula) of the statistics that depend on time `t` and the counters `k`
pub fn formulas(b: &B, t: f64, k: [usize; 6]) -> Vec<(&'static str, f64)> {
    let bbbv = stats(b).bbbv as f64;
    let cl = k[0] + k[1] + k[2];
    let solved = k[5] as f64;
    let z = |x: bool, v: f64| if x { 0.0 } else { v };
    let zt = t < 0.00099;
    vec![
        ("left_s", z(zt, k[0] as f64 / t)),
        ("right_s", z(zt, k[1] as f64 / t)),
        ("double_s", z(zt, k[2] as f64 / t)),
        ("cl_s", z(zt, cl as f64 / t)),
        ("flag_s", z(zt, k[4] as f64 / t)),
        ("etime", z(k[5] == 0, t / solved * bbbv)),
        ("bbbv_s", z(zt, solved / t)),
        ("stnb", match stnb_c(b) {
            Some(c) => z(zt, c * bbbv / t.powf(1.7) * (solved / bbbv).sqrt()),
            None => 0.0,
        }),
        ("rqp", z(k[5] == 0, t * t / solved)),
        ("qg", z(k[5] == 0, t.powf(1.7) / solved)),
        ("ce_s", z(zt, k[3] as f64 / t)),
        ("corr", z(cl == 0, k[3] as f64 / cl as f64)),
        ("thrp", z(k[3] == 0, solved / k[3] as f64)),
        ("ioe", z(cl == 0, solved / cl as f64)),
    ]
}
macro_rules! values {
    ($v:expr) => {{
        let v = &$v;
        let g = |r: Result<f64, ()>| r.unwrap_or(f64::NEG_INFINITY);
        lib("statistics", || {
            vec![
                ("left_s", v.get_left_s()),
                ("right_s", v.get_right_s()),
                ("double_s", v.get_double_s()),
                ("cl_s", v.get_cl_s()),
                ("flag_s", v.get_flag_s()),
                ("etime", g(v.get_etime())),
                ("bbbv_s", g(v.get_bbbv_s())),
                ("stnb", g(v.get_stnb())),
                ("rqp", g(v.get_rqp())),
                ("qg", g(v.get_qg())),
                ("ce_s", g(v.get_ce_s())),
                ("corr", g(v.get_corr())),
                ("thrp", g(v.get_thrp())),
                ("ioe", g(v.get_ioe())),
            ]
        })?
    }};
}
fn compare_stats(got: &[(&'static str, f64)], want: &[(&'static str, f64)], ctx: &str) -> R {
    for (a, b) in got.iter().zip(want) {
        assert_eq!(a.0, b.0);
        ensure!(close(a.1, b.1), &format!("stat:{}", a.0), "{} is {} instead of {} {}", a.0, a.1, b.1, ctx);
    }
    Ok(())
}
fn c21_playback(s: &mut Src, c: &mut Case) -> R {
    let board = match s.weighted(&[6, 2, 1]) {
        0 => gen::board(s, 1, 8, 1, 9),
        1 => gen::board_mines(s, 8, 8, 10),
        _ => standard(s),
    };
    let mut l = load(s, c, board)?;
    if l.run.first.is_none() {
        return Ok(());
    }
    // RMV files may lack the 3BV
    if l.v.static_params.bbbv != stats(&l.board).bbbv {
        return Ok(());
    }
    let n = s.us(1, 6);
    let ks = seeks(s, &l, n);
    c.input("seeks", &ks);
    for k in &ks {
        let (ok, t) = do_seek(&mut l, *k)?;
        let id = l.v.current_event_id;
        ensure!(ok.contains(&id), "seek:event", "event {} shown instead of {:?}", id, ok);
        let ctx = format!("at {:?} (event {}, time {}) of {:?} on {:?}", k, id, t, l.evs, l.board);
        let x = &l.run.steps[id];
        // values right at the cut-off of 0.99 ms, and before the start, have no formula
        if t < -1e-9 && x.k[5] > 0 {
            continue;
        }
        let got = values!(l.v);
        let want = formulas(&l.board, t, x.k);
        compare_stats(&got, &want, &ctx)?;
        if l.run.end.map_or(true, |e| id <= e) {
            ensure!(close(l.v.get_path(), x.path), "stat:path", "path is {} instead of {} {}", l.v.get_path(), x.path, ctx);
        }
        c.nontrivial(t > 0.001 && x.k[5] > 0);
        c.class_if(stnb_c(&l.board).is_some(), "standard level");
    }
    Ok(())
}
fn c21_live(s: &mut Src, c: &mut Case) -> R {
    let board = match s.weighted(&[8, 2, 1]) {
        0 => gen::board(s, 1, 6, 1, 7),
        1 => gen::board_mines(s, 8, 8, 10),
        _ => standard(s),
    };
    let pix = pix_for(s, &board);
    let done = s.chance(2, 3);
    let plan = live_plan(s, board.clone(), pix, done);
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &plan.evs);
    let placeholder = if plan.late { vec![vec![0; board[0].len()]; board.len()] } else { board.clone() };
    let v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(placeholder, pix as u8))?;
    let mut compared = 0;
    let mut finals: Option<(Vec<(&'static str, f64)>, f64, [usize; 6])> = None;
    let mut path_now = vec![];
    let pl = live(v, &plan, &mut |v, g, i, _| {
        let k = [g.left, g.right, g.double, g.ce, g.flags(), g.solved()];
        let ctx = format!("after event {} of {:?} on {:?}", i, plan.evs, plan.board);
        let counts = lib("counters", || [v.get_left(), v.get_right(), v.get_double(), v.get_flag()])?;
        ensure_eq!(counts, [k[0], k[1], k[2], k[4]], "live:counters", "counters {}", ctx);
        path_now.push(lib("get_path", || v.get_path())?);
        match g.st {
            St::Ready => {
                ensure_eq!(lib("get_time", || v.get_time())?, 0.0, "live:clock", "time before the game {}", ctx);
                ensure!(v.get_rtime().is_err() && v.get_bbbv_solved().is_err() && v.get_ce().is_err(), "live:early", "final statistics before the end {}", ctx);
            }
            St::Pre => {
                lib("get_time", || v.get_time())?;
                ensure_eq!(lib("rates", || [v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s()])?, [0.0; 5], "live:rates", "rates before the start {}", ctx);
            }
            St::Playing => {
                let t0 = lib("get_time", || v.get_time())?;
                let r = lib("rates", || [v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s()])?;
                let t1 = lib("get_time", || v.get_time())?;
                ensure!(t1 >= t0 && t0 >= 0.0, "live:clock", "the clock runs backwards: {} {} {}", t0, t1, ctx);
                let e = v.video_action_state_recorder.last().unwrap().time;
                let f = v.game_start_ms as f64 / 1000.0;
                ensure!(t0 >= e - f - 0.0021, "live:clock", "the clock shows {} at an event of time {} in a game begun at {} {}", t0, e, f, ctx);
                let q = [k[0], k[1], k[2], k[0] + k[1] + k[2], k[4]];
                for j in 0..5 {
                    if t0 >= 0.002 {
                        let (hi, lo) = (q[j] as f64 / (t0 - 0.00101), q[j] as f64 / (t1 + 0.00101));
                        ensure!(r[j] <= hi + 1e-9 && r[j] >= lo - 1e-9, "live:rates", "rate {} is {} outside {}..{} {}", j, r[j], lo, hi, ctx);
                        compared += (q[j] > 0) as usize;
                    }
                }
                ensure!(v.get_rtime().is_err() && v.get_bbbv_solved().is_err() && v.get_ce().is_err(), "live:early", "final statistics before the end {}", ctx);
            }
            St::Win | St::Loss => {
                if finals.is_none() {
                    let t = v.get_rtime().unwrap();
                    ensure_eq!(v.get_time(), t, "live:clock", "clock after the end {}", ctx);
                    let got = values!(*v);
                    ensure_eq!((v.get_bbbv_solved(), v.get_ce()), (Ok(k[5]), Ok(k[3])), "live:final", "solved 3BV and effective clicks {}", ctx);
                    finals = Some((got, t, k));
                }
            }
        }
        Ok(())
    })?;
    // the path after each event, from the positions recorded
    if !pl.rec.is_empty() {
        let run = play(&pl.board, pl.pix, &pl.rec);
        let want = run.steps[run.end.unwrap_or(run.steps.len() - 1)].path;
        let got = *path_now.last().unwrap();
        ensure!(close(got, want), "stat:path", "path is {} instead of {} after {:?} on {:?}", got, want, plan.evs, plan.board);
        if let (Some(f), Some(e)) = (run.first, run.end) {
            let t = (pl.rec[e].ms - pl.rec[f].ms) as f64 / 1000.0;
            ensure!((pl.v.get_rtime().unwrap() - t).abs() < 1e-9, "live:rtime", "final time {} instead of {} of {:?} on {:?}", pl.v.get_rtime().unwrap(), t, plan.evs, plan.board);
        }
    }
    if let Some((got, t, k)) = finals {
        if t > 0.002 {
            let want = formulas(&board, t, k);
            compare_stats(&got, &want, &format!("after the end of {:?} on {:?}", plan.evs, plan.board))?;
            compared += 1;
        }
    }
    c.nontrivial(compared > 0);
    c.class_if(done, "to the end");
    Ok(())
}

// ---------- C26 ----------
fn recorded(s: &mut Src) -> Result<ms::BaseVideo<ms::SafeBoard>, Fail> {
    let board = gen::board(s, 1, 3, 1, 3);
    let plan = live_plan(s, board.clone(), 16, true);
    let v = ms::BaseVideo::<ms::SafeBoard>::new_before_game(board, 16);
    let v = if plan.late {
        let (r, c) = dims(&plan.board);
        ms::BaseVideo::<ms::SafeBoard>::new_before_game(vec![vec![0; c]; r], 16)
    } else {
        v
    };
    let mut p = live(v, &plan, &mut |_, _, _, _| Ok(()))?;
    let _ = p.v.set_player_designator(bytes(s, 20, &[]));
    lib("generate", || p.v.generate_evf_v0_raw_data())?;
    Ok(p.v)
}
pub fn listing(d: &str) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
    std::fs::read_dir(d)
        .unwrap()
        .map(|e| {
            let e = e.unwrap();
            let n = e.file_name().to_string_lossy().to_string();
            let c = if e.path().is_dir() { None } else { Some(std::fs::read(e.path()).unwrap()) };
            (n, c)
        })
        .collect()
}
pub fn fresh_dir() -> String {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = format!("{}/d{}", scratch_dir(), N.fetch_add(1, Ordering::Relaxed));
    std::fs::create_dir(&d).unwrap();
    d
}
fn c26_saves(s: &mut Src, c: &mut Case) -> R {
    let mut bases: Vec<String> = ["a", "a.evf", "雷 1", "a(2)", "b.c", "a(2).evf"].iter().map(|x| x.to_string()).collect();
    if s.chance(1, 2) {
        // other names, and names that differ from them in one place only
        bases.clear();
        for _ in 0..s.us(1, 3) {
            let n = if s.chance(1, 12) { s.us(60, 180) } else { s.us(1, 8) };
            let mut b: String = (0..n).map(|_| *s.pick(&['a', 'A', 'z', '0', '7', ' ', '.', '(', ')', '_', '-', '%', '\\', '~', '雷', 'é', '\t', 'e', 'v', 'f', '#', '*', '?'])).collect();
            while b.len() > 200 {
                b.pop();
            }
            if b == "." || b == ".." {
                b.push('x');
            }
            let v = match s.below(8) {
                0 => b.to_uppercase(),
                1 => format!("{} ", b),
                2 => format!(" {}", b),
                3 => format!("{}.evf", b),
                4 => format!("{}(2)", b),
                5 => format!("{}.", b),
                6 => b.to_lowercase(),
                _ => format!("{}0", b),
            };
            bases.push(b);
            bases.push(v);
        }
    }
    let mut pre: Vec<(String, bool)> = (0..s.us(0, 5))
        .map(|_| {
            let b = s.pick(&bases).clone();
            let k = s.us(1, 4);
            (if k == 1 { format!("{}.evf", b) } else { format!("{}({}).evf", b, k) }, s.chance(1, 6))
        })
        .collect();
    if s.chance(1, 20) {
        let (b, n) = (s.pick(&bases).clone(), s.us(8, 130));
        pre.push((format!("{}.evf", b), false));
        pre.extend((2..n).map(|k| (format!("{}({}).evf", b, k), false)));
        c.class("many variants");
    }
    let vids: Vec<_> = (0..s.us(1, 2)).map(|_| recorded(s)).collect::<Result<_, _>>()?;
    let saves: Vec<(usize, &str)> = (0..s.us(1, 5)).map(|_| (s.us(0, vids.len() - 1), s.pick(&bases).as_str())).collect();
    c.input("existing", &pre);
    c.input("saves", &saves);
    let d = fresh_dir();
    let r = (|| -> R {
        for (i, (n, dir)) in pre.iter().enumerate() {
            let p = format!("{}/{}", d, n);
            if std::path::Path::new(&p).exists() {
                continue;
            }
            if *dir {
                std::fs::create_dir(&p).unwrap();
            } else {
                std::fs::write(&p, format!("old {}", i)).unwrap();
            }
        }
        let mut want = listing(&d);
        for (vi, b) in &saves {
            let data = vids[*vi].get_raw_data();
            let data = match data {
                Ok(d) => d,
                Err(_) => return Ok(()),
            };
            let mut name = format!("{}.evf", b);
            let mut k = 2;
            while want.contains_key(&name) {
                name = format!("{}({}).evf", b, k);
                k += 1;
            }
            c.nontrivial(k > 2);
            lib("save", || vids[*vi].save_to_evf_file(&format!("{}/{}", d, b)))?;
            want.insert(name, Some(data));
            let got = listing(&d);
            if got != want {
                let gk: Vec<_> = got.keys().collect();
                let wk: Vec<_> = want.keys().collect();
                return fail("save:files", format!("after saving {:?} of {:?} over {:?}: files {:?}, expected {:?} (or contents differ)", b, saves, pre, gk, wk));
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn c26_concurrent(s: &mut Src, c: &mut Case) -> R {
    let n = s.us(2, 6);
    let rounds = 6;
    let mut datas = vec![];
    let mut vids = vec![];
    for i in 0..n {
        let mut v = recorded(s)?;
        if v.get_raw_data().is_err() {
            return Ok(());
        }
        // distinct contents
        let _ = v.set_race_designator(format!("video {}", i).into_bytes());
        v.generate_evf_v0_raw_data();
        datas.push(v.get_raw_data().unwrap());
        vids.push(v);
    }
    c.input("threads", &n);
    c.nontrivial(true);
    let d = fresh_dir();
    let r = (|| -> R {
        for round in 0..rounds {
            let sub = format!("{}/{}", d, round);
            std::fs::create_dir(&sub).unwrap();
            let bar = std::sync::Barrier::new(n);
            let errs: Vec<Result<(), String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = vids
                    .iter()
                    .map(|v| {
                        let (bar, sub) = (&bar, &sub);
                        sc.spawn(move || {
                            bar.wait();
                            catch(|| v.save_to_evf_file(&format!("{}/x", sub)))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for e in errs {
                ensure!(e.is_ok(), "panic:save", "a save panicked: {:?}", e);
            }
            let mut got: Vec<Vec<u8>> = listing(&sub).into_values().map(|x| x.unwrap_or_default()).collect();
            let mut want = datas.clone();
            got.sort();
            want.sort();
            ensure!(got == want, "save:race", "{} replays saved at once under one name left {} files, or their contents differ", n, got.len());
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    r
}


// ---------- C29 ----------
fn c29_review(s: &mut Src, c: &mut Case) -> R {
    let (f, board, bytes_, soft, start, fair, sum, n, won) = match s.weighted(&[8, 1, 1, 1]) {
        0 => {
            let board = if s.chance(3, 4) { gen::board(s, 1, 4, 1, 5) } else { video_board(s) };
            let pix = pix_for(s, &board);
            let o = opts(s, 12);
            let raw = plain(s, &board, o, (3, 4));
            let mut evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, 0, 0xff_ffff);
            // moves that bring the number of events near the limit
            let want = (stats(&board).bbbv as i64 * 10 + *s.pick(&[-2i64, -1, 0, 0, 1, 30])).max(0) as usize;
            if s.chance(3, 4) && evs.len() > 1 {
                while evs.len() < want {
                    let i = s.us(1, evs.len() - 1);
                    let e = RE { e: "mv", ..evs[i].clone() };
                    evs.insert(i, e);
                }
            }
            let (mut h, _) = evf_case(s, &board, &evs, pix);
            h.strings[0] = s.pick(&["Arbiter", "Viennasweeper", "Viennasweeper", "Viennasweeper", "元3.2", "元3.2", "元3.2", "元3.1.7", "元3.1", "元3.2 ", "元3.2.1", "元3.1.70", "元3", "3.2", "arbiter", "Arbiter 0.52.3", "Arbite", "Viennasweeper 3.0", "Vienna", "0.97 beta", ""]).as_bytes().to_vec();
            h.strings[4] = match s.below(6) {
                0 => b"1682265600".to_vec(),
                1 => b"1682265601".to_vec(),
                2 => format!("{}{}", 1682265599 + s.below(3), s.us(0, 999)).into_bytes(),
                3 => format!("{:010}", s.below(9_999_999_999)).into_bytes(),
                4 => format!("{}", s.below(2_000_000_000)).into_bytes(),
                _ => {
                    let mut t = format!("{}", 1_000_000_000 + s.below(900_000_000)).into_bytes();
                    let i = s.us(0, 9);
                    t[i] = *s.pick(b" /:.x-");
                    t
                }
            };
            if let Some(a) = h.checksum.as_mut() {
                if s.chance(1, 3) {
                    *a = [s.byte(); 32];
                    if s.chance(1, 2) {
                        let i = s.us(0, 31);
                        a[i] ^= 1;
                    }
                }
            }
            if s.chance(2, 3) {
                h.flags |= 0x20;
            }
            let b = evf(&board, &h, &evs);
            let won = play(&board, pix, &evs).steps.last().map_or(false, |x| x.st == St::Win);
            (Fmt::Evf, board, b, h.strings[0].clone(), h.strings[4].clone(), h.flags & 0x20 != 0, h.checksum.unwrap_or([0; 32]), evs.len(), won)
        }
        1 => {
            let (board, h, evs, _, b, _) = avf_case(s);
            let won = play(&board, 16, &evs).steps.last().map_or(false, |x| x.st == St::Win);
            (Fmt::Avf, board, b, b"Arbiter".to_vec(), h.start.clone(), true, [0; 32], evs.len(), won)
        }
        2 => {
            let (board, h, evs, b) = rmv_case(s);
            let won = play(&board, 16, &evs).steps.last().map_or(false, |x| x.st == St::Win);
            let stamp = h.result.as_ref().map_or(vec![], |r| r.1.clone());
            (Fmt::Rmv, board, b, b"Viennasweeper".to_vec(), stamp, true, [0; 32], evs.len(), won)
        }
        _ => {
            let (board, _, _, evs, b) = mvf_case(s);
            let won = play(&board, 16, &evs).steps.last().map_or(false, |x| x.st == St::Win);
            (Fmt::Mvf, board, b, b"0.97 beta".to_vec(), vec![], true, [0; 32], evs.len(), won)
        }
    };
    c.input("board", &board);
    c.input("file", &show(&bytes_));
    let (mut w, r) = parse(f, &bytes_)?;
    ensure!(r.is_ok(), "review:refused", "{:?}", r);
    lib("analyse", || w.analyse())?;
    let got = lib("is_valid", || w.is_valid())?;
    let bbbv = w.static_params.bbbv;
    if bbbv == 0 || n == 0 {
        c.class("no 3BV");
        return Ok(());
    }
    let digits = start.len() >= 10 && start[..10].iter().all(|x| x.is_ascii_digit());
    let software = String::from_utf8_lossy(&soft).to_string();
    let known = ["Arbiter", "Viennasweeper", "元3.2", "元3.1.7"].contains(&software.as_str());
    c.nontrivial(known);
    let want = if !known {
        1
    } else if software == "Viennasweeper" && !digits {
        3
    } else if software == "Viennasweeper" && std::str::from_utf8(&start[..10]).unwrap().parse::<u64>().unwrap() > 1682265600 {
        1
    } else if software.starts_with('元') && (sum.iter().all(|x| *x == sum[0]) || !fair) {
        1
    } else if n < 10 * bbbv {
        3
    } else if won {
        0
    } else {
        1
    };
    c.class(match want {
        0 => "valid",
        1 => "not valid",
        _ => "uncertain",
    });
    c.class_if(n == 10 * bbbv, "at the limit of events");
    ensure_eq!(got, want, "review:verdict", "verdict (0 valid, 1 not, 3 uncertain) on a replay of {:?} started {:?} with {} events for a 3BV of {}, fair {}, check sum {:?}, won {}", software, show(&start), n, bbbv, fair, &sum[..4], won);
    Ok(())
}

// ---------- C30 ----------
fn c30_marks(s: &mut Src, c: &mut Case) -> R {
    let board = match s.weighted(&[500, 100, 3]) {
        0 => gen::board(s, 1, 6, 1, 6),
        1 => video_board(s),
        _ => strip(s, 255),
    };
    let pix = 16;
    let fin = s.chance(5, 6);
    let plan = live_plan(s, board.clone(), pix, fin);
    let calls: Vec<bool> = (0..s.us(1, 4)).map(|_| s.chance(1, 2)).collect();
    c.input("board", &board);
    c.input("events", &plan.evs);
    c.input("calls", &calls);
    let (rows, cols) = dims(&board);
    let first = if plan.late { vec![vec![0; cols]; rows] } else { board.clone() };
    let v = ms::BaseVideo::<ms::SafeBoard>::new_before_game(first, pix as u8);
    let mut p = live(v, &plan, &mut |_, _, _, _| Ok(()))?;
    let v = &mut p.v;
    let mut want = v.get_game_board();
    let st = v.game_board_state;
    let k0 = keys_of(v);
    let events = v.video_action_state_recorder.len();
    let (win, loss) = (st == ms::GameBoardState::Win, st == ms::GameBoardState::Loss);
    let start = want.clone();
    for flag in &calls {
        if *flag {
            lib("flag_all", || v.win_then_flag_all_mine())?;
        } else {
            lib("open_all", || v.loss_then_open_all_mine())?;
        }
        for r in 0..rows {
            for q in 0..cols {
                if want[r][q] == 10 && win && *flag {
                    want[r][q] = 11;
                }
                if want[r][q] == 10 && board[r][q] == -1 && loss && !*flag {
                    want[r][q] = 16;
                }
            }
        }
        ensure_eq!(v.get_game_board(), want, "marks:board", "board {:?} after {} in state {:?}, before {:?}, after {:?}", board, if *flag { "win_then_flag_all_mine" } else { "loss_then_open_all_mine" }, st, start, plan.evs);
    }
    ensure_eq!((v.game_board_state, v.video_action_state_recorder.len(), keys_of(v)), (st, events, k0), "marks:rest", "state, events or counters changed");
    if win {
        for r in 0..rows {
            for q in 0..cols {
                ensure!(!calls.contains(&true) || (want[r][q] == 11) == (board[r][q] == -1), "marks:all", "cell {:?} shows {} on {:?}", (r, q), want[r][q], board);
            }
        }
    }
    c.nontrivial((win || loss) && want != start);
    c.class(if win {
        "won"
    } else if loss {
        "lost"
    } else {
        "open"
    });
    Ok(())
}
fn keys_of(v: &ms::BaseVideo<ms::SafeBoard>) -> [usize; 6] {
    [v.get_left(), v.get_right(), v.get_double(), v.get_cl(), v.get_flag(), v.get_ce().unwrap_or(0)]
}

// ---------- C31 ----------
fn c31_convert(s: &mut Src, c: &mut Case) -> R {
    let f = *s.pick(&[Fmt::Evf, Fmt::Avf, Fmt::Rmv, Fmt::Mvf]);
    // the header of the converted file before analysis
    let (board, evs, file, mut h, pix): (B, Vec<RE>, Vec<u8>, EvfHead, usize);
    let plain_head = |mode: u16, bbbv: usize, rtime: u32, strings: [Vec<u8>; 8]| EvfHead { version: 0, flags: 0x60, pix: 16, mode, bbbv: bbbv as u16, rtime, strings, checksum: None };
    let n = Vec::new;
    match f {
        Fmt::Evf => {
            board = video_board(s);
            pix = pix_for(s, &board);
            let o = opts(s, 30);
            let raw = plain(s, &board, o, (2, 3));
            let start = dts(s);
            evs = replay(s, &board, pix, &raw, &EVF_NAMES, 1, start, 0xff_ffff);
            (h, file) = evf_case(s, &board, &evs, pix);
        }
        Fmt::Avf => {
            let (b, a, e, _, by, t) = avf_case(s);
            h = plain_head(0, a.bbbv, t, [b"Arbiter".to_vec(), a.name.clone(), n(), n(), a.start.clone(), a.end.clone(), n(), n()]);
            (board, evs, file, pix) = (b, e, by, 16);
        }
        Fmt::Rmv => {
            let (b, r, e, by) = rmv_case(s);
            let g = |i: usize| r.players.get(i).cloned().unwrap_or_default();
            let stamp = r.result.as_ref().map_or(vec![], |r| r.1.clone());
            let bbbv = if r.result.is_some() { stats(&b).bbbv.min(999) } else { 0 };
            h = plain_head(r.mode as u16, bbbv, e.last().unwrap().ms, [b"Viennasweeper".to_vec(), g(0), n(), n(), stamp, n(), g(2), n()]);
            (board, evs, file, pix) = (b, e, by, 16);
        }
        Fmt::Mvf => {
            let (b, m, _, e, by) = mvf_case(s);
            let mode = [2u16, 0, 3, 1, 2][m.mode as usize];
            h = plain_head(mode, m.bbbv as usize, m.rtime_cs * 10, [b"0.97 beta".to_vec(), m.name.clone(), n(), n(), n(), n(), n(), n()]);
            (board, evs, file, pix) = (b, e, by, 16);
        }
    }
    if h.rtime > 0xff_ffff || evs.iter().any(|e| e.ms > 0xff_ffff) {
        return Ok(());
    }
    let before = s.chance(1, 2);
    let after = !before || s.chance(1, 2);
    c.input("format", &f);
    c.input("board", &board);
    c.input("events", &evs);
    c.input("header of the new file", &h);
    c.input("converted before, after analysis", &(before, after));
    let ctx = format!("{:?} {:?} {:?} {:?}", f, board, h, evs);
    let (mut w, r) = parse(f, &file)?;
    ensure!(r.is_ok(), "decode:refused", "{:?}: {}", r, ctx);
    let run = play(&board, pix, &evs);
    classify(c, &run);
    c.nontrivial((f != Fmt::Evf || h.checksum.is_some()) && run.opens > 0);
    if before {
        lib("generate", || w.generate_evf_v0_raw_data())?;
        same_bytes(&w.get_raw_data().unwrap(), &evf(&board, &h, &evs), "converted", &ctx)?;
        if f == Fmt::Evf {
            same_bytes(&w.get_raw_data().unwrap(), &file, "converted to itself", &ctx)?;
        }
        reloaded(&w.get_raw_data().unwrap(), &h, &board, &evs, &run, &ctx)?;
    }
    if after {
        lib("analyse", || w.analyse())?;
        h.flags = h.flags & 0x60 | ((run.steps.last().unwrap().st == St::Win) as u8) << 7;
        for _ in 0..s.us(1, 2) {
            lib("generate", || w.generate_evf_v0_raw_data())?;
            same_bytes(&w.get_raw_data().unwrap(), &evf(&board, &h, &evs), "converted after analysis", &ctx)?;
        }
        reloaded(&w.get_raw_data().unwrap(), &h, &board, &evs, &run, &ctx)?;
        // the original is still what it was
        check_events(&w, &evs, &ctx)?;
        check_states!(w, run, evs, ctx);
    }
    c.class(match f {
        Fmt::Evf => "new format",
        Fmt::Avf => "Arbiter",
        Fmt::Rmv => "Viennasweeper",
        Fmt::Mvf => "Clone",
    });
    c.class_if(before, "before analysis");
    c.class_if(after, "after analysis");
    Ok(())
}
/// The converted file, loaded again.
fn reloaded(b: &[u8], h: &EvfHead, board: &B, evs: &[RE], run: &Run, ctx: &str) -> R {
    let (mut w, r) = parse(Fmt::Evf, b)?;
    ensure!(r.is_ok(), "reload:parse", "converted data does not parse: {:?} {}", r, ctx);
    decoded(&w, Fmt::Evf, b, board, evs, h.bbbv as usize, h.rtime, ctx)?;
    ensure_eq!((w.is_completed, w.is_offical, w.is_fair), (h.flags & 0x80 != 0, h.flags & 0x40 != 0, h.flags & 0x20 != 0), "reload:flags", "flags of {}", ctx);
    ensure_eq!((w.mode, w.cell_pixel_size), (h.mode, h.pix), "reload:head", "mode, cell size of {}", ctx);
    let st = [&w.software, &w.player_designator, &w.race_designator, &w.uniqueness_designator, &w.start_time, &w.end_time, &w.country, &w.device_uuid];
    let hs: Vec<&Vec<u8>> = h.strings.iter().collect();
    ensure_eq!(st.to_vec(), hs, "reload:strings", "strings of {}", ctx);
    ensure_eq!(w.get_checksum().unwrap(), h.checksum.unwrap_or([0; 32]), "reload:checksum", "check sum of {}", ctx);
    lib("analyse", || w.analyse())?;
    check_states!(w, run, evs, ctx);
    ensure_eq!(w.is_completed, run.steps.last().unwrap().st == St::Win, "reload:completed", "result of {}", ctx);
    Ok(())
}

// ---------- C32 ----------
/// Another board that agrees with every open cell of `gb`.
fn agreeing(s: &mut Src, board: &B, gb: &B) -> Option<B> {
    let (rows, cols) = dims(board);
    let closed: Vec<P> = (0..rows * cols).map(|i| (i / cols, i % cols)).filter(|p| gb[p.0][p.1] >= 10).collect();
    let mut order = closed.clone();
    s.shuffle(&mut order);
    let dens = *s.pick(&[1u64, 3, 5, 7, 9]);
    let want: Vec<bool> = order.iter().map(|p| if s.chance(1, 4) { board[p.0][p.1] == -1 } else { s.chance(dens, 10) }).collect();
    // number of mines still missing and of cells still free around each open cell
    let mut need = vec![vec![0i32; cols]; rows];
    let mut free = vec![vec![0i32; cols]; rows];
    for r in 0..rows {
        for c in 0..cols {
            if gb[r][c] < 10 {
                need[r][c] = gb[r][c];
                free[r][c] = nbrs(r, c, rows, cols).iter().filter(|p| gb[p.0][p.1] >= 10).count() as i32;
            }
        }
    }
    let mut val: Vec<bool> = vec![];
    let mut tried: Vec<bool> = vec![];
    let mut steps = 0;
    let around = |p: P| -> Vec<P> { nbrs(p.0, p.1, rows, cols).into_iter().filter(|q| gb[q.0][q.1] < 10).collect() };
    // depth-first search, the wanted value first
    let mut forward = true;
    loop {
        steps += 1;
        if steps > 20000 {
            return None;
        }
        if forward {
            if val.len() == order.len() {
                break;
            }
            val.push(want[val.len()]);
            tried.push(false);
        } else {
            match (val.pop(), tried.pop()) {
                (Some(x), Some(t)) => {
                    let p = order[val.len()];
                    for q in around(p) {
                        need[q.0][q.1] += x as i32;
                        free[q.0][q.1] += 1;
                    }
                    if t {
                        continue;
                    }
                    val.push(!x);
                    tried.push(true);
                }
                _ => return None,
            }
        }
        let p = order[val.len() - 1];
        let x = *val.last().unwrap();
        let mut ok = true;
        for q in around(p) {
            need[q.0][q.1] -= x as i32;
            free[q.0][q.1] -= 1;
            ok &= need[q.0][q.1] >= 0 && need[q.0][q.1] <= free[q.0][q.1];
        }
        forward = ok;
    }
    let mut mine = vec![false; rows * cols];
    for (p, x) in order.iter().zip(&val) {
        mine[p.0 * cols + p.1] = *x;
    }
    Some(from_mines(rows, cols, &mine))
}
fn c32_exchange(s: &mut Src, c: &mut Case) -> R {
    let board = match s.weighted(&[30, 3, 1]) {
        0 => gen::board(s, 1, 8, 1, 8),
        1 => video_board(s),
        _ => strip(s, 255),
    };
    let pix = pix_for(s, &board);
    let mut plan = live_plan(s, board.clone(), pix, true);
    // also set when cells have been marked already
    plan.late |= s.chance(1, 4);
    let h = heads(s);
    let o = Opts { aliases: false, illegal: false, outside: s.chance(1, 4), middle: s.chance(1, 3), moves: s.chance(1, 3), max: 30 };
    let mut cur = board.clone();
    let mut from = 0;
    for _ in 0..s.us(1, 4) {
        // the states before each event
        let mut g = Game::new(&cur);
        let mut places = vec![];
        for (i, (e, pos, _)) in plan.evs.iter().enumerate() {
            if g.st == St::Playing && i > from {
                places.push((i, g.clone()));
            }
            g.event(e, (pos.0 / pix, pos.1 / pix));
        }
        if places.is_empty() {
            break;
        }
        let (i, g) = s.pick(&places).clone();
        let Some(nb) = agreeing(s, &cur, &g.gb) else { continue };
        plan.evs.truncate(i);
        let prefix: Vec<Ev> = plan.evs.iter().map(|(e, pos, _)| (*e, (pos.0 / pix, pos.1 / pix))).collect();
        let mut h = Game::new(&nb);
        for (e, p) in &prefix {
            h.event(e, *p);
        }
        let b2 = if (&h.gb, h.st) == (&g.gb, g.st) {
            plan.swaps.push((i, nb.clone()));
            nb
        } else {
            // nothing safe is left closed
            c.class("nothing left to open");
            cur.clone()
        };
        let mut g = Game::new(&b2);
        for (e, p) in &prefix {
            g.event(e, *p);
        }
        // marks set before the exchange, or on cells which have become mines, are taken off and set again
        let mut lead = prefix.clone();
        if s.chance(2, 3) {
            let mut h = g.clone();
            let cells: Vec<P> = (0..h.gb.len() * h.gb[0].len()).map(|i| (i / h.gb[0].len(), i % h.gb[0].len())).filter(|p| h.gb[p.0][p.1] >= 10).collect();
            for _ in 0..s.us(1, 3) {
                let marked: Vec<P> = cells.iter().copied().filter(|p| h.gb[p.0][p.1] == 11).collect();
                let p = if !marked.is_empty() && s.chance(3, 4) { *s.pick(&marked) } else { *s.pick(&cells) };
                for e in ["rc", "rr"].iter().cycle().take(2 * s.us(1, 2)) {
                    let mut k = h.clone();
                    if k.event(e, p) == Eff::Illegal {
                        break;
                    }
                    h = k;
                    lead.push((e, p));
                }
            }
        }
        for (e, p) in finish(s, &b2, lead, o).into_iter().skip(prefix.len()) {
            let n = g.norm(e);
            let Some(n) = EVF_NAMES.iter().find(|x| **x == n) else { continue };
            let mut h = g.clone();
            if h.event(n, p) == Eff::Illegal && *n == "mr" && g.st == St::Playing {
                continue;
            }
            g = h;
            let (x, y) = pixel(s, p, pix, dims(&board));
            plan.evs.push((n, (y as usize, x as usize), dts(s) * 1000));
        }
        cur = b2;
        from = i;
    }
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &plan.evs);
    c.input("boards exchanged before events", &plan.swaps);
    c.input("header", &h);
    let placeholder = if plan.late { vec![vec![0; board[0].len()]; board.len()] } else { board.clone() };
    let v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(placeholder, pix as u8))?;
    let first = plan.swaps.first().map_or(usize::MAX, |x| x.0);
    let text = format!("{:?} on {:?}, exchanged {:?}", plan.evs, board, plan.swaps);
    let mut opened_after = false;
    let mut before = 0;
    let mut p = live(v, &plan, &mut |v, g, i, _| {
        let ctx = format!("after event {} of {}", i, text);
        let open = g.gb.iter().flatten().filter(|x| **x < 10).count();
        if i >= first {
            ensure_eq!(v.get_game_board(), g.gb, "exchange:board", "visible board {}", ctx);
            ensure_eq!(ms_state(v), g.st, "exchange:state", "state {}", ctx);
            let k = v.video_action_state_recorder.last().map_or([0; 6], |e| key!(e));
            let w = [g.left, g.right, g.double, g.ce, g.flags(), g.solved()];
            if matches!(g.st, St::Playing | St::Win | St::Loss) {
                for j in 0..6 {
                    ensure_eq!(k[j], w[j], &format!("exchange:{}", KEYS[j]), "{} {}", KEYS[j], ctx);
                }
            }
            opened_after |= open > before;
        }
        before = open;
        Ok(())
    })?;
    c.nontrivial(opened_after && plan.swaps.iter().any(|x| x.1 != board));
    c.class_if(plan.swaps.len() > 1, "several exchanges");
    c.class_if(plan.swaps.last().map_or(false, |x| mine_count(&x.1) != mine_count(&board)), "other number of mines");
    if !p.over || plan.swaps.is_empty() {
        return Ok(());
    }
    let run = play(&p.board, p.pix, &p.rec);
    classify(c, &run);
    ensure_eq!(p.v.static_params.bbbv, stats(&p.board).bbbv, "exchange:bbbv", "3BV of the final board of {}", text);
    ensure_eq!((p.v.mine_num, p.v.level), (mine_count(&p.board), level_of(&p.board)), "exchange:head", "mines and level of {}", text);
    apply_heads(&mut p, &h)?;
    lib("generate", || p.v.generate_evf_v0_raw_data())?;
    let got = p.v.get_raw_data().unwrap();
    same_bytes(&got, &expected_file(&p, &h, &run, None), "saved after an exchange", &text)?;
    let (mut w, r) = parse(Fmt::Evf, &got)?;
    ensure!(r.is_ok(), "reload:parse", "generated data does not parse: {:?} {}", r, text);
    ensure_eq!(w.board, p.board, "reload:board", "board of {}", text);
    check_events(&w, &p.rec, &text)?;
    lib("analyse", || w.analyse())?;
    check_states!(w, run, p.rec, text);
    // what the live game ended with is what the replay ends with
    ensure_eq!(key!(p.v.video_action_state_recorder.last().unwrap()), key!(w.video_action_state_recorder.last().unwrap()), "exchange:end", "counters at the end of {}", text);
    ensure_eq!(w.is_completed, p.v.is_completed, "exchange:completed", "result of {}", text);
    Ok(())
}
fn ms_state(v: &ms::BaseVideo<ms::SafeBoard>) -> St {
    match v.game_board_state {
        ms::GameBoardState::Ready => St::Ready,
        ms::GameBoardState::PreFlaging => St::Pre,
        ms::GameBoardState::Playing => St::Playing,
        ms::GameBoardState::Win => St::Win,
        _ => St::Loss,
    }
}

// ---------- C33 ----------
/// Everything observable that a refused call must leave alone.
macro_rules! frozen {
    ($v:expr) => {{
        let v = &$v;
        (
            [v.software.clone(), v.player_designator.clone(), v.race_designator.clone(), v.uniqueness_designator.clone(), v.start_time.clone(), v.end_time.clone(), v.country.clone(), v.device_uuid.clone()],
            (v.is_completed, v.is_offical, v.is_fair, v.mode, v.level, v.cell_pixel_size, v.checksum),
            (v.width, v.height, v.mine_num, v.game_board_state, v.current_event_id, v.current_time.to_bits()),
            (v.get_game_board(), v.get_raw_data().ok(), v.get_rtime_ms().ok(), v.static_params.bbbv),
            v.video_action_state_recorder.iter().map(|a| (a.mouse.clone(), a.time.to_bits(), a.x, a.y, key!(a))).collect::<Vec<_>>(),
        )
    }};
}
const SETTERS: [&str; 13] = ["is_offical", "is_fair", "mode", "software", "player_designator", "race_designator", "uniqueness_designator", "start_time", "end_time", "country", "device_uuid", "checksum", "pix_size"];
const GETTERS: [&str; 21] = ["rtime", "rtime_ms", "raw_data", "checksum", "etime", "bbbv_s", "bbbv_solved", "stnb", "rqp", "qg", "ce", "ce_s", "corr", "thrp", "ioe", "op_solved", "isl_solved", "video_start_time", "video_end_time", "x_y", "pix_size"];
macro_rules! set_it {
    ($v:expr, $n:expr, $s:expr) => {{
        let v = &mut $v;
        let bs = bytes($s, 6, &[]);
        let flag = $s.chance(1, 2);
        let m = $s.us(0, 65535) as u16;
        let sum = [$s.byte(); 32];
        let pix = v.cell_pixel_size;
        // (accepted, read back as given)
        match $n {
            "is_offical" => (v.set_is_offical(flag).is_ok(), v.is_offical == flag),
            "is_fair" => (v.set_is_fair(flag).is_ok(), v.is_fair == flag),
            "mode" => (v.set_mode(m).is_ok(), v.mode == m),
            "software" => (v.set_software(bs.clone()).is_ok(), v.software == bs),
            "player_designator" => (v.set_player_designator(bs.clone()).is_ok(), v.player_designator == bs),
            "race_designator" => (v.set_race_designator(bs.clone()).is_ok(), v.race_designator == bs),
            "uniqueness_designator" => (v.set_uniqueness_designator(bs.clone()).is_ok(), v.uniqueness_designator == bs),
            "start_time" => (v.set_start_time(bs.clone()).is_ok(), v.start_time == bs),
            "end_time" => (v.set_end_time(bs.clone()).is_ok(), v.end_time == bs),
            "country" => (v.set_country(bs.clone()).is_ok(), v.country == bs),
            "device_uuid" => (v.set_device_uuid(bs.clone()).is_ok(), v.device_uuid == bs),
            "checksum" => (v.set_checksum(sum).is_ok(), v.get_checksum().ok() == Some(sum)),
            _ => (v.set_pix_size(pix).is_ok(), v.cell_pixel_size == pix),
        }
    }};
}
macro_rules! get_it {
    ($v:expr, $n:expr) => {{
        let v = &$v;
        match $n {
            "rtime" => v.get_rtime().is_ok(),
            "rtime_ms" => v.get_rtime_ms().is_ok(),
            "raw_data" => v.get_raw_data().is_ok(),
            "checksum" => v.get_checksum().is_ok(),
            "etime" => v.get_etime().is_ok(),
            "bbbv_s" => v.get_bbbv_s().is_ok(),
            "bbbv_solved" => v.get_bbbv_solved().is_ok(),
            "stnb" => v.get_stnb().is_ok(),
            "rqp" => v.get_rqp().is_ok(),
            "qg" => v.get_qg().is_ok(),
            "ce" => v.get_ce().is_ok(),
            "ce_s" => v.get_ce_s().is_ok(),
            "corr" => v.get_corr().is_ok(),
            "thrp" => v.get_thrp().is_ok(),
            "ioe" => v.get_ioe().is_ok(),
            "op_solved" => v.get_op_solved().is_ok(),
            "isl_solved" => v.get_isl_solved().is_ok(),
            "video_start_time" => v.get_video_start_time().is_ok(),
            "video_end_time" => v.get_video_end_time().is_ok(),
            "x_y" => v.get_x_y().is_ok(),
            _ => v.get_pix_size().is_ok(),
        }
    }};
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Set(&'static str),
    Get(&'static str),
    SetRtime,
    SetEvent,
    SetBoard(bool),
}
fn calls(s: &mut Src) -> Vec<Call> {
    (0..s.us(0, 3))
        .map(|_| match s.weighted(&[6, 5, 1, 1, 2]) {
            0 => Call::Set(*s.pick(&SETTERS)),
            1 => Call::Get(*s.pick(&GETTERS)),
            2 => Call::SetRtime,
            3 => Call::SetEvent,
            _ => Call::SetBoard(s.chance(1, 2)),
        })
        .collect()
}
fn c33_live(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 1, 6, 1, 6);
    let pix = pix_for(s, &board);
    let whole = s.chance(3, 4);
    let plan = live_plan(s, board.clone(), pix, whole);
    let rounds = s.us(1, 2);
    c.input("board", &board);
    c.input("events", &plan.evs);
    let mut v = lib("new_before_game", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(board.clone(), pix as u8))?;
    ensure!(v.set_board(board.clone()).is_ok(), "guard:board", "set_board refused before the game");
    let (mut refused, mut accepted) = (0, 0);
    let mut log: Vec<String> = vec![];
    let (rows, cols) = dims(&board);
    for round in 0..rounds {
        if round > 0 {
            let names = [&v.software, &v.player_designator, &v.race_designator, &v.uniqueness_designator, &v.country, &v.device_uuid].map(|x| x.clone());
            lib("reset", || v.reset(rows, cols, pix as u8))?;
            let now = [&v.software, &v.player_designator, &v.race_designator, &v.uniqueness_designator, &v.country, &v.device_uuid].map(|x| x.clone());
            ensure_eq!(now, names, "guard:names", "names after a reset, {:?}", log);
            ensure_eq!((v.game_board_state, v.checksum), (ms::GameBoardState::Ready, [0; 32]), "guard:reset", "state and check sum after a reset, {:?}", log);
            ensure!(v.set_board(board.clone()).is_ok(), "guard:board", "set_board refused after a reset, {:?}", log);
        }
        let mut g = Game::new(&board);
        for (e, pos, dt) in plan.evs.iter().map(|x| Some(*x)).chain([None]).map(|x| x.unwrap_or(("", (0, 0), 0))) {
            for k in calls(s) {
                log.push(format!("{:?}", k));
                let ctx = format!("in state {:?} after {:?} on {:?}", g.st, log, board);
                let over = g.over();
                let before = frozen!(v);
                let (want, got, same) = match k {
                    Call::Set(n) => {
                        let want = over || (g.st == St::Ready && (n == "software" || n == "pix_size"));
                        let (ok, same) = lib("setter", || set_it!(v, n, s))?;
                        (want, ok, same)
                    }
                    Call::Get(n) => (over && !["video_start_time", "video_end_time", "x_y", "pix_size"].contains(&n), lib("getter", || get_it!(v, n))?, true),
                    Call::SetRtime => (false, lib("set_rtime", || v.set_rtime(1.0))?.is_ok(), true),
                    Call::SetEvent => (false, lib("set_event", || v.set_current_event_id(0))?.is_ok(), true),
                    Call::SetBoard(fits) => {
                        let b = if fits {
                            board.clone()
                        } else {
                            match s.us(0, 5) {
                                0 => vec![vec![0; cols]; rows + 1],
                                1 => vec![vec![0; cols + 1]; rows],
                                2 if rows > 1 => vec![vec![0; cols]; rows - 1],
                                3 if cols > 1 => vec![vec![0; cols - 1]; rows],
                                4 if rows != cols => vec![vec![0; rows]; cols],
                                5 if rows > 1 => vec![vec![0; rows * cols]; 1],
                                _ => vec![vec![0; cols + 1]; rows + 1],
                            }
                        };
                        (fits && !over, lib("set_board", || v.set_board(b))?.is_ok(), true)
                    }
                };
                ensure_eq!(got, want, &format!("guard:{}", if want { "refused" } else { "accepted" }), "acceptance of {:?} {}", k, ctx);
                if got {
                    accepted += 1;
                    ensure!(same, "guard:value", "{:?} does not take effect {}", k, ctx);
                } else {
                    refused += 1;
                }
                if !got || matches!(k, Call::Get(_) | Call::SetBoard(_)) {
                    ensure!(frozen!(v) == before, "guard:effect", "{:?} ({}) changed something {}", k, if got { "accepted" } else { "refused" }, ctx);
                }
            }
            if e.is_empty() {
                break;
            }
            clock_back(&mut v, dt);
            log.push(format!("{} {:?}", e, pos));
            let _ = lib("video_step", || v.step(e, pos))?;
            g.event(e, (pos.0 / pix, pos.1 / pix));
            ensure_eq!(ms_state(&v), g.st, "guard:state", "state after {:?} on {:?}", log, board);
        }
        c.class_if(g.over(), "to the end");
    }
    c.class_if(rounds > 1, "second game");
    c.nontrivial(refused > 0 && accepted > 0);
    Ok(())
}
fn c33_replay(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 1, 6, 1, 6);
    let mut l = load(s, c, board)?;
    let n = s.us(1, 5);
    let ks = seeks(s, &l, n);
    let (mut refused, mut accepted) = (0, 0);
    let mut log = vec![];
    for k in &ks {
        do_seek(&mut l, *k)?;
        log.push(format!("{:?}", k));
        let v = &mut l.v;
        for k in calls(s) {
            log.push(format!("{:?}", k));
            let before = frozen!(*v);
            let (want, got) = match k {
                Call::Set(n) => (false, lib("setter", || set_it!(*v, n, s).0)?),
                Call::Get(n) => (true, lib("getter", || get_it!(*v, n))?),
                Call::SetRtime => (false, lib("set_rtime", || v.set_rtime(1.0))?.is_ok()),
                _ => continue,
            };
            ensure_eq!(got, want, &format!("guard:{}", if want { "refused" } else { "accepted" }), "acceptance of {:?} on a replay {:?}", k, log);
            if got {
                accepted += 1;
            } else {
                refused += 1;
            }
            ensure!(frozen!(*v) == before, "guard:effect", "{:?} changed something on a replay, {:?}", k, log);
        }
    }
    c.nontrivial(refused > 0 && accepted > 0);
    Ok(())
}
