//! The game as a player sees it: two physical buttons over a board. Written from the published rules, independently of
//! the library's state machine (one button each, a few facts about what has been pressed), with the statistics
//! recomputed from the visible board wherever they can be.
use crate::core::Src;
use crate::refm::*;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    Pre,
    Playing,
    Win,
    Loss,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ms {
    UpUp,
    UpDown,
    UpDownNotFlag,
    DownUp,
    Chording,
    ChordingNotFlag,
    DownUpAfterChording,
}
/// What an event did.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Eff {
    /// not legal in this state: nothing may change
    Illegal,
    /// no effect on the board
    None,
    Flag,
    /// the last mark set before the game was taken back: the game is as before
    Unstart,
    Open,
    Hit,
    Chord,
    ChordHit,
}
#[derive(Clone, Debug)]
pub struct Game {
    pub board: B,
    pub gb: B,
    pub st: St,
    pub left: usize,
    pub right: usize,
    pub double: usize,
    pub ce: usize,
    l: bool,
    r: bool,
    /// the left button was part of a chord that has been released
    spent: bool,
    /// the right press was counted but changed nothing: it belongs to the chord if one follows
    idle_right: bool,
    mid: bool,
    credited: BTreeSet<P>,
    stats: std::rc::Rc<(usize, Vec<Vec<P>>, Vec<P>)>,
}
impl Game {
    pub fn new(board: &B) -> Game {
        let (rows, cols) = dims(board);
        let s = stats(board);
        let mut regions = vec![vec![]; s.op];
        let mut lonely = vec![];
        for r in 0..rows {
            for c in 0..cols {
                if board[r][c] == 0 {
                    regions[s.region[r][c]].push((r, c));
                }
                if board[r][c] > 0 && !nbrs(r, c, rows, cols).iter().any(|p| board[p.0][p.1] == 0) {
                    lonely.push((r, c));
                }
            }
        }
        Game {
            board: board.clone(),
            gb: vec![vec![10; cols]; rows],
            st: St::Ready,
            left: 0,
            right: 0,
            double: 0,
            ce: 0,
            l: false,
            r: false,
            spent: false,
            idle_right: false,
            mid: false,
            credited: BTreeSet::new(),
            stats: std::rc::Rc::new((s.bbbv, regions, lonely)),
        }
    }
    pub fn bbbv(&self) -> usize {
        self.stats.0
    }
    pub fn solved(&self) -> usize {
        self.stats.1.iter().filter(|r| r.iter().all(|p| self.gb[p.0][p.1] == 0)).count()
            + self.stats.2.iter().filter(|p| self.gb[p.0][p.1] == self.board[p.0][p.1]).count()
    }
    pub fn solved_op(&self) -> usize {
        self.stats.1.iter().filter(|r| r.iter().all(|p| self.gb[p.0][p.1] == 0)).count()
    }
    pub fn flags(&self) -> usize {
        self.gb.iter().flatten().filter(|x| **x == 11 || **x == 14).count()
    }
    pub fn mouse(&self) -> Ms {
        match (self.l, self.r) {
            (false, false) => Ms::UpUp,
            (true, false) => {
                if self.spent {
                    Ms::DownUpAfterChording
                } else {
                    Ms::DownUp
                }
            }
            (false, true) => {
                if self.idle_right {
                    Ms::UpDownNotFlag
                } else {
                    Ms::UpDown
                }
            }
            (true, true) => {
                if self.idle_right {
                    Ms::ChordingNotFlag
                } else {
                    Ms::Chording
                }
            }
        }
    }
    pub fn over(&self) -> bool {
        self.st == St::Win || self.st == St::Loss
    }
    fn inside(&self, p: P) -> bool {
        p.0 < self.board.len() && p.1 < self.board[0].len()
    }
    fn won(&self) -> bool {
        let (rows, cols) = dims(&self.board);
        (0..rows).all(|r| (0..cols).all(|c| self.board[r][c] == -1 || self.gb[r][c] == self.board[r][c]))
    }
    fn reveal(&mut self, cells: &[P]) -> bool {
        let board = self.board.clone();
        open_cells(&board, &mut self.gb, cells);
        let mut hit = false;
        for x in self.gb.iter_mut().flatten() {
            if *x == -1 {
                *x = 15;
                hit = true;
            }
        }
        if hit {
            let (rows, cols) = dims(&board);
            for r in 0..rows {
                for c in 0..cols {
                    if self.gb[r][c] == 11 && board[r][c] != -1 {
                        self.gb[r][c] = 14;
                    }
                }
            }
            self.st = St::Loss;
        } else if self.won() {
            self.st = St::Win;
        }
        hit
    }
    fn open(&mut self, p: P) -> Eff {
        self.left += 1;
        if self.gb[p.0][p.1] != 10 {
            return Eff::None;
        }
        if self.reveal(&[p]) {
            Eff::Hit
        } else {
            self.ce += 1;
            Eff::Open
        }
    }
    fn toggle(&mut self, p: P) -> Eff {
        self.right += 1;
        match self.gb[p.0][p.1] {
            10 => {
                self.gb[p.0][p.1] = 11;
                if self.board[p.0][p.1] == -1 && self.credited.insert(p) {
                    self.ce += 1;
                }
                Eff::Flag
            }
            11 => {
                self.gb[p.0][p.1] = 10;
                Eff::Flag
            }
            _ => Eff::None,
        }
    }
    /// cells a chord on `p` opens; None if it is not satisfied
    pub fn chord_cells(&self, p: P) -> Option<Vec<P>> {
        let v = self.gb[p.0][p.1];
        if !(1..=8).contains(&v) {
            return None;
        }
        let (rows, cols) = dims(&self.board);
        let nb = nbrs(p.0, p.1, rows, cols);
        let fl = nb.iter().filter(|q| self.gb[q.0][q.1] == 11).count() as i32;
        let cl: Vec<P> = nb.into_iter().filter(|q| self.gb[q.0][q.1] == 10).collect();
        if fl == v && !cl.is_empty() {
            Some(cl)
        } else {
            None
        }
    }
    fn chord(&mut self, p: P) -> Eff {
        if !self.inside(p) {
            return Eff::None;
        }
        self.double += 1;
        match self.chord_cells(p) {
            Some(cl) => {
                self.ce += 1;
                if self.reveal(&cl) {
                    Eff::ChordHit
                } else {
                    Eff::Chord
                }
            }
            None => Eff::None,
        }
    }
    /// Both buttons were down and one goes up.
    fn release_both(&mut self, p: P) -> Eff {
        if self.idle_right {
            self.right -= 1;
            self.idle_right = false;
        }
        if self.st == St::Ready {
            return Eff::None;
        }
        self.chord(p)
    }
    fn restart(&mut self) {
        self.st = St::Ready;
        self.left = 0;
        self.right = 0;
        self.double = 0;
        self.ce = 0;
        self.credited.clear();
    }
    /// The plain name (lc lr rc rr mc mr) of a toggling event at this moment.
    pub fn norm<'a>(&self, e: &'a str) -> &'a str {
        match e {
            "l" if self.st == St::Playing => {
                if self.l {
                    "lr"
                } else {
                    "lc"
                }
            }
            "r" if self.st == St::Playing => {
                if self.r {
                    "rr"
                } else {
                    "rc"
                }
            }
            "m" if self.st == St::Playing => {
                if self.mid {
                    "mr"
                } else {
                    "mc"
                }
            }
            "crl" if self.l && self.r && self.st == St::Playing => "lr",
            "crr" if self.l && self.r && self.st == St::Playing => "rr",
            x => x,
        }
    }
    pub fn idle(&self) -> bool {
        !self.l && !self.r && !self.mid
    }
    /// The forms that name one physical change of one button.
    pub fn event(&mut self, e: &str, p: P) -> Eff {
        if self.over() {
            return Eff::None;
        }
        let e = match e {
            "cc" => match (self.l, self.r) {
                (true, false) => "rc",
                (false, true) => "lc",
                _ => return Eff::Illegal,
            },
            x => self.norm(x),
        };
        match e {
            "mv" => Eff::None,
            "lc" => {
                if self.l {
                    return Eff::Illegal;
                }
                self.l = true;
                self.spent = false;
                if self.st == St::Ready && !self.r && self.inside(p) {
                    self.st = St::Pre;
                }
                Eff::None
            }
            "lr" => {
                if !self.l {
                    return Eff::Illegal;
                }
                self.l = false;
                if self.r {
                    return self.release_both(p);
                }
                if self.spent || self.st == St::Ready {
                    return Eff::None;
                }
                if !self.inside(p) {
                    if self.st == St::Pre && self.flags() == 0 {
                        self.restart();
                        return Eff::None;
                    }
                    return Eff::None;
                }
                if self.st == St::Pre {
                    if self.gb[p.0][p.1] == 11 {
                        return Eff::None;
                    }
                    self.st = St::Playing;
                }
                self.open(p)
            }
            "rc" => {
                if self.r {
                    return Eff::Illegal;
                }
                self.r = true;
                self.idle_right = false;
                if self.l {
                    self.spent = true;
                    if self.st == St::Pre && self.flags() == 0 {
                        self.st = St::Ready;
                    }
                    return Eff::None;
                }
                if !self.inside(p) {
                    return Eff::None;
                }
                if self.st == St::Ready {
                    self.st = St::Pre;
                }
                let eff = self.toggle(p);
                if self.st == St::Pre && self.flags() == 0 {
                    self.restart();
                    return Eff::Unstart;
                }
                if eff == Eff::None {
                    self.idle_right = true;
                }
                eff
            }
            "rr" => {
                if !self.r {
                    return Eff::Illegal;
                }
                self.r = false;
                if self.l {
                    self.spent = true;
                    return self.release_both(p);
                }
                self.idle_right = false;
                Eff::None
            }
            "mc" if self.st == St::Playing => {
                if self.mid {
                    return Eff::Illegal;
                }
                self.mid = true;
                Eff::None
            }
            "mr" if self.st == St::Playing => {
                if !self.mid {
                    return Eff::Illegal;
                }
                self.mid = false;
                self.chord(p)
            }
            // a mark set before the game, its press having been lost
            "pf" if (self.st == St::Ready || self.st == St::Pre) && self.inside(p) && self.gb[p.0][p.1] == 10 => {
                self.st = St::Pre;
                self.toggle(p)
            }
            _ => Eff::Illegal,
        }
    }
}

pub type Ev = (&'static str, P);

#[derive(Clone, Copy)]
pub struct Opts {
    /// names other than lc lr rc rr mv (cc crl crr l r m mc mr pf)
    pub aliases: bool,
    /// raw events that may be illegal
    pub illegal: bool,
    /// presses outside the board (during play)
    pub outside: bool,
    pub middle: bool,
    pub moves: bool,
    pub max: usize,
}
struct Gen<'a> {
    g: Game,
    v: Vec<Ev>,
    s: &'a mut Src,
    o: Opts,
}
impl Gen<'_> {
    fn raw(&mut self, e: &'static str, p: P) {
        self.g.event(e, p);
        self.v.push((e, p));
    }
    /// One physical change of a button, under any of its names.
    fn phys(&mut self, e: &'static str, p: P) {
        let mut name = e;
        if self.o.aliases && self.s.chance(1, 4) {
            let playing = self.g.st == St::Playing;
            let both = self.g.l && self.g.r;
            name = match e {
                "lc" if self.g.r && self.s.chance(1, 2) => "cc",
                "rc" if self.g.l && self.s.chance(1, 2) => "cc",
                "lc" if playing => "l",
                "rc" if playing && self.inside(p) => "r",
                "lr" if playing && both && self.s.chance(1, 2) => "crl",
                "rr" if playing && both && self.s.chance(1, 2) => "crr",
                "lr" if playing => "l",
                "rr" if playing => "r",
                "mc" | "mr" if playing => "m",
                x => x,
            };
        }
        self.raw(name, p);
        if self.o.moves && self.s.chance(1, 6) {
            let q = self.any_cell();
            self.raw("mv", q);
        }
    }
    fn inside(&self, p: P) -> bool {
        self.g.inside(p)
    }
    fn any_cell(&mut self) -> P {
        let (r, c) = dims(&self.g.board);
        (self.s.us(0, r - 1), self.s.us(0, c - 1))
    }
    fn rel(&mut self, p: P) -> P {
        match self.s.weighted(&[24, 1, 1]) {
            0 => p,
            1 => dims(&self.g.board),
            _ => self.any_cell(),
        }
    }
    fn cells(&self, f: impl Fn(P) -> bool) -> Vec<P> {
        let (r, c) = dims(&self.g.board);
        (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| f(*p)).collect()
    }
    fn lclick(&mut self, p: P) {
        if self.g.r {
            let q = self.rel(p);
            self.phys("rr", q);
        }
        if !self.g.l {
            self.phys("lc", p);
        }
        let q = self.rel(p);
        self.phys("lr", q);
    }
    fn rclick(&mut self, p: P) {
        if self.g.l {
            let q = self.rel(p);
            self.phys("lr", q);
        }
        if !self.g.r {
            self.phys("rc", p);
        }
        let q = self.rel(p);
        if self.s.chance(15, 16) {
            self.phys("rr", q);
        }
    }
    fn chord(&mut self, p: P) {
        if self.g.l || self.g.r {
            // continue from whatever is held
        }
        let left_first = self.s.chance(1, 2);
        for b in if left_first { ["lc", "rc"] } else { ["rc", "lc"] } {
            let down = if b == "lc" { self.g.l } else { self.g.r };
            if !down {
                self.phys(b, p);
            }
        }
        let lr_first = self.s.chance(1, 2);
        let q = self.rel(p);
        self.phys(if lr_first { "lr" } else { "rr" }, q);
        match self.s.weighted(&[10, 1, 1]) {
            0 => {}
            1 => {
                // chord again without letting the other button go
                let p2 = self.any_cell();
                self.phys(if lr_first { "lc" } else { "rc" }, p2);
                let q = self.rel(p2);
                self.phys(if lr_first { "lr" } else { "rr" }, q);
            }
            _ => return,
        }
        self.phys(if lr_first { "rr" } else { "lr" }, q);
    }
    fn mark_and_chord(&mut self, p: P) {
        let (rows, cols) = dims(&self.g.board);
        let wrong = self.s.chance(1, 10);
        let nb = nbrs(p.0, p.1, rows, cols);
        let need: Vec<P> = if wrong {
            let mut cl: Vec<P> = nb.iter().copied().filter(|q| self.g.gb[q.0][q.1] == 10).collect();
            self.s.shuffle(&mut cl);
            let have = nb.iter().filter(|q| self.g.gb[q.0][q.1] == 11).count();
            let v = self.g.gb[p.0][p.1].max(0) as usize;
            cl.truncate(v.saturating_sub(have));
            cl
        } else {
            nb.iter().copied().filter(|q| (self.g.gb[q.0][q.1] == 10) == (self.g.board[q.0][q.1] == -1) && self.g.gb[q.0][q.1] >= 10).filter(|q| self.g.gb[q.0][q.1] == 10 || self.g.gb[q.0][q.1] == 11).collect()
        };
        for q in need {
            if !self.g.over() {
                self.rclick(q);
            }
        }
        if self.o.middle && self.g.st == St::Playing && self.s.chance(1, 8) {
            self.phys("mc", p);
            self.phys("mr", p);
        } else {
            self.chord(p);
        }
    }
    fn one(&mut self) {
        let playing = self.g.st == St::Playing;
        let safe = self.cells(|p| self.g.gb[p.0][p.1] == 10 && self.g.board[p.0][p.1] >= 0);
        let mines = self.cells(|p| self.g.gb[p.0][p.1] == 10 && self.g.board[p.0][p.1] == -1);
        let marks = self.cells(|p| self.g.gb[p.0][p.1] == 11);
        let nums = self.cells(|p| (1..=8).contains(&self.g.gb[p.0][p.1]));
        let zeros = self.cells(|p| self.g.gb[p.0][p.1] == 10 && self.g.board[p.0][p.1] == 0);
        let w: [u64; 9] = if playing { [8, 1, 4, 2, 9, 3, 2, 1, 2] } else { [4, 1, 3, 3, 0, 2, 2, 2, 1] };
        match self.s.weighted(&w) {
            0 if !safe.is_empty() => {
                let p = *self.s.pick(&safe);
                self.lclick(p)
            }
            1 => {
                let p = self.any_cell();
                if self.s.chance(1, 3) {
                    self.lclick(p)
                } else {
                    self.chord(p)
                }
            }
            2 if !mines.is_empty() => {
                let p = *self.s.pick(&mines);
                self.rclick(p)
            }
            3 if !marks.is_empty() => {
                let p = *self.s.pick(&marks);
                if self.s.chance(1, 3) {
                    self.lclick(p)
                } else {
                    self.rclick(p)
                }
            }
            4 if !nums.is_empty() => {
                // prefer numbers that still have something closed around them
                let (rows, cols) = dims(&self.g.board);
                let useful: Vec<P> = nums.iter().copied().filter(|p| nbrs(p.0, p.1, rows, cols).iter().any(|q| self.g.gb[q.0][q.1] == 10 && self.g.board[q.0][q.1] >= 0)).collect();
                let p = if !useful.is_empty() && self.s.chance(7, 8) { *self.s.pick(&useful) } else { *self.s.pick(&nums) };
                self.mark_and_chord(p)
            }
            5 if !zeros.is_empty() => {
                // a mark in the middle of an opening
                let p = *self.s.pick(&zeros);
                self.rclick(p)
            }
            6 => {
                // buttons held across cells
                let p = self.any_cell();
                let e = *self.s.pick(&["lc", "rc", "lr", "rr"]);
                let legal = match e {
                    "lc" => !self.g.l,
                    "rc" => !self.g.r,
                    "lr" => self.g.l,
                    _ => self.g.r,
                };
                let risky = e == "lr" && !self.g.r && !self.g.spent && self.g.board[p.0][p.1] == -1;
                if legal && (!risky || self.s.chance(1, 8)) {
                    self.phys(e, p)
                }
            }
            7 if self.o.illegal => {
                let names = ["lc", "lr", "rc", "rr", "cc", "crl", "crr", "l", "r", "m", "mc", "mr", "pf", "zz", ""];
                let e = *self.s.pick(&names);
                let p = if playing && self.o.outside && self.s.chance(1, 6) { dims(&self.g.board) } else { self.any_cell() };
                self.raw(e, p)
            }
            7 if self.o.aliases && !playing => {
                let p = self.any_cell();
                if self.g.gb[p.0][p.1] == 10 {
                    self.raw("pf", p)
                }
            }
            8 if self.o.outside && playing => {
                let p = dims(&self.g.board);
                let e = *self.s.pick(&["lc", "rc"]);
                let legal = if e == "lc" { !self.g.l } else { !self.g.r };
                if legal {
                    self.phys(e, p)
                }
            }
            _ => {
                if !safe.is_empty() {
                    let p = *self.s.pick(&safe);
                    self.lclick(p)
                }
            }
        }
    }
}
/// A sequence of events of a game on `board`, from idle buttons; may end anywhere, may go on after the end of the game.
pub fn history(s: &mut Src, board: &B, o: Opts) -> Vec<Ev> {
    let mut g = Gen { g: Game::new(board), v: vec![], s, o };
    let pre = if g.s.chance(1, 3) { g.s.us(1, 5) } else { 0 };
    for _ in 0..pre {
        if !g.g.over() {
            g.one();
        }
    }
    let n = match g.s.weighted(&[2, 3, 5]) {
        0 => g.s.us(1, 8),
        1 => g.s.us(4, 40),
        _ => o.max,
    };
    let mut steps = 0;
    while steps < n && !g.g.over() && g.v.len() < o.max * 6 {
        g.one();
        steps += 1;
    }
    if g.g.over() && g.s.chance(1, 3) {
        for _ in 0..g.s.us(1, 4) {
            let p = g.any_cell();
            let e = *g.s.pick(&["lc", "lr", "rc", "rr", "mv"]);
            g.v.push((e, p));
        }
    }
    g.v
}

/// The same history with positions outside the board written in other ways: outside in one coordinate only, or far away.
pub fn scatter(s: &mut Src, board: &B, evs: Vec<Ev>) -> Vec<Ev> {
    let (rows, cols) = dims(board);
    evs.into_iter()
        .map(|(e, p)| {
            if p.0 < rows && p.1 < cols || s.chance(1, 3) {
                return (e, p);
            }
            let wrap = *s.pick(&[256, 65536, 1 << 16 << 8]);
            let (r, c) = (s.us(0, rows - 1), s.us(0, cols - 1));
            let q = match s.us(0, 4) {
                0 => (rows, c),
                1 => (r, cols),
                2 => (rows + s.us(0, 300), c),
                3 => (r, cols + s.us(0, 300)),
                _ => (r + wrap, c + wrap),
            };
            (e, q)
        })
        .collect()
}
/// Continues a history until the game is over.
pub fn finish(s: &mut Src, board: &B, evs: Vec<Ev>, o: Opts) -> Vec<Ev> {
    let mut g = Gen { g: Game::new(board), v: vec![], s, o };
    for (e, p) in evs {
        g.raw(e, p);
    }
    let (rows, cols) = dims(board);
    let lose_after = if g.s.chance(1, 4) { g.s.us(0, 5) } else { usize::MAX };
    for i in 0..4 * rows * cols + 20 {
        if g.g.over() {
            break;
        }
        let mines = g.cells(|p| g.g.gb[p.0][p.1] == 10 && g.g.board[p.0][p.1] == -1);
        let safe = g.cells(|p| g.g.gb[p.0][p.1] == 10 && g.g.board[p.0][p.1] >= 0);
        let marked = g.cells(|p| g.g.gb[p.0][p.1] == 11);
        if (safe.is_empty() && marked.iter().all(|p| board[p.0][p.1] == -1) || i >= lose_after) && !mines.is_empty() {
            let p = mines[0];
            g.lclick(p);
        } else if !safe.is_empty() {
            let p = *g.s.pick(&safe);
            g.lclick(p);
        } else if !marked.is_empty() {
            let wrong: Vec<P> = marked.iter().copied().filter(|p| board[p.0][p.1] >= 0).collect();
            let p = if wrong.is_empty() { marked[0] } else { wrong[0] };
            g.rclick(p);
        }
    }
    g.v
}
