//! C01-C05, C14, C19, C23, C24, C27: layouts, statistics, revealing, constraint extraction, guarded board, board objects.
use crate::core::*;
use crate::refm::*;
use crate::{ensure, ensure_eq, gen};
use ms_toollib as ms;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "Random dimensions (1..24 x 1..30, rows and columns independent), every mine count class up to the largest legal one, every starting cell, random stream seeded per case; plus every starting cell of small boards at every mine count, and boards of up to 300x300 or 3x1000 cells on a thread with the default stack. A case is non-trivial if the board has at least one mine and one free non-start cell.",
            assumptions: &["the random source behind the library is the harness's seeded stream", "mine counts that cannot fit are outside the documented domain"],
            subs: vec![
                Sub { name: "laymine", f: c01_laymine, quick: 300000, thorough: 4500000, serial: false },
                Sub { name: "laymine_op", f: c01_laymine_op, quick: 300000, thorough: 4500000, serial: false },
                Sub { name: "large", f: c01_large, quick: 2000, thorough: 60000, serial: false },
                Sub { name: "small_all_starts", f: c01_small, quick: 30000, thorough: 450000, serial: false },
            ] },
        Prop { id: "C02", rule: "A case fixes generator, size, mine count and start and draws thousands of boards; non-trivial if the allowed cells are neither all mined nor all free.",
            assumptions: &["threshold of 7 standard deviations per statistic: a correct generator fails a run with probability below 1e-6"],
            subs: vec![
                Sub { name: "frequencies", f: c02_freq, quick: 160, thorough: 2400, serial: false },
                Sub { name: "wasm", f: c02_wasm, quick: 80, thorough: 1200, serial: false },
            ] },
        Prop { id: "C03", rule: "Random boards of 1..18 x 1..32 cells in five density regimes including empty, full, clustered and lined boards; getter sequences of length up to 40 on one board object; boards up to 255x255 with one huge opening or a long winding corridor, on a thread with the default stack. Non-trivial: at least one mine and one zero or island cell (large: an opening area of more than 1000 cells).",
            assumptions: &[],
            subs: vec![
                Sub { name: "definitions", f: c03_defs, quick: 400000, thorough: 6000000, serial: false },
                Sub { name: "board_object", f: c03_object, quick: 150000, thorough: 2250000, serial: false },
                Sub { name: "large", f: c03_large, quick: 1500, thorough: 60000, serial: false },
            ] },
        Prop { id: "C04", rule: "Random board, prior position with opened areas, right and wrong flags and known-safe marks, and a list of up to 8 cells to open in any order, mines and repetitions included; also boards up to 255x255 on a thread with the default stack. Non-trivial: the call reveals more than the requested cells, or hits a mine (large: more than 1000 cells opened).",
            assumptions: &["cells showing end-of-game marks are not opened again (callers never do)"],
            subs: vec![
                Sub { name: "reveal", f: c04_reveal, quick: 600000, thorough: 9000000, serial: false },
                Sub { name: "large", f: c04_large, quick: 1500, thorough: 60000, serial: false },
            ] },
        Prop { id: "C05", rule: "Random positions (flood-opened, or single cells opened) on boards up to 12x14 and expert-size boards, with known-mine and known-safe marks. Non-trivial: at least two equations; classes count multi-block cases.",
            assumptions: &["marks on the board are correct, as the functions document"],
            subs: vec![
                Sub { name: "systems", f: c05_systems, quick: 300000, thorough: 4500000, serial: false },
                Sub { name: "systems_big", f: c05_big, quick: 1500, thorough: 22500, serial: false },
            ] },
        Prop { id: "C14", rule: "Random rectangular boards over every documented cell code (-1..8, 10, 11, 12, 14, 15, 16), conversions, indexing, iteration, replacement by boards of other sizes. Non-trivial: at least 6 cells and 3 distinct codes.",
            assumptions: &[],
            subs: vec![Sub { name: "roundtrip", f: c14_round, quick: 200000, thorough: 3000000, serial: false }] },
        Prop { id: "C19", rule: "Sequences of up to 8 operations (replace the board, query any of five results) on one object, over consistent positions with arbitrary flags, up to 7x7 and of the standard sizes. Non-trivial: at least two queries and a number next to a closed cell.",
            assumptions: &["boards whose joint mine-count table would exceed 20000 combinations are excluded (memory)"],
            subs: vec![
                Sub { name: "history", f: c19_history, quick: 120000, thorough: 1800000, serial: false },
                Sub { name: "history_big", f: c19_big, quick: 5000, thorough: 100000, serial: false },
            ] },
        Prop { id: "C23", rule: "Constraint blocks of random positions, up to 16 cells enumerated exhaustively and larger ones by dynamic programming; random partial tables for the one-step enumerator. Non-trivial: block with at least two equations and three cells.",
            assumptions: &["blocks above the documented size limit are excluded"],
            subs: vec![
                Sub { name: "tables", f: c23_tables, quick: 200000, thorough: 3000000, serial: false },
                Sub { name: "one_step", f: c23_onestep, quick: 200000, thorough: 3000000, serial: false },
            ] },
        Prop { id: "C27", rule: "Random positions with correct flags, every cell of the board judged, edges and corners included. Non-trivial: the board has at least one cell judged good.",
            assumptions: &["flags are correct, as the function documents"],
            subs: vec![Sub { name: "judge", f: c27_judge, quick: 300000, thorough: 4500000, serial: false }] },
    ]
}

// ---------------------------------------------------------------- C01
pub fn check_layout(b: &B, rows: usize, cols: usize, m: usize) -> R {
    ensure_eq!(b.len(), rows, "layout:rows", "number of rows");
    for r in b {
        ensure_eq!(r.len(), cols, "layout:cols", "number of columns");
    }
    ensure_eq!(mine_count(b), m, "layout:mines", "number of mines in {:?}", b);
    let flat: Vec<bool> = b.iter().flatten().map(|x| *x == -1).collect();
    ensure_eq!(*b, from_mines(rows, cols, &flat), "layout:numbers", "numbers of the layout");
    Ok(())
}
fn dims_gen(s: &mut Src) -> (usize, usize) {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => (s.us(1, 9), s.us(1, 9)),
        1 => (s.us(1, 24), s.us(1, 30)),
        2 => (1, s.us(1, 40)),
        _ => *s.pick(&[(8, 8), (16, 16), (16, 30), (30, 16), (20, 24)]),
    }
}
fn count_gen(s: &mut Src, max: usize) -> usize {
    match s.weighted(&[6, 1, 1, 1]) {
        0 => s.us(0, max),
        1 => max,
        2 => s.us(0, max / 4),
        _ => max.saturating_sub(s.us(0, 2)),
    }
}
fn c01_laymine(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = dims_gen(s);
    let m = count_gen(s, rows * cols - 1);
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let seed = s.seed64();
    c.input("rows,cols,mines,x0,y0,seed", &(rows, cols, m, x0, y0, seed));
    c.nontrivial(m > 0 && m < rows * cols - 1);
    c.class_if(rows != cols, "rows!=cols");
    c.class_if(m * 2 > rows * cols, "dense");
    let b = lib("laymine", || with_rng(seed, || ms::laymine(rows, cols, m, x0, y0)))?;
    check_layout(&b, rows, cols, m)?;
    ensure!(b[x0][y0] != -1, "layout:start", "mine on the starting cell of {:?}", b);
    Ok(())
}
fn op_area(rows: usize, cols: usize, x0: usize, y0: usize) -> usize {
    nbrs(x0, y0, rows, cols).len() + 1
}
fn c01_laymine_op(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = dims_gen(s);
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let max = rows * cols - op_area(rows, cols, x0, y0);
    let m = count_gen(s, max);
    let seed = s.seed64();
    c.input("rows,cols,mines,x0,y0,seed", &(rows, cols, m, x0, y0, seed));
    c.nontrivial(m > 0 && m < max);
    c.class_if(rows != cols, "rows!=cols");
    c.class_if(m == max, "all_outside_mined");
    c.class_if(rows < 2 || cols < 2, "single_line");
    let b = lib("laymine_op", || with_rng(seed, || ms::laymine_op(rows, cols, m, x0, y0)))?;
    check_layout(&b, rows, cols, m)?;
    ensure!(b[x0][y0] == 0, "layout:opening", "the starting cell is not an opening in {:?}", b);
    Ok(())
}
/// Boards of up to 300 x 300 cells.
fn c01_large(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = match s.below(3) {
        0 => (s.us(30, 300), s.us(30, 300)),
        1 => (s.us(1, 3), s.us(100, 1000)),
        _ => (s.us(100, 1000), s.us(1, 3)),
    };
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let op = s.chance(1, 2);
    let max = rows * cols - if op { op_area(rows, cols, x0, y0) } else { 1 };
    let m = count_gen(s, max);
    let seed = s.seed64();
    c.input("rows,cols,mines,x0,y0,op,seed", &(rows, cols, m, x0, y0, op, seed));
    c.nontrivial(m > 0 && m < max);
    let b = lib("generator", || default_stack(|| {
        getrandom::set_thread_seed(seed);
        if op {
            ms::laymine_op(rows, cols, m, x0, y0)
        } else {
            ms::laymine(rows, cols, m, x0, y0)
        }
    }))?;
    let flat: Vec<bool> = b.iter().flatten().map(|x| *x == -1).collect();
    ensure_eq!((b.len(), b.iter().all(|r| r.len() == cols), mine_count(&b)), (rows, true, m), "layout:large", "rows, columns and mines");
    ensure!(b == from_mines(rows, cols, &flat), "layout:numbers", "numbers of the layout");
    ensure!(b[x0][y0] != -1 && (!op || b[x0][y0] == 0), "layout:start", "starting cell shows {}", b[x0][y0]);
    Ok(())
}
fn c01_small(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = (s.us(1, 4), s.us(1, 5));
    let seed = s.seed64();
    c.input("rows,cols,seed", &(rows, cols, seed));
    c.nontrivial(rows * cols > 2);
    with_rng(seed, || {
        for x0 in 0..rows {
            for y0 in 0..cols {
                for m in 0..rows * cols {
                    let b = lib("laymine", || ms::laymine(rows, cols, m, x0, y0))?;
                    check_layout(&b, rows, cols, m)?;
                    ensure!(b[x0][y0] != -1, "layout:start", "mine on the starting cell {:?} of {:?}", (x0, y0), b);
                    if m + op_area(rows, cols, x0, y0) <= rows * cols {
                        let b = lib("laymine_op", || ms::laymine_op(rows, cols, m, x0, y0))?;
                        check_layout(&b, rows, cols, m)?;
                        ensure!(b[x0][y0] == 0, "layout:opening", "start {:?} is not an opening in {:?}", (x0, y0), b);
                    }
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C02
fn c02_freq(s: &mut Src, c: &mut Case) -> R {
    let Some(g) = lay_setup(s, c, &[(4, 4), (3, 5), (5, 3), (2, 9), (6, 6), (8, 8), (5, 12), (9, 4), (16, 30), (16, 16), (1, 12), (12, 1)]) else { return Ok(()) };
    let Lay { op, rows, cols, x0, y0, m, .. } = g;
    let seed = s.seed64();
    let n = if rows * cols > 100 { 3000 } else { 12000 };
    c.input("boards,seed", &(n, seed));
    let mut t = Tally::new(&g.free);
    lib("generator", || {
        with_rng(seed, || {
            for _ in 0..n {
                let b = if op { ms::laymine_op(rows, cols, m, x0, y0) } else { ms::laymine(rows, cols, m, x0, y0) };
                t.add(|p| b[p.0][p.1] == -1);
            }
        })
    })?;
    t.judge(&g)
}
/// The generators as the WebAssembly package is built (feature js), which shuffle by code of the library's own and draw
/// from the system: nothing here is repeatable, which the thresholds allow for.
fn c02_wasm(s: &mut Src, c: &mut Case) -> R {
    let Some(g) = lay_setup(s, c, &[(4, 4), (3, 5), (2, 9), (5, 5), (2, 2), (1, 12), (9, 1), (6, 8), (8, 8), (16, 16)]) else { return Ok(()) };
    let n = if g.rows * g.cols > 70 { 1500 } else { 4000 };
    c.input("boards", &n);
    let mut t = Tally::new(&g.free);
    for b in super::p_bind::wasm_layouts(g.op, g.rows, g.cols, g.m, g.x0, g.y0, n)? {
        t.add(|p| b[p.0 * g.cols + p.1] == b'1');
    }
    t.judge(&g)
}
struct Lay {
    op: bool,
    rows: usize,
    cols: usize,
    x0: usize,
    y0: usize,
    m: usize,
    free: Vec<P>,
}
fn lay_setup(s: &mut Src, c: &mut Case, sizes: &[P]) -> Option<Lay> {
    let op = s.chance(1, 2);
    let (rows, cols) = *s.pick(sizes);
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    if op && (rows < 2 || cols < 2) && op_area(rows, cols, x0, y0) >= rows * cols {
        return None;
    }
    let free: Vec<P> = (0..rows)
        .flat_map(|r| (0..cols).map(move |k| (r, k)))
        .filter(|p| if op { p.0.abs_diff(x0) > 1 || p.1.abs_diff(y0) > 1 } else { *p != (x0, y0) })
        .collect();
    if free.is_empty() {
        return None;
    }
    let k = free.len();
    let m = s.us(1, k);
    c.input("op,rows,cols,x0,y0,mines", &(op, rows, cols, x0, y0, m));
    c.nontrivial(m < k);
    c.class(if op { "opening" } else { "plain" });
    Some(Lay { op, rows, cols, x0, y0, m, free })
}
/// How often each cell, each two cells (of up to 70) and each two consecutive cells were mined
struct Tally {
    free: Vec<P>,
    n: usize,
    cnt: Vec<u32>,
    pc: Vec<u32>,
    adj: Vec<u32>,
}
impl Tally {
    fn new(free: &[P]) -> Tally {
        let k = free.len();
        Tally { free: free.to_vec(), n: 0, cnt: vec![0; k], pc: vec![0; if k <= 70 { k * k } else { 0 }], adj: vec![0; k] }
    }
    fn add(&mut self, mine: impl Fn(P) -> bool) {
        let k = self.free.len();
        let v: Vec<bool> = self.free.iter().map(|p| mine(*p)).collect();
        self.n += 1;
        for i in 0..k {
            if v[i] {
                self.cnt[i] += 1;
                if !self.pc.is_empty() {
                    for j in 0..i {
                        if v[j] {
                            self.pc[i * k + j] += 1;
                        }
                    }
                }
                if v[(i + 1) % k] {
                    self.adj[i] += 1;
                }
            }
        }
    }
    fn judge(&self, g: &Lay) -> R {
        let (free, n, k, m) = (&self.free, self.n, self.free.len(), g.m);
        let nf = n as f64;
        let p1 = m as f64 / k as f64;
        // Chernoff: a count as far off as this has a probability below exp(-n KL(x/n, p)); e^-30 is about 1e-13
        let kl = |x: f64, p: f64| if x == 0.0 { 0.0 } else { x * (x / p).ln() };
        let dev = |x: u32, p: f64| {
            let q = x as f64 / nf;
            nf * (kl(q, p) + kl(1.0 - q, 1.0 - p))
        };
        for i in 0..k {
            let z = dev(self.cnt[i], p1);
            ensure!(z < 30.0, "uniform:cell", "cell {:?} was mined in {} of {} boards, expected about {:.1} (n KL = {:.1})", free[i], self.cnt[i], n, nf * p1, z);
        }
        if k > 1 {
            let p2 = p1 * (m as f64 - 1.0) / (k as f64 - 1.0);
            for i in 0..k {
                if k > 2 {
                    let z = dev(self.adj[i], p2);
                    ensure!(z < 30.0, "uniform:pair", "cells {:?} and {:?} jointly mined in {} of {} boards, expected about {:.1} (n KL = {:.1})", free[i], free[(i + 1) % k], self.adj[i], n, nf * p2, z);
                }
                if !self.pc.is_empty() {
                    for j in 0..i {
                        let z = dev(self.pc[i * k + j], p2);
                        ensure!(z < 30.0, "uniform:pair", "cells {:?} and {:?} jointly mined in {} of {} boards, expected about {:.1} (n KL = {:.1})", free[i], free[j], self.pc[i * k + j], n, nf * p2, z);
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C03
fn c03_defs(s: &mut Src, c: &mut Case) -> R {
    let b = if s.chance(1, 8) { gen::board(s, 1, 18, 1, 32) } else { gen::board(s, 1, 9, 1, 9) };
    c.input("board", &b);
    let st = stats(&b);
    c.nontrivial(mine_count(&b) > 0 && st.bbbv > 0);
    c.class_if(st.op > 1, "several_openings");
    c.class_if(st.isl > 1, "several_islands");
    ensure_eq!(lib("cal_bbbv", || ms::cal_bbbv(&b))?, st.bbbv, "stat:3bv", "3BV");
    ensure_eq!(lib("cal_op", || ms::cal_op(&b))?, st.op, "stat:op", "openings");
    ensure_eq!(lib("cal_isl", || ms::cal_isl(&b))?, st.isl, "stat:isl", "islands");
    ensure_eq!(lib("cal_cell_nums", || ms::cal_cell_nums(&b))?, st.nums, "stat:nums", "frequencies of digits");
    let sb = ms::SafeBoard::new(b.clone());
    ensure_eq!(lib("cal_bbbv", || ms::cal_bbbv(&sb))?, st.bbbv, "stat:3bv", "3BV of the guarded board");
    ensure_eq!(lib("cal_op", || ms::cal_op(&sb))?, st.op, "stat:op", "openings of the guarded board");
    ensure_eq!(lib("cal_isl", || ms::cal_isl(&sb))?, st.isl, "stat:isl", "islands of the guarded board");
    ensure_eq!(lib("cal_cell_nums", || ms::cal_cell_nums(&sb))?, st.nums, "stat:nums", "digits of the guarded board");
    Ok(())
}
fn c03_large(s: &mut Src, c: &mut Case) -> R {
    let b = gen::larger(s);
    c.input("board", &(dims(&b), b.iter().flatten().enumerate().filter(|x| *x.1 == -1).map(|x| x.0).collect::<Vec<_>>()));
    let st = stats(&b);
    c.nontrivial(st.region.iter().flatten().filter(|x| **x != usize::MAX).count() > 1000);
    let got = lib("statistics", || default_stack(|| (ms::cal_bbbv(&b), ms::cal_op(&b), ms::cal_isl(&b), ms::cal_cell_nums(&b))))?;
    ensure_eq!(got, (st.bbbv, st.op, st.isl, st.nums), "stat:large", "3BV, openings, islands and digits");
    Ok(())
}
fn c04_large(s: &mut Src, c: &mut Case) -> R {
    let b = gen::larger(s);
    let (rows, cols) = dims(&b);
    let k = s.us(1, 4);
    let cells: Vec<P> = (0..k).map(|_| (s.us(0, rows - 1), s.us(0, cols - 1))).filter(|p| b[p.0][p.1] != -1).collect();
    c.input("board", &(dims(&b), b.iter().flatten().enumerate().filter(|x| *x.1 == -1).map(|x| x.0).collect::<Vec<_>>()));
    c.input("cells", &cells);
    let mut gb = vec![vec![10; cols]; rows];
    lib("refresh_board", || default_stack(|| ms::refresh_board(&b, &mut gb, cells.clone())))?;
    let mut want = vec![vec![10; cols]; rows];
    open_cells(&b, &mut want, &cells);
    c.nontrivial(want.iter().flatten().filter(|x| **x < 10).count() > 1000);
    ensure!(gb == want, "reveal:large", "the opened cells differ from the expected");
    Ok(())
}
fn c03_object(s: &mut Src, c: &mut Case) -> R {
    let b = gen::board(s, 1, 9, 1, 9);
    let n = s.us(1, 16);
    let seq: Vec<usize> = (0..n).map(|_| s.us(0, 11)).collect();
    c.input("board", &b);
    c.input("getters", &seq);
    let st = stats(&b);
    c.nontrivial(st.bbbv > 0 && seq.iter().collect::<BTreeSet<_>>().len() < n);
    c.class_if(seq.windows(2).any(|w| w == [1, 0]), "openings_then_3bv");
    let mut o = ms::Board::new(b.clone());
    for (i, g) in seq.iter().enumerate() {
        let (got, want) = lib("Board", || match g {
            0 => (o.get_bbbv(), st.bbbv),
            1 => (o.get_op(), st.op),
            2 => (o.get_isl(), st.isl),
            3 => (o.get_cell0(), st.nums[0]),
            4 => (o.get_cell1(), st.nums[1]),
            5 => (o.get_cell2(), st.nums[2]),
            6 => (o.get_cell3(), st.nums[3]),
            7 => (o.get_cell4(), st.nums[4]),
            8 => (o.get_cell5(), st.nums[5]),
            9 => (o.get_cell6(), st.nums[6]),
            10 => (o.get_cell7(), st.nums[7]),
            _ => (o.get_cell8(), st.nums[8]),
        })?;
        ensure_eq!(got, want, "stat:object", "getter {} (0=3BV 1=openings 2=islands 3..=digit counts) at step {} of {:?}", g, i, seq);
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
fn c04_reveal(s: &mut Src, c: &mut Case) -> R {
    let b = if s.chance(1, 20) { gen::board(s, 8, 16, 8, 30) } else { gen::board(s, 1, 9, 1, 9) };
    let (rows, cols) = dims(&b);
    let mut gb = gen::position(s, &b, true);
    // flags and known-safe marks on closed cells
    if s.chance(2, 3) {
        let k = s.us(0, 5);
        for _ in 0..k {
            let (r, q) = (s.us(0, rows - 1), s.us(0, cols - 1));
            if gb[r][q] == 10 {
                gb[r][q] = if s.chance(1, 3) && b[r][q] >= 0 { 12 } else { 11 };
            }
        }
    }
    let k = s.us(0, 8);
    let cells: Vec<P> = (0..k).map(|_| (s.us(0, rows - 1), s.us(0, cols - 1))).collect();
    c.input("board", &b);
    c.input("game_board", &gb);
    c.input("open", &cells);
    let mut want = gb.clone();
    open_cells(&b, &mut want, &cells);
    let hit = cells.iter().any(|p| b[p.0][p.1] == -1);
    for r in 0..rows {
        for q in 0..cols {
            if want[r][q] == -1 {
                want[r][q] = 15;
            } else if hit && want[r][q] == 11 && b[r][q] != -1 {
                want[r][q] = 14;
            }
        }
    }
    let changed = (0..rows).flat_map(|r| (0..cols).map(move |q| (r, q))).filter(|p| want[p.0][p.1] != gb[p.0][p.1]).count();
    c.nontrivial(hit || changed > cells.len());
    c.class_if(hit, "mine_hit");
    c.class_if(hit && want.iter().flatten().any(|x| *x == 14), "wrong_flag_shown");
    c.class_if(changed > cells.len(), "flood");
    c.class_if(gb.iter().flatten().any(|x| *x == 12), "known_safe_marks");
    let mut got = gb.clone();
    lib("refresh_board", || ms::refresh_board(&b, &mut got, cells.clone()))?;
    ensure_eq!(got, want, "reveal", "board after opening");
    let sb = ms::SafeBoard::new(b.clone());
    let mut got = gb.clone();
    lib("refresh_board", || ms::refresh_board(&sb, &mut got, cells.clone()))?;
    ensure_eq!(got, want, "reveal:guarded", "board after opening on the guarded board");
    Ok(())
}

// ---------------------------------------------------------------- C05
/// The equations a board stands for: number cell -> (its undetermined neighbours, remaining mines).
fn equations(gb: &B, zeros: bool) -> Vec<(Vec<P>, i32)> {
    let (rows, cols) = dims(gb);
    let mut v = vec![];
    for r in 0..rows {
        for q in 0..cols {
            if gb[r][q] <= 8 && gb[r][q] >= if zeros { 0 } else { 1 } {
                let nb = nbrs(r, q, rows, cols);
                let mut unk: Vec<P> = nb.iter().copied().filter(|p| gb[p.0][p.1] == 10).collect();
                unk.sort();
                if !unk.is_empty() {
                    v.push((unk, gb[r][q] - nb.iter().filter(|p| gb[p.0][p.1] == 11).count() as i32));
                }
            }
        }
    }
    v.sort();
    v
}
fn system(a: &Vec<Vec<i32>>, x: &Vec<P>, b: &Vec<i32>) -> Result<Vec<(Vec<P>, i32)>, Fail> {
    ensure_eq!(a.len(), b.len(), "matrix:shape", "rows of the matrix and of the right-hand side");
    let set: BTreeSet<P> = x.iter().copied().collect();
    ensure_eq!(set.len(), x.len(), "matrix:duplicate_cell", "distinct cells in {:?}", x);
    let mut v = vec![];
    for (row, k) in a.iter().zip(b) {
        ensure_eq!(row.len(), x.len(), "matrix:shape", "columns of the matrix and cells");
        ensure!(row.iter().all(|e| *e == 0 || *e == 1), "matrix:coefficient", "coefficients are 0 or 1: {:?}", row);
        let mut cs: Vec<P> = x.iter().zip(row).filter(|e| *e.1 == 1).map(|e| *e.0).collect();
        cs.sort();
        v.push((cs, *k));
    }
    v.sort();
    Ok(v)
}
fn c05_systems(s: &mut Src, c: &mut Case) -> R {
    let b = gen::board(s, 1, 10, 1, 12);
    c05_on(s, c, b)
}
fn c05_big(s: &mut Src, c: &mut Case) -> R {
    let (r, q, m) = *s.pick(&[(16, 30, 99), (16, 16, 40), (24, 30, 150), (16, 30, 60)]);
    let b = if s.chance(1, 30) { gen::long_strip(s) } else { gen::board_mines(s, r, q, m) };
    c05_on(s, c, b)
}
fn c05_on(s: &mut Src, c: &mut Case, b: B) -> R {
    let mut gb = gen::position_deep(s, &b);
    gen::mark_some(s, &b, &mut gb, true, true);
    c.input("game_board", &gb);
    let (rows, cols) = dims(&gb);
    let all = equations(&gb, true);
    let v = view(&gb);
    c.nontrivial(all.len() >= 2);
    c.class_if(v.comps.len() > 1, "several_segments");
    // whole matrix
    let (a, x, r) = lib("refresh_matrix", || ms::refresh_matrix(&gb))?;
    ensure_eq!(system(&a, &x, &r)?, equations(&gb, false), "matrix:whole", "whole-board system");
    // segments
    let (aa, xx, bb, unk, known) = lib("refresh_matrixs", || ms::refresh_matrixs(&gb))?;
    ensure_eq!((aa.len(), bb.len()), (xx.len(), xx.len()), "matrix:shape", "number of segments");
    let mut got = vec![];
    for i in 0..aa.len() {
        got.extend(system(&aa[i], &xx[i], &bb[i])?);
    }
    got.sort();
    ensure_eq!(got, all, "matrix:segments", "equations over all segments");
    let norm = |v: &Vec<Vec<P>>| -> BTreeSet<Vec<P>> {
        v.iter()
            .map(|x| {
                let mut x = x.clone();
                x.sort();
                x
            })
            .collect()
    };
    let want_seg: BTreeSet<Vec<P>> = norm(&v.comps.iter().map(|c| c.cells.clone()).collect());
    ensure_eq!(norm(&xx), want_seg, "matrix:segment_split", "cells of the segments");
    ensure_eq!(xx.len(), want_seg.len(), "matrix:segment_split", "number of segments");
    ensure_eq!(unk, v.free.len(), "matrix:unconstrained", "unconstrained cells");
    ensure_eq!(known, v.known_mines, "matrix:known", "known mines");
    // blocks and segments
    let (aaa, xxx, bbb) = lib("refresh_matrixses", || ms::refresh_matrixses(&gb))?;
    ensure_eq!((aaa.len(), bbb.len()), (xxx.len(), xxx.len()), "matrix:shape", "number of blocks");
    let mut got = vec![];
    let mut segs = vec![];
    for i in 0..aaa.len() {
        ensure_eq!((aaa[i].len(), bbb[i].len()), (xxx[i].len(), xxx[i].len()), "matrix:shape", "number of segments in block {}", i);
        for j in 0..aaa[i].len() {
            ensure!(!xxx[i][j].is_empty(), "matrix:empty_segment", "segment {} of block {} is empty: {:?}", j, i, xxx);
            got.extend(system(&aaa[i][j], &xxx[i][j], &bbb[i][j])?);
            segs.push(xxx[i][j].clone());
        }
    }
    got.sort();
    ensure_eq!(got, all, "matrix:blocks", "equations over all blocks and segments");
    ensure_eq!(norm(&segs), want_seg, "matrix:block_segments", "cells of the segments of all blocks");
    // two segments share a block iff linked through connected closed cells
    let mut region = BTreeMap::new();
    let mut n = 0;
    for r in 0..rows {
        for q in 0..cols {
            if gb[r][q] == 10 && !region.contains_key(&(r, q)) {
                let mut st = vec![(r, q)];
                region.insert((r, q), n);
                while let Some(p) = st.pop() {
                    for z in nbrs(p.0, p.1, rows, cols) {
                        if gb[z.0][z.1] == 10 && !region.contains_key(&z) {
                            region.insert(z, n);
                            st.push(z);
                        }
                    }
                }
                n += 1;
            }
        }
    }
    // connect regions that one segment spans
    let mut lab: Vec<usize> = (0..n).collect();
    let root = |l: &Vec<usize>, mut x: usize| {
        while l[x] != x {
            x = l[x];
        }
        x
    };
    for sg in &want_seg {
        for p in sg {
            let (a, b) = (root(&lab, region[&sg[0]]), root(&lab, region[p]));
            lab[a] = b;
        }
    }
    let mut blocks: BTreeMap<usize, BTreeSet<Vec<P>>> = BTreeMap::new();
    for sg in &want_seg {
        blocks.entry(root(&lab, region[&sg[0]])).or_default().insert(sg.clone());
    }
    let want: BTreeSet<BTreeSet<Vec<P>>> = blocks.into_values().collect();
    let got: BTreeSet<BTreeSet<Vec<P>>> = xxx.iter().filter(|b| !b.is_empty()).map(|b| norm(b)).collect();
    c.class_if(want.len() > 1, "several_blocks");
    c.class_if(want.iter().any(|b| b.len() > 2), "block_of_3_segments");
    ensure_eq!(got, want, "matrix:block_split", "grouping of segments into blocks");
    Ok(())
}

// ---------------------------------------------------------------- C14
fn c14_round(s: &mut Src, c: &mut Case) -> R {
    let seed = s.seed64();
    let codes = [0, 1, 2, 3, 4, 5, 6, 7, 8, -1, 10, 11, 12, 14, 15, 16, 9, 13, -2, -3];
    let n = s.us(1, 3);
    let mut boards: Vec<B> = vec![];
    for _ in 0..n {
        let (r, q) = match s.weighted(&[60, 1, 1]) {
            0 => (s.us(1, 8), s.us(1, 8)),
            1 => (s.us(1, 3), s.us(9, 300)),
            _ => (s.us(9, 300), s.us(1, 3)),
        };
        let k = if s.chance(1, 2) { 10 } else { codes.len() };
        boards.push((0..r).map(|_| (0..q).map(|_| codes[s.us(0, k - 1)]).collect()).collect());
    }
    c.input("boards", &boards);
    c.nontrivial(boards[0].iter().flatten().collect::<BTreeSet<_>>().len() > 2);
    c.class_if(n > 1, "replaced");
    with_rng(seed, || {
        use std::ops::Index;
        let mut sb = lib("SafeBoard::new", || ms::SafeBoard::new(boards[0].clone()))?;
        for (k, b) in boards.iter().enumerate() {
            if k > 0 {
                lib("SafeBoard::set", || sb.set(b.clone()))?;
            }
            let (rows, cols) = dims(b);
            ensure_eq!(lib("into_vec_vec", || sb.into_vec_vec())?, *b, "guarded:into", "conversion back");
            for r in 0..rows {
                for q in 0..cols {
                    ensure_eq!(lib("index", || *sb.index(r).index(q))?, b[r][q], "guarded:index", "cell {:?}", (r, q));
                }
                ensure_eq!(lib("row", || sb.index(r).into_vec())?, b[r], "guarded:row", "row {}", r);
                let row = lib("row", || sb.index(r).clone())?;
                ensure_eq!(row.len(), cols, "guarded:row_len", "length of row {}", r);
                let it: Vec<i32> = lib("row iteration", || row.collect())?;
                ensure_eq!(it, b[r], "guarded:row_iter", "iteration over row {}", r);
            }
            let rows_it: Vec<Vec<i32>> = lib("iteration", || sb.clone().map(|r| r.into_vec()).collect())?;
            ensure_eq!(rows_it, *b, "guarded:iter", "iteration over rows");
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C19
/// Number of joint mine-count combinations cal_possibility enumerates for this board.
pub fn joint_size(a: &Analysis) -> f64 {
    let mut p = 1.0;
    for t in &a.tables {
        let lo = t.total.iter().position(|x| *x > 0).unwrap_or(0);
        let hi = t.total.iter().rposition(|x| *x > 0).unwrap_or(0);
        p *= (hi - lo + 1) as f64;
    }
    p * (a.view.free.len() as f64 + 1.0)
}
fn c19_history(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = (s.us(2, 7), s.us(2, 7));
    let m = s.us(1, (rows * cols / 3).max(1));
    c19_on(s, c, rows, cols, m)
}
fn c19_big(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = *s.pick(&[(16, 16), (16, 30), (30, 16), (9, 40), (2, 300), (300, 2)]);
    let m = rows * cols * s.us(12, 22) / 100;
    c19_on(s, c, rows, cols, m)
}
fn c19_on(s: &mut Src, c: &mut Case, rows: usize, cols: usize, m: usize) -> R {
    let k = s.us(1, 6);
    let mut ops: Vec<(usize, Option<B>)> = vec![];
    // boards of one game with a fixed number of mines
    let mk = |s: &mut Src| {
        let b = gen::board_mines(s, rows, cols, m);
        let mut gb = gen::position_deep(s, &b);
        if s.chance(1, 2) {
            // a player's flags, right or wrong
            let n = s.us(1, 4);
            for _ in 0..n {
                let p = (s.us(0, rows - 1), s.us(0, cols - 1));
                if gb[p.0][p.1] == 10 {
                    gb[p.0][p.1] = 11;
                }
            }
        }
        gb
    };
    ops.push((9, Some(mk(s))));
    for _ in 0..k {
        if s.chance(1, 3) {
            ops.push((9, Some(mk(s))));
        } else {
            ops.push((s.us(0, 4), None));
        }
    }
    ops.push((s.us(0, 4), None));
    c.input("mines", &m);
    c.input("ops(0=poss 1=basic_safe 2=basic_mine 3=enum_safe 4=enum_mine 9=set)", &ops);
    let mut o = ms::GameBoard::new(m);
    let mut cur: B = vec![];
    let mut nq = 0;
    for (op, b) in &ops {
        if let Some(b) = b {
            cur = b.clone();
            o.set_game_board(b);
            continue;
        }
        let clean: B = cur.iter().map(|r| r.iter().map(|x| if *x > 10 { 10 } else { *x }).collect()).collect();
        let a = match analyse(&clean) {
            Some(a) => a,
            None => return fail("skip", String::new()),
        };
        if joint_size(&a) > 20000.0 || a.view.comps.iter().any(|c| c.cells.len() > 50) {
            return fail("skip", String::new());
        }
        nq += 1;
        c.nontrivial(nq >= 2 && !a.view.comps.is_empty());
        ensure_eq!(o.game_board, cur, "object:board", "stored board");
        let (safe, mine) = a.forced();
        c.class_if(!mine.is_empty(), "forced_mine");
        if *op == 0 {
            let got = lib("GameBoard::get_poss", || o.get_poss().clone())?;
            let (want, _, _) = a.poss(&clean, m).unwrap();
            same_poss(&got, &want, "object:poss")?;
        } else {
            let names = ["basic_safe", "basic_mine", "enum_safe", "enum_mine"];
            let got = lib("GameBoard query", || query(&mut o, *op))?;
            // the four lists: basic and enumerated parts are disjoint and together are exactly the forced cells
            let mut fresh = ms::GameBoard::new(m);
            fresh.set_game_board(&cur);
            let other = lib("GameBoard query", || query(&mut fresh, if *op <= 2 { *op + 2 } else { *op - 2 }))?;
            let gs: BTreeSet<P> = got.iter().copied().collect();
            let os: BTreeSet<P> = other.iter().copied().collect();
            ensure_eq!(gs.len(), got.len(), "object:duplicate", "distinct cells in {:?}", got);
            ensure!(gs.is_disjoint(&os), "object:overlap", "{} and its counterpart overlap: {:?} {:?}", names[*op - 1], got, other);
            let want: BTreeSet<P> = if *op % 2 == 1 { safe } else { mine }.into_iter().collect();
            ensure_eq!(gs.union(&os).copied().collect::<BTreeSet<P>>(), want, "object:lists", "{} together with its counterpart", names[*op - 1]);
            // a direct conclusion from one number is basic, not enumerated
            let mut fresh = ms::GameBoard::new(m);
            fresh.set_game_board(&cur);
            let alone = lib("GameBoard query", || query(&mut fresh, *op))?;
            ensure_eq!(gs, alone.iter().copied().collect::<BTreeSet<P>>(), "object:history", "{} asked on this object and on a fresh one", names[*op - 1]);
        }
    }
    Ok(())
}
fn query(o: &mut ms::GameBoard, op: usize) -> Vec<P> {
    match op {
        1 => o.get_basic_not_mine().clone(),
        2 => o.get_basic_is_mine().clone(),
        3 => o.get_enum_not_mine().clone(),
        _ => o.get_enum_is_mine().clone(),
    }
}
pub fn same_poss(got: &Vec<Vec<f64>>, want: &Vec<Vec<f64>>, sig: &str) -> R {
    ensure_eq!((got.len(), got[0].len()), (want.len(), want[0].len()), sig, "dimensions");
    for r in 0..want.len() {
        for q in 0..want[0].len() {
            let (g, w) = (got[r][q], want[r][q]);
            ensure!((g - w).abs() < 1e-7 * (1.0 + w.abs()), sig, "mine probability of {:?} is {} but should be {}", (r, q), g, w);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
fn c23_tables(s: &mut Src, c: &mut Case) -> R {
    let b = gen::board(s, 2, 10, 2, 12);
    let mut gb = gen::position_deep(s, &b);
    gen::mark_some(s, &b, &mut gb, true, true);
    c.input("game_board", &gb);
    let (aa, xx, bb, _, _) = lib("refresh_matrixs", || ms::refresh_matrixs(&gb))?;
    for i in 0..aa.len() {
        if xx[i].len() > 50 {
            c.class("block_over_limit");
            continue;
        }
        c.nontrivial(aa[i].len() >= 2 && xx[i].len() >= 3);
        // reference over the extracted equations (their extraction is another property)
        let comp = Comp { cells: xx[i].clone(), cons: aa[i].iter().zip(&bb[i]).map(|(r, v)| ((0..r.len()).filter(|k| r[*k] > 0).collect(), *v as i64)).collect() };
        let t = match solve_comp(&comp) {
            Some(t) => t,
            None => continue,
        };
        let (sq, sx, rel) = lib("combine", || ms::combine(&aa[i], &xx[i]))?;
        // combine: groups of cells with identical columns, a partition, in matching order
        let mut seen = BTreeSet::new();
        ensure_eq!(rel.len(), sx.len(), "combine:shape", "groups and representatives");
        for (g, grp) in rel.iter().enumerate() {
            for k in grp {
                ensure!(*k < xx[i].len() && seen.insert(*k), "combine:partition", "cell index {} grouped twice or out of range in {:?}", k, rel);
                ensure!((0..aa[i].len()).all(|r| aa[i][r][*k] == aa[i][r][grp[0]]), "combine:group", "cells {:?} of group {:?} do not have equal columns", k, grp);
            }
            ensure_eq!(sx[g], xx[i][grp[0]], "combine:representative", "representative of group {}", g);
            for r in 0..aa[i].len() {
                ensure_eq!(sq[r][g], aa[i][r][grp[0]] * grp.len() as i32, "combine:coefficient", "squeezed coefficient");
            }
        }
        ensure_eq!(seen.len(), xx[i].len(), "combine:partition", "all cells grouped");
        for g in 0..rel.len() {
            for h in 0..g {
                ensure!((0..aa[i].len()).any(|r| aa[i][r][rel[g][0]] != aa[i][r][rel[h][0]]), "combine:maximal", "groups {} and {} have equal columns", h, g);
            }
        }
        let (tab, cells) = match lib("cal_table_minenum_recursion", || ms::cal_table_minenum_recursion(&sq, &sx, &bb[i], &rel))? {
            Ok(x) => x,
            Err(e) => return fail("table:error", format!("error {} on a consistent block of {} cells", e, xx[i].len())),
        };
        c.class_if(rel.len() < xx[i].len(), "merged_cells");
        let mut want_total: Vec<(usize, u128)> = vec![];
        for k in 0..t.total.len() {
            want_total.push((k, t.total[k]));
        }
        let lo = t.total.iter().position(|x| *x > 0).unwrap();
        let hi = t.total.iter().rposition(|x| *x > 0).unwrap();
        let got_total: Vec<(usize, u128)> = tab[0].iter().copied().zip(tab[1].iter().map(|x| *x as u128)).collect();
        ensure_eq!(got_total, want_total[lo..=hi].to_vec(), "table:total", "arrangements per mine count of block {:?}", xx[i]);
        ensure_eq!(cells.len(), hi - lo + 1, "table:shape", "rows of the cell table");
        for k in lo..=hi {
            for (g, grp) in rel.iter().enumerate() {
                for m in grp {
                    ensure_eq!(cells[k - lo][g] as u128, t.cell[*m][k], "table:cell", "arrangements with {} mines that mine cell {:?}", k, xx[i][*m]);
                }
            }
        }
        // cross-check the reference itself on small blocks by listing all assignments
        if xx[i].len() <= 12 {
            let n = xx[i].len();
            let mut tot = vec![0u128; n + 1];
            for bits in 0u32..1 << n {
                if comp.cons.iter().all(|(cs, v)| cs.iter().filter(|j| bits >> **j & 1 == 1).count() as i64 == *v) {
                    tot[bits.count_ones() as usize] += 1;
                }
            }
            assert_eq!(tot, t.total, "reference self-check");
        }
    }
    Ok(())
}
/// The one-step enumerator extends every partial assignment (2 = open) by all ways to satisfy one equation.
fn c23_onestep(s: &mut Src, c: &mut Case) -> R {
    // rarely a long table, as a wide block gives it after several steps
    let long = s.chance(1, 1500);
    let n = if long { s.us(14, 20) } else { s.us(1, 7) };
    // the function assumes that every row has decided the same cells
    let decided: Vec<bool> = (0..n).map(|i| if long { i >= 3 } else { s.chance(1, 3) }).collect();
    let k = if long { s.us(1000, 6000) } else { s.us(1, 4) };
    let mut rows: BTreeSet<Vec<usize>> = BTreeSet::new();
    for _ in 0..k {
        rows.insert((0..n).map(|i| if decided[i] { s.us(0, 1) } else { 2 }).collect());
    }
    let table: Vec<Vec<usize>> = rows.into_iter().collect();
    let ids: Vec<usize> = (0..n).filter(|_| s.chance(2, 3)).collect();
    let b = s.int(0, 4) as i32;
    c.input("table", &table);
    c.input("ids", &ids);
    c.input("b", &b);
    let mut want: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for r in &table {
        let open: Vec<usize> = ids.iter().copied().filter(|i| r[*i] == 2).collect();
        for bits in 0u32..1 << open.len() {
            let mut x = r.clone();
            for (j, i) in open.iter().enumerate() {
                x[*i] = (bits >> j & 1) as usize;
            }
            if ids.iter().map(|i| x[*i]).sum::<usize>() as i32 == b {
                *want.entry(x).or_default() += 1;
            }
        }
    }
    c.nontrivial(want.len() > 1);
    let got = lib("enuOneStep", || ms::enuOneStep(table.clone(), ids.clone(), b))?;
    let mut g: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for x in got {
        *g.entry(x).or_default() += 1;
    }
    ensure_eq!(g, want, "one_step", "extended assignments");
    Ok(())
}

// ---------------------------------------------------------------- C27
fn c27_judge(s: &mut Src, c: &mut Case) -> R {
    let b = match s.weighted(&[1500, 25, 1]) {
        0 => gen::board(s, 1, 8, 1, 8),
        1 => gen::board(s, 1, 40, 1, 40),
        _ => gen::long_strip(s),
    };
    let (rows, cols) = dims(&b);
    let mut gb = gen::position(s, &b, true);
    let p = s.us(0, 4) as u64;
    for r in 0..rows {
        for q in 0..cols {
            if gb[r][q] == 10 && b[r][q] == -1 && s.chance(p, 4) {
                gb[r][q] = 11;
            }
        }
    }
    c.input("game_board", &gb);
    // how many cells a chord at p opens; -1 if it is not an effective chord
    let gain = |p: P| -> i32 {
        if !(1..=8).contains(&gb[p.0][p.1]) {
            return -1;
        }
        let nb = nbrs(p.0, p.1, rows, cols);
        let fl = nb.iter().filter(|z| gb[z.0][z.1] == 11).count() as i32;
        if fl != gb[p.0][p.1] {
            return -1;
        }
        nb.iter().filter(|z| gb[z.0][z.1] == 10).count() as i32
    };
    let mut any = false;
    for r in 0..rows {
        for q in 0..cols {
            let g = gain((r, q));
            let mut want = g > 0;
            for (a, d) in [(-1i64, 0i64), (1, 0), (0, -1), (0, 1)] {
                let (x, y) = (r as i64 + a, q as i64 + d);
                if x >= 0 && y >= 0 && x < rows as i64 && y < cols as i64 && gain((x as usize, y as usize)) > g {
                    want = false;
                }
            }
            any |= want;
            let got = lib("is_good_chording", || ms::is_good_chording(&gb, (r, q)))?;
            ensure_eq!(got, want, "chord_judgement", "chord at {:?}", (r, q));
        }
    }
    c.nontrivial(any);
    Ok(())
}
