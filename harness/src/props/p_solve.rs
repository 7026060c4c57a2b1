//! C06-C11: deduction engines, probabilities, solvability, generators, guess judgement.
use super::p_board::{joint_size, same_poss};
use crate::core::*;
use crate::refm::*;
use crate::{ensure, ensure_eq, gen};
use ms_toollib as ms;
use std::collections::{BTreeMap, BTreeSet};

const LIMIT: usize = 55;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C06", rule: "Random positions of random boards (1..9 x 1..9, and expert-sized), optionally with correct marks; a random sequence of engine calls with the remaining system checked after each, the classifiers against exact solution counting, and positions corrupted by wrong numbers or flags. Non-trivial: some cell is forced, or the board is contradictory.",
            assumptions: &["marks already on the board are correct on consistent boards", "completeness only for blocks of at most 55 cells, the documented limit"],
            subs: vec![
                Sub { name: "engines", f: c06_engines, quick: 750000, thorough: 15000000, serial: false },
                Sub { name: "complete", f: c06_complete, quick: 750000, thorough: 15000000, serial: false },
                Sub { name: "engines_big", f: c06_big, quick: 20000, thorough: 400000, serial: false },
                Sub { name: "contradictory", f: c06_contra, quick: 750000, thorough: 15000000, serial: false },
            ] },
        Prop { id: "C07", rule: "Random positions with correct marks and every feasible class of mine total (true, least, greatest, random, outside the range), as count or density, compared with exact layout counting; contradictory positions. Non-trivial: at least one component with two or more layouts.",
            assumptions: &["blocks of at most 55 cells", "boards whose joint mine-count table would exceed 20000 combinations are excluded (memory)"],
            subs: vec![
                Sub { name: "exact", f: c07_exact, quick: 750000, thorough: 15000000, serial: false },
                Sub { name: "exact_big", f: c07_big, quick: 15000, thorough: 300000, serial: false },
                Sub { name: "exact_huge", f: c07_huge, quick: 3000, thorough: 100000, serial: false },
                Sub { name: "brute", f: c07_brute, quick: 100000, thorough: 2000000, serial: false },
                Sub { name: "rejected", f: c07_reject, quick: 500000, thorough: 10000000, serial: false },
            ] },
        Prop { id: "C08", rule: "Random positions with correct marks, feasible totals, lists of cells of every kind, on boards up to 9x9 and on boards of the standard sizes. Non-trivial: a queried probability strictly between 0 and 1.",
            assumptions: &["as C07"],
            subs: vec![Sub { name: "opening", f: c08_open, quick: 200000, thorough: 4000000, serial: false },
                Sub { name: "opening_big", f: c08_big, quick: 10000, thorough: 300000, serial: false }] },
        Prop { id: "C09", rule: "Random boards of low to moderate density with the start in an opening, some with planted guess patterns; both verdicts compared with exhaustive local reasoning. Non-trivial: not solved by the first click.",
            assumptions: &["the start is an opening", "where a block exceeds 55 cells only a positive verdict is judged"],
            subs: vec![
                Sub { name: "verdict", f: c09_verdict, quick: 500000, thorough: 10000000, serial: false },
                Sub { name: "verdict_big", f: c09_big, quick: 15000, thorough: 300000, serial: false },
                Sub { name: "prefilter", f: c09_prefilter, quick: 500000, thorough: 10000000, serial: false },
                Sub { name: "prefilter_big", f: c09_prefilter_big, quick: 150000, thorough: 3000000, serial: false },
            ] },
        Prop { id: "C10", rule: "Random sizes, mine counts and starts for the three generators, random stream seeded per case, budgets from 0, on boards up to 9x20 and on the standard sizes and others of that order. Non-trivial: the generator flags success and the board is not solved by the first click.",
            assumptions: &["schedules of the multi-threaded generator are those the operating system produces"],
            subs: vec![
                Sub { name: "single", f: c10_single, quick: 30000, thorough: 450000, serial: false },
                Sub { name: "threads", f: c10_thread, quick: 20000, thorough: 300000, serial: false },
                Sub { name: "adjust", f: c10_adjust, quick: 50000, thorough: 750000, serial: false },
                Sub { name: "big", f: c10_big, quick: 1000, thorough: 20000, serial: false },
            ] },
        Prop { id: "C11", rule: "Random positions with a player's flags (right or wrong, and other display codes above 10), every cell judged, and a sample of the cells on boards of the standard sizes. Non-trivial: the position has a forced cell and an undetermined one.",
            assumptions: &["the visible numbers are consistent", "blocks of at most 55 cells"],
            subs: vec![
                Sub { name: "judge", f: c11_judge, quick: 500000, thorough: 10000000, serial: false },
                Sub { name: "judge_big", f: c11_big, quick: 15000, thorough: 300000, serial: false },
            ] },
    ]
}

pub fn skip() -> R {
    fail("skip", String::new())
}
/// A position on a random board; `big` uses expert-like boards.
pub fn pos(s: &mut Src, big: bool) -> (B, B) {
    let b = if big {
        let (rows, cols) = *s.pick(&[(16, 30), (16, 16), (30, 16), (10, 40), (16, 30), (16, 16), (30, 16), (2, 300), (300, 2)]);
        let m = rows * cols * s.us(12, 24) / 100;
        gen::board_mines(s, rows, cols, m)
    } else if s.chance(1, 2) {
        let (rows, cols) = (s.us(1, 9), s.us(1, 9));
        let n = rows * cols;
        let m = s.us(0, (n * 35 / 100).max(1).min(n));
        gen::board_mines(s, rows, cols, m)
    } else {
        gen::board(s, 1, 8, 1, 8)
    };
    let gb = if s.chance(1, 2) { gen::position_deep(s, &b) } else { gen::position(s, &b, true) };
    (b, gb)
}
/// A small position in which (almost) every closed cell touches a number, so that some mine totals within the range have no layout.
pub fn pos_covered(s: &mut Src) -> (B, B) {
    let (rows, cols) = (s.us(1, 5), s.us(2, 5));
    let n = rows * cols;
    let m = s.us(1, (n * 2 / 5).max(1));
    let mut mine = vec![false; n];
    gen::place(s, &mut mine, m);
    let (a, d) = (s.us(0, 1), s.us(0, 1));
    let mut open = vec![];
    for r in 0..rows {
        for q in 0..cols {
            let k = r * cols + q;
            if (r + a) % 2 == 0 && (q + d) % 2 == 0 && s.chance(9, 10) {
                mine[k] = false;
                open.push((r, q));
            } else if s.chance(1, 12) && !mine[k] {
                open.push((r, q));
            }
        }
    }
    let b = from_mines(rows, cols, &mine);
    let mut gb = vec![vec![10; cols]; rows];
    open_cells(&b, &mut gb, &open);
    if s.chance(1, 2) {
        for r in 0..rows {
            for q in 0..cols {
                if gb[r][q] == 10 && s.chance(1, 5) {
                    gb[r][q] = if b[r][q] == -1 { 11 } else { 12 };
                }
            }
        }
    }
    (b, gb)
}
type Sys = (Vec<Vec<Vec<i32>>>, Vec<Vec<P>>, Vec<Vec<i32>>);

/// The solutions of a system of equations, as components of my own making.
fn sys_comps(sy: &Sys, sig: &str) -> Result<Vec<Comp>, Fail> {
    let mut idx: BTreeMap<P, usize> = BTreeMap::new();
    let mut eqs: Vec<(Vec<P>, i64)> = vec![];
    ensure!(sy.0.len() == sy.1.len() && sy.1.len() == sy.2.len(), sig, "numbers of blocks differ: {} {} {}", sy.0.len(), sy.1.len(), sy.2.len());
    for t in 0..sy.0.len() {
        ensure_eq!(sy.0[t].len(), sy.2[t].len(), sig, "rows of block {} and right-hand sides", t);
        for p in &sy.1[t] {
            ensure!(!idx.contains_key(p), sig, "cell {:?} occurs twice in {:?}", p, sy.1);
            let n = idx.len();
            idx.insert(*p, n);
        }
        for (r, b) in sy.0[t].iter().zip(&sy.2[t]) {
            ensure_eq!(r.len(), sy.1[t].len(), sig, "columns of block {}", t);
            ensure!(r.iter().all(|x| *x == 0 || *x == 1), sig, "coefficients {:?}", r);
            eqs.push((r.iter().zip(&sy.1[t]).filter(|x| *x.0 == 1).map(|x| *x.1).collect(), *b as i64));
        }
    }
    let mut group: BTreeMap<P, usize> = idx.clone();
    loop {
        let mut ch = false;
        for (cs, _) in &eqs {
            if let Some(m) = cs.iter().map(|p| group[p]).min() {
                for p in cs {
                    if group[p] != m {
                        group.insert(*p, m);
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    let mut comps: BTreeMap<usize, Comp> = BTreeMap::new();
    let mut loc: BTreeMap<P, usize> = BTreeMap::new();
    for (p, g) in &group {
        let c = comps.entry(*g).or_insert(Comp { cells: vec![], cons: vec![] });
        loc.insert(*p, c.cells.len());
        c.cells.push(*p);
    }
    for (cs, b) in &eqs {
        if cs.is_empty() {
            ensure!(*b == 0, sig, "an equation without cells has the value {}", b);
            continue;
        }
        comps.get_mut(&group[&cs[0]]).unwrap().cons.push((cs.iter().map(|p| loc[p]).collect(), *b));
    }
    // the blocks handed back are exactly the connected parts
    ensure_eq!(sy.1.len(), comps.len(), "engine:blocks", "number of independent blocks in {:?}", sy);
    Ok(comps.into_values().collect())
}
/// per-cell (mined, free) layout counts and the distribution of mine counts of the whole system
fn sys_dist(comps: &[Comp]) -> Option<(Vec<f64>, BTreeMap<P, f64>)> {
    let mut dist = vec![1.0f64];
    let mut frac = BTreeMap::new();
    for c in comps {
        let t = solve_comp(c)?;
        let f: Vec<f64> = t.total.iter().map(|x| *x as f64).collect();
        let mut nd = vec![0.0; dist.len() + f.len() - 1];
        for (i, x) in dist.iter().enumerate() {
            for (j, y) in f.iter().enumerate() {
                nd[i + j] += x * y;
            }
        }
        dist = nd;
        for (i, p) in c.cells.iter().enumerate() {
            frac.insert(*p, t.cell_sum(i) as f64 / t.sum() as f64);
        }
    }
    while dist.len() > 1 && *dist.last().unwrap() == 0.0 {
        dist.pop();
    }
    Some((dist, frac))
}

// ---------------------------------------------------------------- C06
fn c06_engines(s: &mut Src, c: &mut Case) -> R {
    engines(s, c, false)
}
fn c06_big(s: &mut Src, c: &mut Case) -> R {
    engines(s, c, true)
}
fn engines(s: &mut Src, c: &mut Case, big: bool) -> R {
    let (b, mut gb) = pos(s, big);
    gen::mark_some(s, &b, &mut gb, true, true);
    let calls: Vec<usize> = (0..s.us(1, 4)).map(|_| s.us(0, 1)).collect();
    c.input("game_board", &gb);
    c.input("calls(0=solve_direct 1=solve_minus)", &calls);
    let a = match analyse(&gb) {
        Some(a) => a,
        None => return skip(),
    };
    let (safe, mine) = a.forced();
    let safe: BTreeSet<P> = safe.into_iter().collect();
    let mine: BTreeSet<P> = mine.into_iter().collect();
    c.nontrivial(!safe.is_empty() || !mine.is_empty());
    c.class_if(!mine.is_empty(), "forced_mine");
    c.class_if(a.view.comps.len() > 1, "several_blocks");
    let whole = sys_dist(&a.view.comps).ok_or(Fail { sig: "skip".into(), msg: String::new() })?;
    let (as_, xs, bs, _, _) = lib("refresh_matrixs", || ms::refresh_matrixs(&gb))?;
    let mut sy: Sys = (as_, xs, bs);
    let mut g2 = gb.clone();
    let mut found: BTreeMap<P, i32> = BTreeMap::new();
    for k in &calls {
        let name = if *k == 0 { "solve_direct" } else { "solve_minus" };
        let before = g2.clone();
        let r = lib(name, || if *k == 0 { ms::solve_direct(&mut sy.0, &mut sy.1, &mut sy.2, &mut g2) } else { ms::solve_minus(&mut sy.0, &mut sy.1, &mut sy.2, &mut g2) })?;
        let (n, m) = match r {
            Ok(x) => x,
            Err(e) => return fail("engine:err", format!("{} returned the error {} on a consistent board", name, e)),
        };
        for p in &n {
            ensure!(safe.contains(p), "engine:unsound", "{} calls {:?} safe, but it is a mine in some layout", name, p);
            ensure!(found.insert(*p, 12).is_none(), "engine:repeat", "{} returns {:?} again", name, p);
        }
        for p in &m {
            ensure!(mine.contains(p), "engine:unsound", "{} calls {:?} a mine, but it is free in some layout", name, p);
            ensure!(found.insert(*p, 11).is_none(), "engine:repeat", "{} returns {:?} again", name, p);
        }
        let mut want = gb.clone();
        for (p, v) in &found {
            want[p.0][p.1] = *v;
        }
        ensure_eq!(g2, want, "engine:marks", "game board after {}", name);
        // the remaining equations: every undetermined cell is still there, with the same solutions
        let comps = sys_comps(&sy, "engine:system")?;
        let cells: BTreeSet<P> = comps.iter().flat_map(|c| c.cells.iter().copied()).collect();
        let left: BTreeSet<P> = a.view.comps.iter().flat_map(|c| c.cells.iter().copied()).filter(|p| !found.contains_key(p)).collect();
        ensure_eq!(cells, left, "engine:cells", "cells of the remaining equations after {}", name);
        let nm = found.values().filter(|x| **x == 11).count();
        let (dist, frac) = match sys_dist(&comps) {
            Some(x) => x,
            None => return skip(),
        };
        let mut d = vec![0.0; nm];
        d.extend(dist);
        ensure!(d.len() == whole.0.len() && d.iter().zip(&whole.0).all(|(x, y)| (x - y).abs() <= 1e-9 * y.abs()), "engine:solutions",
            "after {} the remaining equations have other solutions: {:?} layouts by mine count, should be {:?}; {:?}", name, d, whole.0, sy);
        for (p, f) in &frac {
            ensure!((f - whole.1[p]).abs() < 1e-9, "engine:solutions", "after {} the remaining equations mine {:?} in {} of the layouts, should be {}", name, p, f, whole.1[p]);
        }
        // what one number, or the difference of two that share a cell, decides is found at once
        let rule = if *k == 0 { rule_one(&before) } else { rule_one(&before).into_iter().chain(rule_two(&before)).collect() };
        for (p, v) in &rule {
            ensure!(found.get(p) == Some(v), "engine:missed", "{} leaves {:?} undecided, though the numbers around it make it {} in {:?}", name, p, if *v == 11 { "a mine" } else { "safe" }, before);
        }
        c.class_if(*k == 1 && rule.len() > rule_one(&before).len(), "decided by two numbers");
    }
    // marking as one call
    let mut g3 = gb.clone();
    let r = lib("mark_board", || ms::mark_board(&mut g3))?;
    ensure!(r.is_ok(), "mark:err", "mark_board returned {:?} on a consistent board", r);
    for r in 0..gb.len() {
        for q in 0..gb[0].len() {
            if g3[r][q] != gb[r][q] {
                let ok = gb[r][q] == 10 && (g3[r][q] == 11 && mine.contains(&(r, q)) || g3[r][q] == 12 && safe.contains(&(r, q)));
                ensure!(ok, "mark:unsound", "mark_board turns {:?} from {} into {}", (r, q), gb[r][q], g3[r][q]);
            }
        }
    }
    // classifier and enumeration
    if a.view.comps.iter().all(|c| c.cells.len() <= 30) {
        complete_on(&gb, &safe, &mine)?;
    }
    Ok(())
}
/// unknown neighbours and open mine count of every number
fn numbers(gb: &B) -> Vec<(BTreeSet<P>, i32)> {
    let (rows, cols) = dims(gb);
    let mut v = vec![];
    for r in 0..rows {
        for q in 0..cols {
            if gb[r][q] < 9 {
                let nb = nbrs(r, q, rows, cols);
                let unk: BTreeSet<P> = nb.iter().copied().filter(|p| gb[p.0][p.1] == 10).collect();
                if !unk.is_empty() {
                    v.push((unk, gb[r][q] - nb.iter().filter(|p| gb[p.0][p.1] == 11).count() as i32));
                }
            }
        }
    }
    v
}
fn rule_one(gb: &B) -> BTreeMap<P, i32> {
    let mut m = BTreeMap::new();
    for (u, k) in numbers(gb) {
        if k == u.len() as i32 {
            m.extend(u.iter().map(|p| (*p, 11)));
        } else if k == 0 {
            m.extend(u.iter().map(|p| (*p, 12)));
        }
    }
    m
}
fn rule_two(gb: &B) -> BTreeMap<P, i32> {
    let mut m = BTreeMap::new();
    let v = numbers(gb);
    for (u, k) in &v {
        for (w, l) in &v {
            let d: Vec<P> = u.difference(w).copied().collect();
            if d.len() < u.len() && d.len() as i32 == k - l {
                m.extend(d.into_iter().map(|p| (p, 11)));
                m.extend(w.difference(u).map(|p| (*p, 12)));
            }
        }
    }
    m
}
fn complete_on(gb: &B, safe: &BTreeSet<P>, mine: &BTreeSet<P>) -> R {
    let (mut as_, mut xs, mut bs, _, _) = ms::refresh_matrixs(gb);
    let (n, m) = lib("solve_enumerate", || ms::solve_enumerate(&as_, &xs, &bs))?;
    ensure_eq!(n.iter().copied().collect::<BTreeSet<P>>(), *safe, "enumerate:safe", "cells solve_enumerate calls safe");
    ensure_eq!(m.iter().copied().collect::<BTreeSet<P>>(), *mine, "enumerate:mine", "cells solve_enumerate calls mines");
    ensure!(n.len() == safe.len() && m.len() == mine.len(), "enumerate:repeat", "solve_enumerate repeats cells: {:?} {:?}", n, m);
    let mut g = gb.clone();
    let (n, m) = lib("get_all_not_and_is_mine_on_board", || ms::get_all_not_and_is_mine_on_board(&mut as_, &mut xs, &mut bs, &mut g))?;
    ensure_eq!(n.iter().copied().collect::<BTreeSet<P>>(), *safe, "classifier:safe", "cells get_all_not_and_is_mine_on_board calls safe");
    ensure_eq!(m.iter().copied().collect::<BTreeSet<P>>(), *mine, "classifier:mine", "cells get_all_not_and_is_mine_on_board calls mines");
    for r in 0..gb.len() {
        for q in 0..gb[0].len() {
            if g[r][q] != gb[r][q] {
                let ok = g[r][q] == 11 && mine.contains(&(r, q)) || g[r][q] == 12 && safe.contains(&(r, q));
                ensure!(ok, "classifier:marks", "get_all_not_and_is_mine_on_board turns {:?} from {} into {}", (r, q), gb[r][q], g[r][q]);
            }
        }
    }
    Ok(())
}
fn c06_complete(s: &mut Src, c: &mut Case) -> R {
    let (b, mut gb) = pos(s, false);
    gen::mark_some(s, &b, &mut gb, true, true);
    c.input("game_board", &gb);
    let a = match analyse(&gb) {
        Some(a) => a,
        None => return skip(),
    };
    let (safe, mine) = a.forced();
    if a.view.comps.iter().any(|c| c.cells.len() > 40) {
        return skip();
    }
    c.nontrivial(!safe.is_empty() || !mine.is_empty());
    c.class_if(!mine.is_empty() && !safe.is_empty(), "both_kinds");
    complete_on(&gb, &safe.into_iter().collect(), &mine.into_iter().collect())
}
/// corrupt some numbers or flags
pub fn corrupt(s: &mut Src, gb: &mut B) {
    let (rows, cols) = dims(gb);
    let k = s.us(1, 3);
    for _ in 0..k {
        let p = (s.us(0, rows - 1), s.us(0, cols - 1));
        match s.weighted(&[4, 2, 1]) {
            0 => {
                let open: Vec<P> = (0..rows).flat_map(|r| (0..cols).map(move |q| (r, q))).filter(|p| gb[p.0][p.1] < 9).collect();
                if !open.is_empty() {
                    let p = *s.pick(&open);
                    gb[p.0][p.1] = s.int(0, 8) as i32;
                }
            }
            1 => gb[p.0][p.1] = *s.pick(&[11, 12]),
            _ => gb[p.0][p.1] = s.int(0, 8) as i32,
        }
    }
}
/// A contradiction the library can see: a numbered cell with unopened neighbours that cannot be met
/// (numbers without unopened neighbours, and zeros, are documented as unchecked).
fn c06_contra(s: &mut Src, c: &mut Case) -> R {
    let (_, mut gb) = pos(s, false);
    corrupt(s, &mut gb);
    // zeros carry no equation in the library: open cells must not be zero next to closed ones
    let (rows, cols) = dims(&gb);
    for r in 0..rows {
        for q in 0..cols {
            if gb[r][q] == 0 && nbrs(r, q, rows, cols).iter().any(|p| gb[p.0][p.1] >= 10) {
                gb[r][q] = 1;
            }
        }
    }
    c.input("game_board", &gb);
    let contra = match seen_contradiction(&gb) {
        Some(x) => x,
        None => return skip(),
    };
    c.nontrivial(contra);
    c.class_if(contra, "contradictory");
    let cells = gb.iter().flatten().filter(|x| **x == 10).count();
    if cells > 40 {
        return skip();
    }
    let mut g = gb.clone();
    let r = lib("mark_board", || ms::mark_board(&mut g))?;
    if contra {
        if r.is_ok() {
            match seen_contradiction(&g) {
                Some(still) => ensure!(still, "contra:lost", "mark_board accepts a contradictory board and hides the contradiction: {:?}", g),
                None => return skip(),
            }
        }
    } else {
        ensure!(r.is_ok(), "contra:err", "mark_board returned {:?} on a board that has a layout", r);
    }
    let (as_, xs, bs, _, _) = lib("refresh_matrixs", || ms::refresh_matrixs(&gb))?;
    let mut sy: Sys = (as_, xs, bs);
    let mut g = gb.clone();
    for k in 0..3 {
        let r = lib(if k % 2 == 0 { "solve_direct" } else { "solve_minus" }, || {
            if k % 2 == 0 { ms::solve_direct(&mut sy.0, &mut sy.1, &mut sy.2, &mut g) } else { ms::solve_minus(&mut sy.0, &mut sy.1, &mut sy.2, &mut g) }
        })?;
        match r {
            Err(_) => {
                ensure!(contra, "contra:err", "an engine returned {:?} on a board that has a layout", r);
                return Ok(());
            }
            Ok(_) => {
                if contra {
                    match seen_contradiction(&g) {
                        Some(still) => ensure!(still, "contra:lost", "an engine accepts a contradictory board and hides the contradiction: {:?}", g),
                        None => return skip(),
                    }
                }
            }
        }
    }
    Ok(())
}
/// Some(true) if no layout of the cells next to numbers 1..8 (with an unopened neighbour) satisfies them.
fn seen_contradiction(gb: &B) -> Option<bool> {
    let v = view(gb);
    for co in &v.comps {
        if co.cons.iter().any(|(cs, x)| *x < 0 || *x > cs.len() as i64) {
            return Some(true);
        }
        if !solve_comp(co)?.any() {
            return Some(true);
        }
    }
    Some(false)
}

// ---------------------------------------------------------------- C07
fn mines_gen(s: &mut Src, a: &Analysis, truth: usize) -> usize {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => truth,
        1 => a.min_mines,
        2 => a.max_mines,
        _ => s.us(a.min_mines, a.max_mines),
    }
}
pub fn too_big(a: &Analysis) -> bool {
    joint_size(a) > 20000.0 || a.view.comps.iter().any(|c| c.cells.len() > 45)
}
fn c07_exact(s: &mut Src, c: &mut Case) -> R {
    let p = pos(s, false);
    c07_on(s, c, p)
}
fn c07_big(s: &mut Src, c: &mut Case) -> R {
    let p = pos(s, true);
    c07_on(s, c, p)
}
/// Boards far beyond the standard sizes, where the number of layouts is out of the range of a float.
fn c07_huge(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = *s.pick(&[(40, 60), (60, 60), (25, 100), (100, 25), (36, 36), (1, 1500), (255, 8)]);
    let m = rows * cols * s.us(1, 70) / 100;
    let b = gen::board_mines(s, rows, cols, m);
    let mut gb = vec![vec![10; cols]; rows];
    for _ in 0..s.us(0, 6) {
        let p = (s.us(0, rows - 1), s.us(0, cols - 1));
        if b[p.0][p.1] > 0 {
            gb[p.0][p.1] = b[p.0][p.1];
        }
    }
    c07_on(s, c, (b, gb))
}
fn c07_on(s: &mut Src, c: &mut Case, (b, mut gb): (B, B)) -> R {
    let plain = gb.clone();
    gen::mark_some(s, &b, &mut gb, false, true);
    let a = match analyse(&gb) {
        Some(a) => a,
        None => return skip(),
    };
    if too_big(&a) {
        return skip();
    }
    let m = mines_gen(s, &a, mine_count(&b));
    // count or density
    let area = (gb.len() * gb[0].len()) as f64;
    let (arg, total) = if s.chance(1, 3) {
        let k = s.us(0, area as usize - 1);
        // a density strictly inside the step, so that rounding of the product does not matter
        let d = (k as f64 + 0.5) / area;
        (d, k.max(a.min_mines).min(a.max_mines))
    } else {
        (m as f64, m)
    };
    if total == 0 && arg >= 1.0 || arg == 0.0 {
        c.class("zero_total");
    }
    if m == 0 && arg == 0.0 {
        // 0.0 reads as a density: same meaning here
    }
    c.input("game_board", &gb);
    c.input("mines", &arg);
    let total = if arg < 1.0 && arg == 0.0 { a.min_mines.max(0) } else { total };
    let (want, fp, _) = match a.poss(&gb, total) {
        Some(x) => x,
        None => return skip(), // a gap in the mine counts: no layout
    };
    c.nontrivial(a.tables.iter().any(|t| t.sum() > 1) || a.view.free.len() > 1000);
    c.class_if(a.view.free.len() > 1000, "over_1000_free");
    c.class_if(arg < 1.0, "density");
    c.class_if(a.view.comps.len() > 1, "several_blocks");
    c.class_if(a.view.free.is_empty(), "no_free_cells");
    let (list, p_free, range, need) = match lib("cal_possibility", || ms::cal_possibility(&gb, arg))? {
        Ok(x) => x,
        Err(e) => return fail("poss:err", format!("cal_possibility returned the error {} on a consistent board", e)),
    };
    let mut seen = BTreeSet::new();
    for (p, v) in &list {
        ensure!(seen.insert(*p), "poss:cells", "cell {:?} reported twice", p);
        ensure!((v - want[p.0][p.1]).abs() < 1e-7, "poss:value", "mine probability of {:?} is {} but should be {}", p, v, want[p.0][p.1]);
    }
    let border: BTreeSet<P> = a.view.comps.iter().flat_map(|c| c.cells.iter().copied()).collect();
    ensure_eq!(seen, border, "poss:cells", "cells reported");
    if a.view.free.is_empty() {
        ensure!(p_free.is_nan(), "poss:free", "there are no unconstrained cells but their probability is {}", p_free);
    } else {
        ensure!((p_free - fp).abs() < 1e-7, "poss:free", "probability of the unconstrained cells is {} but should be {}", p_free, fp);
    }
    ensure_eq!(range, [a.min_mines, total, a.max_mines], "poss:range", "range of mine totals");
    ensure_eq!(need, a.view.comps.iter().map(|c| c.cells.len()).max().unwrap_or(0), "poss:length", "length of the longest block");
    let (got, range) = match lib("cal_possibility_onboard", || ms::cal_possibility_onboard(&gb, arg))? {
        Ok(x) => x,
        Err(e) => return fail("poss:err", format!("cal_possibility_onboard returned the error {}", e)),
    };
    same_poss(&got, &want, "poss:onboard")?;
    ensure_eq!(range, [a.min_mines, total, a.max_mines], "poss:range", "range of mine totals (on board)");
    // however the board was marked before
    let mut g2 = plain.clone();
    let r = lib("mark_board", || ms::mark_board(&mut g2))?;
    ensure!(r.is_ok(), "mark:err", "mark_board returned {:?}", r);
    for g in [&g2, &plain] {
        // with these marks a block may be past the enumeration limit although it is not with the others
        match analyse(g) {
            Some(x) if !too_big(&x) => {}
            _ => continue,
        }
        match lib("cal_possibility_onboard", || ms::cal_possibility_onboard(g, arg))? {
            Ok((got, range)) => {
                same_poss(&got, &want, "poss:marking")?;
                ensure_eq!(range[1], total, "poss:range", "mine total used with other marks");
            }
            Err(e) => return fail("poss:err", format!("cal_possibility_onboard returned the error {} with other marks {:?}", e, g)),
        }
    }
    Ok(())
}
/// The oracle itself against plain enumeration, together with the library, on tiny boards.
fn c07_brute(s: &mut Src, c: &mut Case) -> R {
    let b = gen::board(s, 1, 4, 1, 4);
    let mut gb = gen::position(s, &b, true);
    gen::mark_some(s, &b, &mut gb, true, true);
    c.input("game_board", &gb);
    let unk = gb.iter().flatten().filter(|x| **x == 10).count();
    if unk > 14 || unk == 0 {
        return Ok(());
    }
    c.nontrivial(gb.iter().flatten().any(|x| *x < 9));
    let mut by: BTreeMap<usize, (f64, Vec<Vec<f64>>)> = BTreeMap::new();
    each_layout(&gb, |mine, n| {
        let e = by.entry(n).or_insert_with(|| (0.0, gb.iter().map(|r| vec![0.0; r.len()]).collect()));
        e.0 += 1.0;
        for (r, row) in mine.iter().enumerate() {
            for (q, x) in row.iter().enumerate() {
                if *x {
                    e.1[r][q] += 1.0;
                }
            }
        }
    });
    let (lo, hi) = (*by.keys().next().unwrap(), *by.keys().last().unwrap());
    for (n, (tot, w)) in &by {
        if *n == 0 {
            continue;
        }
        let want: Vec<Vec<f64>> = w.iter().map(|r| r.iter().map(|x| x / tot).collect()).collect();
        match lib("cal_possibility_onboard", || ms::cal_possibility_onboard(&gb, *n as f64))? {
            Ok((got, range)) => {
                same_poss(&got, &want, "poss:brute")?;
                ensure_eq!(range, [lo, *n, hi], "poss:range", "range of mine totals");
            }
            Err(e) => return fail("poss:err", format!("cal_possibility_onboard returned the error {} for {} mines", e, n)),
        }
    }
    Ok(())
}
fn c07_reject(s: &mut Src, c: &mut Case) -> R {
    let (b, mut gb) = if s.chance(1, 4) { pos_covered(s) } else { pos(s, false) };
    gen::mark_some(s, &b, &mut gb, false, true);
    if s.chance(1, 2) {
        corrupt(s, &mut gb);
        let (rows, cols) = dims(&gb);
        for r in 0..rows {
            for q in 0..cols {
                if gb[r][q] == 0 && nbrs(r, q, rows, cols).iter().any(|p| gb[p.0][p.1] >= 10) {
                    gb[r][q] = 1;
                }
            }
        }
    }
    let m = s.us(1, gb.len() * gb[0].len() + 3);
    c.input("game_board", &gb);
    c.input("mines", &m);
    let contra = match seen_contradiction(&gb) {
        Some(x) => x,
        None => return skip(),
    };
    let a = match analyse(&gb) {
        Some(a) => a,
        None => return skip(),
    };
    if too_big(&a) || gb.iter().flatten().filter(|x| **x == 10).count() > 40 {
        return skip();
    }
    c.class_if(contra, "contradictory");
    let bad = contra || m < a.min_mines || m > a.max_mines;
    c.class_if(bad && !contra, "total_out_of_range");
    c.nontrivial(bad);
    for g in [false, true] {
        let r = lib("cal_possibility", || if g { ms::cal_possibility_onboard(&gb, m as f64).map(|_| ()) } else { ms::cal_possibility(&gb, m as f64).map(|_| ()) })?;
        if bad {
            ensure!(r.is_err(), "poss:accepted", "accepted with {} mines, although {}", m,
                if contra { "the board is contradictory".to_string() } else { format!("the numbers allow {} to {}", a.min_mines, a.max_mines) });
        } else if a.poss(&gb, m).is_some() {
            ensure!(r.is_ok(), "poss:err", "rejected with {:?} although a layout with {} mines exists", r, m);
        }
    }
    if !contra && a.view.free.len() < 2 {
        // totals between the least and the greatest that no layout has
        for k in a.min_mines.max(1)..=a.max_mines {
            if a.poss(&gb, k).is_none() {
                c.class("gap in the totals");
                let r = lib("cal_possibility", || ms::cal_possibility(&gb, k as f64))?;
                ensure!(r.is_err(), "poss:accepted", "accepted with {} mines ({:?}), although no layout has so many", k, r);
            }
        }
    }
    if contra {
        let d = (s.us(0, 9) as f64 + 0.5) / 10.0;
        let r = lib("cal_possibility", || ms::cal_possibility(&gb, d).map(|_| ()))?;
        ensure!(r.is_err(), "poss:accepted", "a contradictory board is accepted with density {}", d);
    }
    Ok(())
}

// ---------------------------------------------------------------- C08
fn c08_open(s: &mut Src, c: &mut Case) -> R {
    c08_on(s, c, false)
}
fn c08_big(s: &mut Src, c: &mut Case) -> R {
    c08_on(s, c, true)
}
fn c08_on(s: &mut Src, c: &mut Case, big: bool) -> R {
    let (b, mut gb) = if !big && s.chance(1, 6) { pos_covered(s) } else { pos(s, big) };
    gen::mark_some(s, &b, &mut gb, false, true);
    let a = match analyse(&gb) {
        Some(a) => a,
        None => return skip(),
    };
    if joint_size(&a) > if big { 20000.0 } else { 3000.0 } || a.view.comps.iter().any(|c| c.cells.len() > 30) {
        return skip();
    }
    let m = mines_gen(s, &a, mine_count(&b));
    if m == 0 {
        return Ok(());
    }
    let (rows, cols) = dims(&gb);
    let k = s.us(1, if big { 2 } else { 4 });
    let cells: Vec<[usize; 2]> = (0..k).map(|_| [s.us(0, rows - 1), s.us(0, cols - 1)]).collect();
    c.input("game_board", &gb);
    c.input("mines", &m);
    c.input("cells", &cells);
    let tot = match a.poss(&gb, m) {
        Some(x) => x.2,
        None => return skip(),
    };
    let got = lib("cal_is_op_possibility_cells", || ms::cal_is_op_possibility_cells(&gb, m as f64, &cells))?;
    ensure_eq!(got.len(), cells.len(), "opening:len", "number of probabilities");
    for (i, [x, y]) in cells.iter().enumerate() {
        let mut want = 0.0;
        if gb[*x][*y] >= 10 {
            let mut zone = nbrs(*x, *y, rows, cols);
            zone.push((*x, *y));
            if !zone.iter().any(|p| gb[p.0][p.1] == 11) {
                let mut g = gb.clone();
                for p in &zone {
                    if g[p.0][p.1] == 10 {
                        g[p.0][p.1] = 12;
                    }
                }
                let a2 = match analyse(&g) {
                    Some(a) => a,
                    None => return skip(),
                };
                if a2.consistent {
                    want = a2.poss(&g, m).map(|x| x.2).unwrap_or(0.0) / tot;
                }
            }
        }
        c.nontrivial(want > 1e-9 && want < 1.0 - 1e-9);
        ensure!((got[i] - want).abs() < 1e-7, "opening:value", "opening probability of {:?} is {} but should be {}", (x, y), got[i], want);
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
/// A board whose start is an opening, sparse enough to be solvable fairly often.
fn solv_board(s: &mut Src, min: usize, max: usize) -> Option<(B, usize, usize)> {
    // now and then a wide, nearly empty board: almost everything opens, a small patch decides
    let sparse = s.chance(1, 8);
    let (rows, cols) = if sparse { (s.us(min, 2 * max), s.us(min, 2 * max)) } else { (s.us(min, max), s.us(min, max)) };
    let n = rows * cols;
    let m = if sparse { s.us(0, 3) } else { s.us(0, (n / 4).max(1)) };
    let mut mine = vec![false; n];
    gen::place(s, &mut mine, m);
    if s.chance(1, if sparse { 1 } else { 3 }) {
        // copy a small patch somewhere else: repeated local patterns, edges and corners
        let (h, w) = (s.us(1, 3.min(rows)), s.us(1, 4.min(cols)));
        let (r0, c0) = (*s.pick(&[0, rows - h]), *s.pick(&[0, cols - w]));
        for r in 0..h {
            for q in 0..w {
                mine[(r0 + r) * cols + c0 + q] = s.chance(2, 5);
            }
        }
    }
    if sparse && s.chance(1, 2) {
        // one or two cells shut in at a corner or an edge
        let r = *s.pick(&[0, 0, rows - 1, rows - 1, rows / 2]);
        let q = if r == rows / 2 || s.chance(1, 2) { *s.pick(&[0, cols - 1]) } else { s.us(0, cols - 1) };
        for p in nbrs(r, q, rows, cols) {
            mine[p.0 * cols + p.1] = s.chance(9, 10);
        }
        mine[r * cols + q] = false;
    }
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    mine[x0 * cols + y0] = false;
    for p in nbrs(x0, y0, rows, cols) {
        mine[p.0 * cols + p.1] = false;
    }
    Some((from_mines(rows, cols, &mine), x0, y0))
}
fn c09_on(c: &mut Case, b: &B, x0: usize, y0: usize) -> R {
    c.input("board", b);
    c.input("start", &(x0, y0));
    let got = lib("is_solvable", || ms::is_solvable(b, x0, y0))?;
    let (want, biggest) = match local_solve(b, x0, y0) {
        Some(x) => x,
        None => return skip(),
    };
    let mut first = vec![vec![10; b[0].len()]; b.len()];
    open_cells(b, &mut first, &[(x0, y0)]);
    let over = first.iter().flatten().filter(|x| **x < 10).count() + mine_count(b) == b.len() * b[0].len();
    c.nontrivial(!over);
    c.class_if(want && !over, "solvable_not_at_once");
    c.class_if(!want, "unsolvable");
    if got {
        ensure!(want, "solvable:unsound", "reported solvable from {:?}, but local reasoning gets stuck", (x0, y0));
    } else if biggest <= LIMIT {
        ensure!(!want, "solvable:missed", "reported not solvable from {:?}, but local reasoning opens every safe cell", (x0, y0));
    }
    Ok(())
}
fn c09_verdict(s: &mut Src, c: &mut Case) -> R {
    let least = if s.chance(1, 10) { 1 } else { 4 };
    let (b, x0, y0) = match solv_board(s, least, 9) {
        Some(x) => x,
        None => return Ok(()),
    };
    c09_on(c, &b, x0, y0)
}
fn c09_big(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols, m) = *s.pick(&[(16, 16, 40), (16, 16, 25), (16, 30, 60), (16, 30, 80), (16, 30, 99), (8, 8, 10), (20, 12, 30), (2, 270, 60), (270, 4, 130)]);
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let seed = s.seed64();
    let b = with_rng(seed, || ms::laymine_op(rows, cols, m, x0, y0));
    c09_on(c, &b, x0, y0)
}
fn c09_prefilter(s: &mut Src, c: &mut Case) -> R {
    let least = if s.chance(1, 10) { 1 } else { 4 };
    let b = solv_board(s, least, 8);
    c09_pre(c, b)
}
fn c09_prefilter_big(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols) = *s.pick(&[(16, 16), (16, 30), (30, 16), (24, 30), (9, 40), (4, 300), (300, 2)]);
    let n = rows * cols;
    let mut mine = vec![false; n];
    let m = s.us(0, n / 10);
    gen::place(s, &mut mine, m);
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    mine[x0 * cols + y0] = false;
    for p in nbrs(x0, y0, rows, cols) {
        mine[p.0 * cols + p.1] = false;
    }
    c09_pre(c, Some((from_mines(rows, cols, &mine), x0, y0)))
}
fn c09_pre(c: &mut Case, b: Option<(B, usize, usize)>) -> R {
    let (b, x0, y0) = match b {
        Some(x) => x,
        None => return Ok(()),
    };
    c.input("board", &b);
    let hit = lib("unsolvable_structure", || ms::unsolvable_structure(&b))?;
    c.nontrivial(hit);
    if !hit {
        return Ok(());
    }
    // from no opening is the board solvable
    c.input("start", &(x0, y0));
    if let Some((ok, _)) = local_solve(&b, x0, y0) {
        ensure!(!ok, "prefilter:wrong", "the pre-filter rejects a board that is solvable from {:?}", (x0, y0));
    }
    Ok(())
}

// ---------------------------------------------------------------- C10
pub fn valid_layout(b: &B, rows: usize, cols: usize, m: usize) -> R {
    ensure_eq!((b.len(), b.iter().map(|r| r.len()).collect::<BTreeSet<_>>()), (rows, [cols].into_iter().collect()), "noguess:size", "dimensions");
    ensure_eq!(mine_count(b), m, "noguess:mines", "number of mines in {:?}", b);
    let flat: Vec<bool> = b.iter().flatten().map(|x| *x == -1).collect();
    ensure_eq!(*b, from_mines(rows, cols, &flat), "noguess:numbers", "numbers");
    Ok(())
}
pub fn c10_params(s: &mut Src) -> (usize, usize, usize, usize, usize) {
    let (rows, cols) = match s.weighted(&[12, 3, 1]) {
        2 => (s.us(1, 4), s.us(1, 10)),
        0 => (s.us(4, 10), s.us(4, 10)),
        _ => *s.pick(&[(8, 8), (16, 16), (9, 20)]),
    };
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let fit = rows * cols - nbrs(x0, y0, rows, cols).len() - 1;
    let m = s.us(0, (rows * cols / 5).min(fit));
    (rows, cols, m, x0, y0)
}
fn judge_gen(c: &mut Case, b: &B, flag: bool, rows: usize, cols: usize, m: usize, x0: usize, y0: usize) -> R {
    valid_layout(b, rows, cols, m)?;
    ensure!(b[x0][y0] == 0, "noguess:start", "the start {:?} is not an opening in {:?}", (x0, y0), b);
    c.class_if(flag, "success");
    if flag {
        match local_solve(b, x0, y0) {
            Some((ok, _)) => ensure!(ok, "noguess:flag", "flagged as solvable from {:?} but is not: {:?}", (x0, y0), b),
            None => return skip(),
        }
        let mut first = vec![vec![10; cols]; rows];
        open_cells(b, &mut first, &[(x0, y0)]);
        c.nontrivial(first.iter().flatten().filter(|x| **x < 10).count() + m < rows * cols);
    }
    Ok(())
}
fn c10_single(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols, m, x0, y0) = c10_params(s);
    let budget = *s.pick(&[0, 1, 2, 10, 100, 1000]);
    let seed = s.seed64();
    c.input("rows,cols,mines,x0,y0,budget,seed", &(rows, cols, m, x0, y0, budget, seed));
    let (b, flag) = lib("laymine_solvable", || with_rng(seed, || ms::laymine_solvable(rows, cols, m, x0, y0, budget)))?;
    c.class_if(budget == 0, "no_budget");
    ensure!(budget > 0 || !flag, "noguess:budget", "success without an attempt");
    judge_gen(c, &b, flag, rows, cols, m, x0, y0)
}
fn c10_thread(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols, m, x0, y0) = c10_params(s);
    let budget = *s.pick(&[8, 16, 100, 1000, 1, 0]);
    c.input("rows,cols,mines,x0,y0,budget", &(rows, cols, m, x0, y0, budget));
    c.key = mix(c.key ^ s.seed64());
    let (b, flag) = lib("laymine_solvable_thread", || ms::laymine_solvable_thread(rows, cols, m, x0, y0, budget))?;
    ensure!(budget > 0 || !flag, "noguess:budget", "success without an attempt");
    judge_gen(c, &b, flag, rows, cols, m, x0, y0)
}
/// The standard sizes and others of that order.
fn c10_big(s: &mut Src, c: &mut Case) -> R {
    let (rows, cols, most) = *s.pick(&[(16, 16, 40), (16, 30, 75), (30, 16, 70), (9, 40, 50), (24, 30, 90)]);
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let m = s.us(most / 2, most);
    let kind = s.below(3);
    let budget = s.us(1, 300);
    let seed = s.seed64();
    c.input("rows,cols,mines,x0,y0,kind,budget,seed", &(rows, cols, m, x0, y0, kind, budget, seed));
    let r = match kind {
        0 => Some(lib("laymine_solvable", || with_rng(seed, || ms::laymine_solvable(rows, cols, m, x0, y0, budget)))?),
        1 => {
            c.key = mix(c.key ^ seed);
            Some(lib("laymine_solvable_thread", || ms::laymine_solvable_thread(rows, cols, m, x0, y0, budget))?)
        }
        _ => lib("laymine_solvable_adjust", || with_rng_limit(seed, std::time::Duration::from_secs(10), move || ms::laymine_solvable_adjust(rows, cols, m, x0, y0)))?,
    };
    let Some((b, flag)) = r else { return skip() };
    c.class(["single", "threads", "adjusting"][kind as usize]);
    judge_gen(c, &b, flag, rows, cols, m, x0, y0)
}
fn c10_adjust(s: &mut Src, c: &mut Case) -> R {
    // on narrow boards the search seldom ends in time: only mine counts which need none
    let narrow = s.chance(1, 25);
    let (rows, cols) = if narrow { (s.us(1, 3), s.us(4, 9)) } else { (s.us(4, 9), s.us(4, 9)) };
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let area = nbrs(x0, y0, rows, cols).len() + 1;
    let m = match s.weighted(&[if narrow { 0 } else { 6 }, 1, 1]) {
        0 => s.us(1, rows * cols / 4),
        1 => rows * cols - area,
        _ => s.us(rows * cols - area, rows * cols - 1),
    };
    let seed = s.seed64();
    c.input("rows,cols,mines,x0,y0,seed", &(rows, cols, m, x0, y0, seed));
    // the adjusting search is documented as unbounded in time; cases that take too long are set aside
    let r = lib("laymine_solvable_adjust", || with_rng_limit(seed, std::time::Duration::from_secs(10), move || ms::laymine_solvable_adjust(rows, cols, m, x0, y0)))?;
    let (b, flag) = match r {
        Some(x) => x,
        None => return skip(),
    };
    if m > rows * cols - area {
        // no opening fits: any layout that spares the start; solvable only if nothing else is safe
        valid_layout(&b, rows, cols, m)?;
        ensure!(b[x0][y0] != -1, "noguess:start", "mine on the start in {:?}", b);
        ensure_eq!(flag, m == rows * cols - 1, "noguess:flag", "flag for {:?}", b);
        c.class("no_opening");
        return Ok(());
    }
    judge_gen(c, &b, flag, rows, cols, m, x0, y0)
}

// ---------------------------------------------------------------- C11
fn c11_judge(s: &mut Src, c: &mut Case) -> R {
    c11_on(s, c, false)
}
fn c11_big(s: &mut Src, c: &mut Case) -> R {
    c11_on(s, c, true)
}
fn c11_on(s: &mut Src, c: &mut Case, big: bool) -> R {
    let (_, gb) = pos(s, big);
    let (rows, cols) = dims(&gb);
    let mut shown = gb.clone();
    let flags = s.us(0, 4);
    for _ in 0..flags {
        let p = (s.us(0, rows - 1), s.us(0, cols - 1));
        if shown[p.0][p.1] == 10 {
            shown[p.0][p.1] = *s.pick(&[11, 11, 12, 14, 16]);
        }
    }
    c.input("game_board", &shown);
    let a = match analyse(&gb) {
        Some(a) => a,
        None => return skip(),
    };
    if a.view.comps.iter().any(|c| c.cells.len() > if big { 32 } else { 40 }) {
        return skip();
    }
    let (safe, mine) = a.forced();
    let safe: BTreeSet<P> = safe.into_iter().collect();
    let mine: BTreeSet<P> = mine.into_iter().collect();
    let border: BTreeSet<P> = a.view.comps.iter().flat_map(|c| c.cells.iter().copied()).collect();
    // unopened regions
    let mut reg = vec![vec![usize::MAX; cols]; rows];
    let mut has_safe = vec![];
    for r in 0..rows {
        for q in 0..cols {
            if gb[r][q] == 10 && reg[r][q] == usize::MAX {
                let id = has_safe.len();
                has_safe.push(false);
                let mut st = vec![(r, q)];
                reg[r][q] = id;
                while let Some(p) = st.pop() {
                    if safe.contains(&p) {
                        has_safe[id] = true;
                    }
                    // linked by adjacency or by a common number
                    let mut link = nbrs(p.0, p.1, rows, cols);
                    for n in nbrs(p.0, p.1, rows, cols) {
                        if gb[n.0][n.1] < 9 {
                            link.extend(nbrs(n.0, n.1, rows, cols));
                        }
                    }
                    for n in link {
                        if gb[n.0][n.1] == 10 && reg[n.0][n.1] == usize::MAX {
                            reg[n.0][n.1] = id;
                            st.push(n);
                        }
                    }
                }
            }
        }
    }
    c.nontrivial(!safe.is_empty() && border.len() > safe.len() + mine.len());
    c.class_if(!mine.is_empty(), "forced_mine");
    c.class_if(has_safe.len() > 1, "several_regions");
    let salt = s.us(0, 39);
    for r in 0..rows {
        for q in 0..cols {
            let p = (r, q);
            if big && (r * cols + q) % 40 != salt {
                continue;
            }
            let want = if gb[r][q] < 10 {
                5
            } else if safe.contains(&p) {
                1
            } else if mine.contains(&p) {
                4
            } else if has_safe[reg[r][q]] {
                3
            } else {
                2
            };
            let mut g = shown.clone();
            let got = lib("is_guess_while_needless", || ms::is_guess_while_needless(&mut g, &p))?;
            ensure_eq!(got, want, "guess:code", "judgement of a click on {:?} (1 safe, 2 forced guess, 3 needless guess, 4 mine, 5 open)", p);
            if gb[r][q] == 10 {
                let mut g = shown.clone();
                let got = lib("is_able_to_solve", || ms::is_able_to_solve(&mut g, &p))?;
                ensure_eq!(got, safe.contains(&p) || mine.contains(&p), "guess:able", "is_able_to_solve at {:?}", p);
            }
        }
    }
    Ok(())
}
