//! Generators of boards and game positions.
use crate::core::Src;
use crate::refm::*;

/// A consistent board with between 1 and `max_r` x `max_c` cells. Several density regimes and shapes.
pub fn board(s: &mut Src, min_r: usize, max_r: usize, min_c: usize, max_c: usize) -> B {
    let rows = s.us(min_r, max_r);
    let cols = s.us(min_c, max_c);
    let n = rows * cols;
    let mut mine = vec![false; n];
    match s.weighted(&[6, 2, 2, 1, 2]) {
        0 => {
            // exact number of mines, sparse to moderate
            let k = s.us(0, (n * 3 / 10).max(1).min(n));
            place(s, &mut mine, k);
        }
        1 => {
            let k = s.us(0, n);
            place(s, &mut mine, k);
        }
        2 => {
            // dense clusters
            let k = s.us(1, 4);
            for _ in 0..k {
                let (r, c) = (s.us(0, rows - 1), s.us(0, cols - 1));
                let mut cells = nbrs(r, c, rows, cols);
                cells.push((r, c));
                for (a, b) in cells {
                    if s.chance(3, 5) {
                        mine[a * cols + b] = true;
                    }
                }
            }
        }
        3 => {
            // lines
            let k = s.us(1, 2);
            for _ in 0..k {
                if s.chance(1, 2) {
                    let r = s.us(0, rows - 1);
                    for c in 0..cols {
                        mine[r * cols + c] = s.chance(4, 5);
                    }
                } else {
                    let c = s.us(0, cols - 1);
                    for r in 0..rows {
                        mine[r * cols + c] = s.chance(4, 5);
                    }
                }
            }
        }
        _ => {
            let d = s.us(1, 5) as u64;
            for x in mine.iter_mut() {
                *x = s.chance(d, 12);
            }
        }
    }
    from_mines(rows, cols, &mine)
}
pub fn place(s: &mut Src, mine: &mut Vec<bool>, k: usize) {
    let n = mine.len();
    let mut idx: Vec<usize> = (0..n).collect();
    for i in 0..k.min(n) {
        let j = i + s.below((n - i) as u64) as usize;
        idx.swap(i, j);
        mine[idx[i]] = true;
    }
}
pub fn board_mines(s: &mut Src, rows: usize, cols: usize, k: usize) -> B {
    let mut mine = vec![false; rows * cols];
    place(s, &mut mine, k);
    from_mines(rows, cols, &mine)
}

/// A position of the game on `b`: some safe cells opened (with the flood fill of the rules, or singly when `single`).
pub fn position(s: &mut Src, b: &B, single_ok: bool) -> B {
    let (rows, cols) = dims(b);
    let mut gb = vec![vec![10; cols]; rows];
    let safe: Vec<P> = (0..rows).flat_map(|r| (0..cols).map(move |c| (r, c))).filter(|p| b[p.0][p.1] >= 0).collect();
    if safe.is_empty() {
        return gb;
    }
    let single = single_ok && s.chance(1, 4);
    let n = s.us(0, (safe.len()).min(if rows * cols > 60 { 40 } else { 12 }));
    for _ in 0..n {
        let p = *s.pick(&safe);
        if single {
            gb[p.0][p.1] = b[p.0][p.1];
        } else {
            open_cells(b, &mut gb, &[p]);
        }
    }
    gb
}
/// Like `position`, and additionally plays exhaustive local reasoning for a few rounds, which leaves realistic hard frontiers.
pub fn position_deep(s: &mut Src, b: &B) -> B {
    let mut gb = position(s, b, true);
    let rounds = s.us(0, 6);
    for _ in 0..rounds {
        if let Some(a) = analyse(&gb) {
            let (sf, _) = a.forced();
            if sf.is_empty() {
                break;
            }
            open_cells(b, &mut gb, &sf);
        } else {
            break;
        }
    }
    gb
}
/// Mark some determined cells as known mine (11) / known safe (12); `truth` also allows undetermined true mines as 11.
pub fn mark_some(s: &mut Src, b: &B, gb: &mut B, truth: bool, safe12: bool) -> usize {
    let mut n = 0;
    match s.weighted(&[3, 3, 1, 1]) {
        0 => {}
        1 => {
            if let Some(a) = analyse(gb) {
                let (sf, mn) = a.forced();
                for p in mn {
                    if s.chance(1, 2) {
                        gb[p.0][p.1] = 11;
                        n += 1;
                    }
                }
                if safe12 {
                    for p in sf {
                        if s.chance(1, 2) {
                            gb[p.0][p.1] = 12;
                            n += 1;
                        }
                    }
                }
            }
        }
        2 => {
            if let Some(a) = analyse(gb) {
                let (sf, mn) = a.forced();
                for p in mn {
                    gb[p.0][p.1] = 11;
                    n += 1;
                }
                if safe12 {
                    for p in sf {
                        gb[p.0][p.1] = 12;
                        n += 1;
                    }
                }
            }
        }
        _ => {
            if truth {
                let (rows, cols) = dims(b);
                for r in 0..rows {
                    for c in 0..cols {
                        if gb[r][c] == 10 && b[r][c] == -1 && s.chance(1, 4) {
                            gb[r][c] = 11;
                            n += 1;
                        }
                    }
                }
            }
        }
    }
    n
}

/// A board with up to 255 x 255 cells (the most a replay can hold) and mostly long openings.
/// Boards beyond what a replay file can hold
pub fn larger(s: &mut Src) -> B {
    let (rows, cols) = match s.weighted(&[10, 1, 1, 1]) {
        0 => return large(s),
        1 => (s.us(256, 300), s.us(256, 300)),
        2 => (s.us(1, 3), s.us(256, 1500)),
        _ => (s.us(256, 1500), s.us(1, 3)),
    };
    let k = s.us(0, rows * cols / 6);
    board_mines(s, rows, cols, k)
}
/// Strips with an index beyond 255
pub fn long_strip(s: &mut Src) -> B {
    let (a, b) = (s.us(256, 420), s.us(1, 3));
    let (rows, cols) = if s.chance(1, 2) { (a, b) } else { (b, a) };
    let k = s.us(1, rows * cols / 4);
    board_mines(s, rows, cols, k)
}
pub fn large(s: &mut Src) -> B {
    let (rows, cols) = match s.weighted(&[3, 1, 1]) {
        0 => (s.us(60, 255), s.us(60, 255)),
        1 => (s.us(1, 3), s.us(100, 255)),
        _ => (s.us(100, 255), s.us(1, 3)),
    };
    let n = rows * cols;
    let mut mine = vec![false; n];
    match s.weighted(&[3, 1, 2, 1]) {
        0 => {
            let k = s.us(0, n / 40);
            place(s, &mut mine, k);
        }
        1 => {}
        2 => {
            // walls with gaps at alternating ends: one long winding corridor
            let w = s.us(4, 7);
            for r in (w - 1..rows).step_by(w) {
                for q in 0..cols {
                    let left = (r / w) % 2 == 0;
                    mine[r * cols + q] = if left { q >= 3 } else { q + 3 < cols };
                }
            }
        }
        _ => {
            let k = s.us(0, n / 5);
            place(s, &mut mine, k);
        }
    }
    from_mines(rows, cols, &mine)
}
