//! Reference models: slow, written from the definitions, sharing no code with the library.
use std::collections::{BTreeMap, HashMap};

pub type B = Vec<Vec<i32>>;
pub type P = (usize, usize);

pub fn dims(b: &B) -> (usize, usize) {
    (b.len(), if b.is_empty() { 0 } else { b[0].len() })
}
pub fn nbrs(r: usize, c: usize, rows: usize, cols: usize) -> Vec<P> {
    let mut v = vec![];
    for dr in -1i64..=1 {
        for dc in -1i64..=1 {
            if dr == 0 && dc == 0 {
                continue;
            }
            let (a, b) = (r as i64 + dr, c as i64 + dc);
            if a >= 0 && b >= 0 && a < rows as i64 && b < cols as i64 {
                v.push((a as usize, b as usize));
            }
        }
    }
    v
}
pub fn from_mines(rows: usize, cols: usize, mine: &[bool]) -> B {
    let mut b = vec![vec![0; cols]; rows];
    for r in 0..rows {
        for c in 0..cols {
            b[r][c] = if mine[r * cols + c] {
                -1
            } else {
                nbrs(r, c, rows, cols).iter().filter(|(a, d)| mine[a * cols + d]).count() as i32
            };
        }
    }
    b
}
pub fn mine_count(b: &B) -> usize {
    b.iter().flatten().filter(|x| **x == -1).count()
}

pub struct Stats {
    pub bbbv: usize,
    pub op: usize,
    pub isl: usize,
    pub nums: [usize; 9],
    /// region id of an opening for zero cells, usize::MAX otherwise
    pub region: Vec<Vec<usize>>,
}
fn components(rows: usize, cols: usize, inside: impl Fn(usize, usize) -> bool) -> (usize, Vec<Vec<usize>>) {
    let mut id = vec![vec![usize::MAX; cols]; rows];
    let mut n = 0;
    for r in 0..rows {
        for c in 0..cols {
            if inside(r, c) && id[r][c] == usize::MAX {
                let mut st = vec![(r, c)];
                id[r][c] = n;
                while let Some((a, b)) = st.pop() {
                    for (x, y) in nbrs(a, b, rows, cols) {
                        if inside(x, y) && id[x][y] == usize::MAX {
                            id[x][y] = n;
                            st.push((x, y));
                        }
                    }
                }
                n += 1;
            }
        }
    }
    (n, id)
}
pub fn stats(b: &B) -> Stats {
    let (rows, cols) = dims(b);
    let (op, region) = components(rows, cols, |r, c| b[r][c] == 0);
    let lonely = |r: usize, c: usize| b[r][c] > 0 && !nbrs(r, c, rows, cols).iter().any(|&(x, y)| b[x][y] == 0);
    let mut isl_cells = 0;
    for r in 0..rows {
        for c in 0..cols {
            if lonely(r, c) {
                isl_cells += 1;
            }
        }
    }
    let (isl, _) = components(rows, cols, lonely);
    let mut nums = [0; 9];
    for x in b.iter().flatten() {
        if *x >= 0 {
            nums[*x as usize] += 1;
        }
    }
    Stats { bbbv: op + isl_cells, op, isl, nums, region }
}

/// Reveal cells by the rule of the game on top of `gb`.
/// A closed cell (10, 11, 12, anything not yet open) that is requested is opened; a zero opens its neighbours.
pub fn open_cells(board: &B, gb: &mut B, cells: &[P]) {
    let (rows, cols) = dims(board);
    let mut st: Vec<P> = cells.to_vec();
    let mut seen = vec![vec![false; cols]; rows];
    while let Some((r, c)) = st.pop() {
        if seen[r][c] {
            continue;
        }
        seen[r][c] = true;
        gb[r][c] = board[r][c];
        if board[r][c] == 0 {
            for p in nbrs(r, c, rows, cols) {
                if gb[p.0][p.1] == 10 || gb[p.0][p.1] == 12 {
                    st.push(p);
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Comp {
    pub cells: Vec<P>,
    /// (sorted list of cell indices, value)
    pub cons: Vec<(Vec<usize>, i64)>,
}
/// What a game board says: components of undetermined cells linked by numbers.
#[derive(Clone, Debug)]
pub struct View {
    pub comps: Vec<Comp>,
    /// closed cells (10) bordering no number
    pub free: Vec<P>,
    pub known_mines: usize,
    /// a number whose remaining value is impossible on its face (negative, or larger than its unknown neighbours)
    pub broken: bool,
}
pub fn view(gb: &B) -> View {
    let (rows, cols) = dims(gb);
    let mut cons: Vec<(Vec<P>, i64)> = vec![];
    let mut broken = false;
    let mut known_mines = 0;
    let mut id: BTreeMap<P, usize> = BTreeMap::new();
    for r in 0..rows {
        for c in 0..cols {
            if gb[r][c] == 11 {
                known_mines += 1;
            }
            if gb[r][c] >= 0 && gb[r][c] <= 8 {
                let nb = nbrs(r, c, rows, cols);
                let unk: Vec<P> = nb.iter().copied().filter(|p| gb[p.0][p.1] == 10).collect();
                let v = gb[r][c] as i64 - nb.iter().filter(|p| gb[p.0][p.1] == 11).count() as i64;
                if v < 0 || v > unk.len() as i64 {
                    broken = true;
                }
                if !unk.is_empty() {
                    for p in &unk {
                        let n = id.len();
                        id.entry(*p).or_insert(n);
                    }
                    cons.push((unk, v));
                }
            }
        }
    }
    // union-find
    let mut par: Vec<usize> = (0..id.len()).collect();
    fn find(p: &mut Vec<usize>, x: usize) -> usize {
        let mut r = x;
        while p[r] != r {
            r = p[r];
        }
        let mut y = x;
        while p[y] != r {
            let n = p[y];
            p[y] = r;
            y = n;
        }
        r
    }
    for (cs, _) in &cons {
        let a = find(&mut par, id[&cs[0]]);
        for p in &cs[1..] {
            let b = find(&mut par, id[p]);
            par[b] = a;
        }
    }
    let mut comps: BTreeMap<usize, Comp> = BTreeMap::new();
    let mut local: HashMap<P, (usize, usize)> = HashMap::new();
    for (p, i) in &id {
        let root = find(&mut par, *i);
        let co = comps.entry(root).or_insert(Comp { cells: vec![], cons: vec![] });
        local.insert(*p, (root, co.cells.len()));
        co.cells.push(*p);
    }
    for (cs, v) in &cons {
        let root = local[&cs[0]].0;
        let mut l: Vec<usize> = cs.iter().map(|p| local[p].1).collect();
        l.sort();
        comps.get_mut(&root).unwrap().cons.push((l, *v));
    }
    let mut free = vec![];
    for r in 0..rows {
        for c in 0..cols {
            if gb[r][c] == 10 && !id.contains_key(&(r, c)) {
                free.push((r, c));
            }
        }
    }
    View { comps: comps.into_values().collect(), free, known_mines, broken }
}

/// Solutions of one component: total[k] = number of assignments with k mines, cell[i][k] = those mining cell i.
#[derive(Clone, Debug)]
pub struct Table {
    pub total: Vec<u128>,
    pub cell: Vec<Vec<u128>>,
}
impl Table {
    pub fn any(&self) -> bool {
        self.total.iter().any(|x| *x > 0)
    }
    pub fn sum(&self) -> u128 {
        self.total.iter().sum()
    }
    pub fn cell_sum(&self, i: usize) -> u128 {
        self.cell[i].iter().sum()
    }
}
/// Layered dynamic programming over the cells of a component (states: what is left of each constraint).
/// None if the number of states exceeds a bound.
pub fn solve_comp(co: &Comp) -> Option<Table> {
    let n = co.cells.len();
    // order the cells so that few constraints are open at a time: breadth-first over shared constraints
    let mut cons_of: Vec<Vec<usize>> = vec![vec![]; n];
    for (j, (cs, _)) in co.cons.iter().enumerate() {
        for &i in cs {
            cons_of[i].push(j);
        }
    }
    let bfs = |start: usize| -> Vec<usize> {
        let mut order = vec![start];
        let mut seen = vec![false; n];
        seen[start] = true;
        let mut h = 0;
        while h < order.len() {
            let i = order[h];
            h += 1;
            let mut nx: Vec<usize> = cons_of[i].iter().flat_map(|&j| co.cons[j].0.iter().copied()).filter(|&x| !seen[x]).collect();
            nx.sort_by_key(|&x| (co.cells[x].0 as i64 - co.cells[i].0 as i64).abs() + (co.cells[x].1 as i64 - co.cells[i].1 as i64).abs());
            for x in nx {
                if !seen[x] {
                    seen[x] = true;
                    order.push(x);
                }
            }
        }
        for i in 0..n {
            if !seen[i] {
                order.push(i);
            }
        }
        order
    };
    let far = *bfs(0).last().unwrap_or(&0);
    let order = bfs(far);
    let mut pos = vec![0; n];
    for (k, &i) in order.iter().enumerate() {
        pos[i] = k;
    }
    // remaining unknown cells of each constraint after step k
    let m = co.cons.len();
    let mut layers: Vec<HashMap<Vec<i8>, Vec<u128>>> = Vec::with_capacity(n + 1);
    let init: Vec<i8> = co.cons.iter().map(|c| c.1 as i8).collect();
    let mut l0 = HashMap::new();
    l0.insert(init, vec![1u128]);
    layers.push(l0);
    let mut left: Vec<i8> = co.cons.iter().map(|c| c.0.len() as i8).collect();
    let mut lefts = vec![left.clone()];
    for k in 0..n {
        let i = order[k];
        for &j in &cons_of[i] {
            left[j] -= 1;
        }
        lefts.push(left.clone());
        let mut nx: HashMap<Vec<i8>, Vec<u128>> = HashMap::new();
        for (s, poly) in &layers[k] {
            for v in 0..2i8 {
                let mut t = s.clone();
                let mut ok = true;
                for &j in &cons_of[i] {
                    t[j] -= v;
                    if t[j] < 0 || t[j] > left[j] {
                        ok = false;
                    }
                }
                if !ok {
                    continue;
                }
                let e = nx.entry(t).or_default();
                let need = poly.len() + v as usize;
                if e.len() < need {
                    e.resize(need, 0);
                }
                for (a, x) in poly.iter().enumerate() {
                    e[a + v as usize] += x;
                }
            }
        }
        if nx.len() > 60_000 {
            return None;
        }
        layers.push(nx);
    }
    let zero = vec![0i8; m];
    let mut total = vec![0u128; n + 1];
    if let Some(p) = layers[n].get(&zero) {
        for (a, x) in p.iter().enumerate() {
            total[a] = *x;
        }
    }
    // backward
    let mut cell = vec![vec![0u128; n + 1]; n];
    let mut back: HashMap<Vec<i8>, Vec<u128>> = HashMap::new();
    back.insert(zero, vec![1]);
    for k in (0..n).rev() {
        let i = order[k];
        let mut nb: HashMap<Vec<i8>, Vec<u128>> = HashMap::new();
        for (s, fpoly) in &layers[k] {
            let mut acc: Vec<u128> = vec![];
            for v in 0..2i8 {
                let mut t = s.clone();
                let mut ok = true;
                for &j in &cons_of[i] {
                    t[j] -= v;
                    if t[j] < 0 || t[j] > lefts[k + 1][j] {
                        ok = false;
                    }
                }
                if !ok {
                    continue;
                }
                if let Some(bp) = back.get(&t) {
                    if acc.len() < bp.len() + v as usize {
                        acc.resize(bp.len() + v as usize, 0);
                    }
                    for (a, x) in bp.iter().enumerate() {
                        acc[a + v as usize] += x;
                    }
                    if v == 1 {
                        for (a, x) in fpoly.iter().enumerate() {
                            if *x == 0 {
                                continue;
                            }
                            for (b, y) in bp.iter().enumerate() {
                                if *y != 0 {
                                    cell[i][a + b + 1] += x * y;
                                }
                            }
                        }
                    }
                }
            }
            if !acc.is_empty() {
                nb.insert(s.clone(), acc);
            }
        }
        back = nb;
    }
    Some(Table { total, cell })
}

/// log-free binomial in f64 (exact enough: relative error ~1e-13 for n <= 1000)
pub fn binom(n: usize, k: i64) -> f64 {
    if k < 0 || k > n as i64 {
        return 0.0;
    }
    let k = (k as usize).min(n - k as usize);
    let mut r = 1.0f64;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r
}
fn conv(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut r = vec![0.0; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if *x != 0.0 {
            for (j, y) in b.iter().enumerate() {
                r[i + j] += x * y;
            }
        }
    }
    r
}

pub struct Analysis {
    pub view: View,
    pub tables: Vec<Table>,
    /// every component has a solution and no number is broken
    pub consistent: bool,
    /// least / greatest number of mines on the board the numbers allow (known mines and unconstrained cells included)
    pub min_mines: usize,
    pub max_mines: usize,
}
pub fn analyse(gb: &B) -> Option<Analysis> {
    let view = view(gb);
    let mut tables = vec![];
    let mut consistent = !view.broken;
    let mut mn = view.known_mines;
    let mut mx = view.known_mines + view.free.len();
    for c in &view.comps {
        if c.cons.iter().any(|x| x.1 < 0 || x.1 > 8) {
            consistent = false;
            tables.push(Table { total: vec![0; c.cells.len() + 1], cell: vec![vec![0; c.cells.len() + 1]; c.cells.len()] });
            continue;
        }
        let t = solve_comp(c)?;
        if t.any() {
            mn += t.total.iter().position(|x| *x > 0).unwrap();
            mx += t.total.iter().rposition(|x| *x > 0).unwrap();
        } else {
            consistent = false;
        }
        tables.push(t);
    }
    Some(Analysis { view, tables, consistent, min_mines: mn, max_mines: mx })
}
impl Analysis {
    /// (surely safe, surely mine) among closed cells bordering a number, without using the mine total
    pub fn forced(&self) -> (Vec<P>, Vec<P>) {
        let (mut s, mut m) = (vec![], vec![]);
        for (c, t) in self.view.comps.iter().zip(&self.tables) {
            let tot = t.sum();
            for (i, p) in c.cells.iter().enumerate() {
                let x = t.cell_sum(i);
                if x == 0 {
                    s.push(*p);
                } else if x == tot {
                    m.push(*p);
                }
            }
        }
        s.sort();
        m.sort();
        (s, m)
    }
    /// exact mine probability of every cell with `mines` mines in total; None if no layout exists.
    /// opened cells and known-safe cells 0, known mines 1
    pub fn poss(&self, gb: &B, mines: usize) -> Option<(Vec<Vec<f64>>, f64, f64)> {
        let f: Vec<Vec<f64>> = self.tables.iter().map(|t| t.total.iter().map(|x| *x as f64).collect()).collect();
        let n = f.len();
        // prefix / suffix convolutions
        let mut pre = vec![vec![1.0]];
        for x in &f {
            let l = conv(pre.last().unwrap(), x);
            pre.push(l);
        }
        let mut suf = vec![vec![1.0]; n + 1];
        for i in (0..n).rev() {
            suf[i] = conv(&suf[i + 1], &f[i]);
        }
        let u = self.view.free.len();
        let m = mines as i64 - self.view.known_mines as i64;
        // beyond the range of f64 the weights are scaled by a common factor
        let scaled: Vec<f64> = if u > 1000 {
            let mut lf = vec![0.0f64; u + 1];
            for i in 1..=u {
                lf[i] = lf[i - 1] + (i as f64).ln();
            }
            let lc = |t: i64| if t < 0 || t > u as i64 { f64::NEG_INFINITY } else { lf[u] - lf[t as usize] - lf[u - t as usize] };
            let l: Vec<f64> = (0..pre[n].len()).map(|k| lc(m - k as i64)).collect();
            let top = l.iter().zip(&pre[n]).filter(|(_, x)| **x > 0.0).map(|(y, _)| *y).fold(f64::NEG_INFINITY, f64::max);
            if top == f64::NEG_INFINITY {
                return None;
            }
            l.iter().map(|x| (x - top).exp()).collect()
        } else {
            vec![]
        };
        let w = |k: usize| if u > 1000 { scaled[k] } else { binom(u, m - k as i64) };
        let tot: f64 = pre[n].iter().enumerate().map(|(k, x)| x * w(k)).sum();
        if !(tot > 0.0) {
            return None;
        }
        let mut pr: Vec<Vec<f64>> = gb.iter().map(|r| r.iter().map(|x| if *x == 11 { 1.0 } else { 0.0 }).collect()).collect();
        for (i, c) in self.view.comps.iter().enumerate() {
            let others = conv(&pre[i], &suf[i + 1]);
            for (j, p) in c.cells.iter().enumerate() {
                let cf: Vec<f64> = self.tables[i].cell[j].iter().map(|x| *x as f64).collect();
                let s: f64 = conv(&others, &cf).iter().enumerate().map(|(k, x)| x * w(k)).sum();
                pr[p.0][p.1] = s / tot;
            }
        }
        let fp = if u > 0 {
            pre[n].iter().enumerate().filter(|(k, _)| m >= *k as i64).map(|(k, x)| x * w(k) * (m - k as i64) as f64).sum::<f64>() / tot / u as f64
        } else {
            f64::NAN
        };
        for p in &self.view.free {
            pr[p.0][p.1] = fp;
        }
        Some((pr, fp, tot))
    }
}

/// Plain enumeration of every layout of the closed cells (10) of a tiny board; calls `f` with each layout consistent
/// with the numbers. Used to cross-check `analyse` and as the oracle where per-layout facts matter.
pub fn each_layout(gb: &B, mut f: impl FnMut(&Vec<Vec<bool>>, usize)) {
    let (rows, cols) = dims(gb);
    let unk: Vec<P> = (0..rows).flat_map(|r| (0..cols).map(move |c| (r, c))).filter(|p| gb[p.0][p.1] == 10).collect();
    assert!(unk.len() <= 22);
    let known = gb.iter().flatten().filter(|x| **x == 11).count();
    let mut mine = vec![vec![false; cols]; rows];
    for r in 0..rows {
        for c in 0..cols {
            mine[r][c] = gb[r][c] == 11;
        }
    }
    'o: for bits in 0u32..(1u32 << unk.len()) {
        for (k, p) in unk.iter().enumerate() {
            mine[p.0][p.1] = bits >> k & 1 == 1;
        }
        for r in 0..rows {
            for c in 0..cols {
                if gb[r][c] >= 0 && gb[r][c] <= 8 {
                    let n = nbrs(r, c, rows, cols).iter().filter(|p| mine[p.0][p.1]).count();
                    if n as i32 != gb[r][c] {
                        continue 'o;
                    }
                }
            }
        }
        f(&mine, known + bits.count_ones() as usize);
    }
}

/// Exhaustive local reasoning from a start: open it, then every cell the visible numbers force to be safe, until stuck.
/// Some((all safe cells opened, largest block seen)), None if a component was too large to decide.
pub fn local_solve(board: &B, x0: usize, y0: usize) -> Option<(bool, usize)> {
    let (rows, cols) = dims(board);
    let mut gb = vec![vec![10; cols]; rows];
    if board[x0][y0] == -1 {
        return Some((false, 0));
    }
    open_cells(board, &mut gb, &[(x0, y0)]);
    let mut biggest = 0;
    let safe = rows * cols - mine_count(board);
    loop {
        let open = gb.iter().flatten().filter(|x| **x < 10).count();
        if open == safe {
            return Some((true, biggest));
        }
        let a = analyse(&gb)?;
        for c in &a.view.comps {
            biggest = biggest.max(c.cells.len());
        }
        let (s, m) = a.forced();
        for p in m {
            gb[p.0][p.1] = 11;
        }
        if s.is_empty() {
            return Some((false, biggest));
        }
        open_cells(board, &mut gb, &s);
    }
}
