//! C25, C28: the Python, WebAssembly and C bindings, each served by a process built from /repo's sources and compared
//! with the core called here.
use super::p_board::check_layout;
use super::p_solve::{corrupt, pos, too_big, valid_layout};
use super::p_video::*;
use crate::core::*;
use crate::game::*;
use crate::refm::*;
use crate::{ensure, ensure_eq, gen};
use ms_toollib as ms;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", rule: "Batches of calls into the built Python module and into the WebAssembly wrapper's classes (compiled for this machine), generated as for the core properties: boards, positions (also contradictory ones), event histories with illegal events, recorded games, valid and damaged replays of the four formats with histories of seeks. Each result, or the fact that the call fails, is compared with the core called in this process; randomly generated boards are judged by their defining properties. Non-trivial: at least 8 results of one case were compared, not all of them failures.",
            assumptions: &["the Python module is loaded by the sandbox's CPython", "the WebAssembly wrapper runs as native code, so only its Rust side is exercised", "the C++ interface depends on a released crate, not on this repository's sources"],
            subs: vec![
                Sub { name: "py_funcs", f: py_funcs, quick: 60000, thorough: 2000000, serial: false },
                Sub { name: "py_lay", f: py_lay, quick: 8000, thorough: 160000, serial: false },
                Sub { name: "py_objects", f: py_objects, quick: 60000, thorough: 2000000, serial: false },
                Sub { name: "py_replay", f: py_replay, quick: 50000, thorough: 1500000, serial: false },
                Sub { name: "py_live", f: py_live, quick: 14000, thorough: 300000, serial: false },
                Sub { name: "py_obr", f: py_obr, quick: 1500, thorough: 40000, serial: false },
                Sub { name: "wasm_funcs", f: wasm_funcs, quick: 60000, thorough: 2000000, serial: false },
                Sub { name: "wasm_board", f: wasm_board, quick: 60000, thorough: 2000000, serial: false },
                Sub { name: "wasm_replay", f: wasm_replay, quick: 50000, thorough: 1500000, serial: false },
            ] },
        Prop { id: "C28", rule: "Calls through the C header, linked against the static library built from /repo/c: every cell is compared with the core, and the allocator checks that each release names the layout of its allocation and that nothing is left behind. Non-trivial: the board has at least two rows of different meaning (mines and numbers) or an open cell.",
            assumptions: &["boards are rectangular and positions consistent, as the interface has no way to report an error"],
            subs: vec![Sub { name: "c_calls", f: c_calls, quick: 300000, thorough: 6000000, serial: false }] },
    ]
}

// ---------- servers ----------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Py,
    Wasm,
    C,
}
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Kind::Py => "py",
            Kind::Wasm => "wasm",
            Kind::C => "c",
        }
    }
}
struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Server {
    fn start(k: Kind) -> Server {
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let t = format!("{}/target/bind", verif);
        let mut c = match k {
            Kind::Py => {
                let mut c = Command::new("python3");
                c.arg(format!("{}/bind/py/server.py", verif)).arg(format!("{}/pymod", t));
                c
            }
            Kind::Wasm => Command::new(format!("{}/debug/wasmsrv", t)),
            Kind::C => Command::new(format!("{}/csrv", t)),
        };
        let mut child = c.current_dir("/repo/base").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("server");
        let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        Server { child, to, from }
    }
    fn ask(&mut self, line: &str) -> Option<String> {
        writeln!(self.to, "{}", line).ok()?;
        self.to.flush().ok()?;
        let mut s = String::new();
        match self.from.read_line(&mut s) {
            Ok(n) if n > 0 => Some(s),
            _ => None,
        }
    }
}
thread_local! { static SERVERS: RefCell<[Option<Server>; 3]> = RefCell::new([None, None, None]); }
fn ask(k: Kind, line: &str) -> Result<String, Fail> {
    SERVERS.with(|s| {
        let s = &mut s.borrow_mut()[k as usize];
        let r = s.get_or_insert_with(|| Server::start(k)).ask(line);
        match r {
            Some(r) => Ok(r),
            None => {
                *s = None;
                fail(&format!("crash:{}", k.name()), format!("the process serving the {} binding died of {}", k.name(), line.chars().take(3000).collect::<String>()))
            }
        }
    })
}

/// Layouts by the generators of the WebAssembly package, as strings of 0 and 1 (mine), row by row
pub fn wasm_layouts(op: bool, rows: usize, cols: usize, m: usize, x0: usize, y0: usize, n: usize) -> Result<Vec<Vec<u8>>, Fail> {
    let r = ask(Kind::Wasm, &json!([["fn", "layouts", [op as i32, rows, cols, m, x0, y0, n]]]).to_string())?;
    let r: Vec<(i32, Value)> = serde_json::from_str(&r).or_else(|e| fail("protocol", format!("{}: {}", e, r)))?;
    ensure_eq!(r[0].0, 0, "panic:layouts", "{}", r[0].1);
    let v: Vec<Vec<u8>> = r[0].1.as_array().unwrap().iter().map(|b| b.as_str().unwrap().bytes().collect()).collect();
    for b in &v {
        ensure_eq!(b.len(), rows * cols, "layouts:shape", "cells of a layout");
        ensure_eq!(b.iter().filter(|x| **x == b'1').count(), m, "layouts:mines", "mines of a layout");
    }
    Ok(v)
}

// ---------- batches of calls with expected results ----------
enum X {
    V(Value),
    /// a string holding this as JSON
    P(Value),
    E,
    F(Box<dyn Fn(&Value) -> R>),
}
fn f(x: f64) -> Value {
    json!({ "f": format!("{:016x}", x.to_bits()) })
}
fn unf(v: &Value) -> Option<f64> {
    if let Some(h) = v.get("f") {
        return u64::from_str_radix(h.as_str()?, 16).ok().map(f64::from_bits);
    }
    None
}
fn same(a: &Value, b: &Value) -> bool {
    match (unf(a), unf(b)) {
        (Some(x), Some(y)) => return close9(x, y),
        (None, None) => {}
        _ => return false,
    }
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Number(x), Value::Number(y)) => x == y || ((x.is_f64() || y.is_f64()) && close9(x.as_f64().unwrap(), y.as_f64().unwrap())),
        _ => a == b,
    }
}
fn close9(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}
trait J {
    fn j(self) -> Value;
}
macro_rules! plain_j {
    ($($t:ty),*) => { $(impl J for $t { fn j(self) -> Value { json!(self) } })* };
}
plain_j!(bool, u8, u16, u32, u64, usize, i32, i64, String, B, Vec<u8>, Vec<usize>, Vec<P>, (u16, u16), [u8; 32], [usize; 3], Vec<Vec<usize>>, Vec<B>, Vec<Vec<P>>, Vec<i32>);
impl J for () {
    fn j(self) -> Value {
        Value::Null
    }
}
impl J for f64 {
    fn j(self) -> Value {
        f(self)
    }
}
impl J for Vec<Vec<f64>> {
    fn j(self) -> Value {
        Value::Array(self.into_iter().map(|r| Value::Array(r.into_iter().map(f).collect())).collect())
    }
}
impl J for Vec<(P, f64)> {
    fn j(self) -> Value {
        Value::Array(self.into_iter().map(|(p, x)| json!([p, f(x)])).collect())
    }
}
/// The core's result; a panic means that the binding fails as well.
fn want<T: J>(g: impl FnOnce() -> T) -> X {
    match catch(g) {
        Ok(v) => X::V(v.j()),
        Err(_) => X::E,
    }
}
struct Batch {
    kind: Kind,
    ops: Vec<Value>,
    exp: Vec<(String, X)>,
    ctx: String,
}
impl Batch {
    fn new(kind: Kind, ctx: String) -> Batch {
        Batch { kind, ops: vec![], exp: vec![], ctx }
    }
    fn push(&mut self, what: &str, op: Value, x: X) {
        self.ops.push(op);
        self.exp.push((what.to_string(), x));
    }
    fn func(&mut self, name: &str, args: Value, x: X) {
        self.push(name, json!(["fn", name, args]), x)
    }
    fn make(&mut self, class: &str, id: usize, args: Value, x: X) {
        self.push(class, json!(["new", class, id, args]), x)
    }
    fn call(&mut self, id: usize, name: &str, args: Value, x: X) {
        self.push(name, json!(["call", id, name, args]), x)
    }
    fn get(&mut self, id: usize, name: &str, x: X) {
        self.push(name, json!(["get", id, name]), x)
    }
    fn set(&mut self, id: usize, name: &str, v: Value, x: X) {
        self.push(&format!("set {}", name), json!(["set", id, name, v]), x)
    }
    fn run(self, c: &mut Case) -> Result<Vec<Value>, Fail> {
        let line = serde_json::to_string(&self.ops).unwrap();
        let r = ask(self.kind, &line)?;
        let r: Vec<Value> = serde_json::from_str(&r).or_else(|e| fail("protocol", format!("{}: {}", e, r)))?;
        ensure_eq!(r.len(), self.ops.len(), "protocol", "number of answers");
        let k = self.kind.name();
        let mut good = 0;
        let mut out = vec![];
        for (i, (a, (what, x))) in r.iter().zip(&self.exp).enumerate() {
            let ok = a[0] == json!(0);
            let v = &a[1];
            if !ok {
                let t = v.as_str().unwrap_or("");
                ensure!(!t.starts_with("protocol:") && !t.starts_with("SystemError"), "protocol", "{}", t);
            }
            let clip = |v: &Value| v.to_string().chars().take(700).collect::<String>();
            let op = clip(&self.ops[i]);
            let sig = format!("{}:{}", k, what);
            match x {
                X::E => ensure!(!ok, &sig, "{} returns {} where the core fails; call {} of {}", what, clip(v), op, self.ctx),
                X::V(w) => {
                    ensure!(ok, &sig, "{} fails with {} where the core returns {}; call {} of {}", what, clip(v), clip(w), op, self.ctx);
                    ensure!(same(v, w), &sig, "{} returns {} where the core returns {}; call {} of {}", what, clip(v), clip(w), op, self.ctx);
                    good += 1;
                }
                X::P(w) => {
                    ensure!(ok, &sig, "{} fails with {} where the core returns {}; call {} of {}", what, clip(v), clip(w), op, self.ctx);
                    let p: Value = v.as_str().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
                    ensure!(same(&p, w), &sig, "{} returns {} where the core returns {}; call {} of {}", what, clip(v), clip(w), op, self.ctx);
                    good += 1;
                }
                X::F(g) => {
                    ensure!(ok, &sig, "{} fails with {}; call {} of {}", what, clip(v), op, self.ctx);
                    if let Err(e) = g(v) {
                        return fail(&sig, format!("{} returns {}: {}; call {} of {}", what, clip(v), e.msg, op, self.ctx));
                    }
                    good += 1;
                }
            }
            out.push(v.clone());
        }
        c.nontrivial(good >= 8);
        Ok(out)
    }
}
fn board_of(v: &Value) -> Result<B, Fail> {
    serde_json::from_value(v.clone()).or_else(|e| fail("shape", format!("not a board: {}", e)))
}
fn tuples(v: &[P]) -> Value {
    Value::Array(v.iter().map(|p| json!({ "t": [p.0, p.1] })).collect())
}
fn tuples2(v: &[Vec<P>]) -> Value {
    Value::Array(v.iter().map(|r| tuples(r)).collect())
}

/// A board and a position of it; now and then one of several hundred cells with a few numbers open.
fn any_pos(s: &mut Src) -> (B, B) {
    if !s.chance(1, 16) {
        return pos(s, false);
    }
    let (rows, cols) = (s.us(10, 36), s.us(10, 36));
    let m = s.us(0, rows * cols - 1);
    let b = gen::board_mines(s, rows, cols, m);
    let mut gb = vec![vec![10; cols]; rows];
    for _ in 0..s.us(0, 2) {
        let p = (s.us(0, rows - 1), s.us(0, cols - 1));
        if b[p.0][p.1] > 0 {
            gb[p.0][p.1] = b[p.0][p.1];
        }
    }
    (b, gb)
}
// ---------- Python: functions ----------
fn position(s: &mut Src) -> (B, B, bool) {
    let (b, mut gb) = any_pos(s);
    let mut ok = true;
    match s.weighted(&[6, 2, 2]) {
        1 => {
            gen::mark_some(s, &b, &mut gb, true, true);
        }
        2 => {
            corrupt(s, &mut gb);
            ok = false;
        }
        _ => {}
    }
    (b, gb, ok)
}
type Poss = Result<(Vec<Vec<f64>>, [usize; 3]), usize>;
fn poss_onboard(gb: &B, m: f64) -> Poss {
    let mut g = gb.clone();
    ms::mark_board(&mut g).map_err(|_| 9usize)?;
    ms::cal_possibility_onboard(&g, m)
}
/// Positions whose probabilities are quick to compute
fn light(gb: &B) -> bool {
    match analyse(gb) {
        Some(a) => !too_big(&a),
        None => gb.len() * gb[0].len() <= 64,
    }
}
fn py_funcs(s: &mut Src, c: &mut Case) -> R {
    let (b, gb, ok) = position(s);
    let (rows, cols) = dims(&b);
    let m = if s.chance(1, 4) { s.us(0, rows * cols) } else { mine_count(&b) };
    c.input("board", &b);
    c.input("position", &gb);
    c.input("mines", &m);
    if !light(&gb) {
        return super::p_solve::skip();
    }
    c.class_if(!ok, "corrupted position");
    let mut q = Batch::new(Kind::Py, format!("position {:?} of {:?} with {} mines", gb, b, m));
    q.func("cal_op", json!([b]), want(|| ms::cal_op(&b)));
    q.func("cal_bbbv", json!([b]), want(|| ms::cal_bbbv(&b)));
    q.func("refresh_matrix", json!([gb]), want3(|| ms::refresh_matrix(&gb)));
    q.func("refresh_matrixs", json!([gb]), match catch(|| ms::refresh_matrixs(&gb)) {
        Ok(t) => X::V(json!([t.0, t.1, t.2, t.3, t.4])),
        Err(_) => X::E,
    });
    let clicks: Vec<P> = (0..s.us(0, 3)).map(|_| (s.us(0, rows - 1), s.us(0, cols - 1))).filter(|p| b[p.0][p.1] != -1).collect();
    q.func("refresh_board", json!([b, gb, tuples(&clicks)]), want(|| {
        let mut g = gb.clone();
        ms::refresh_board(&b, &mut g, clicks.clone());
        g
    }));
    q.func("get_all_not_and_is_mine_on_board", json!([gb]), match catch(|| {
        let mut g = gb.clone();
        let (mut a, mut x, mut y, _, _) = ms::refresh_matrixs(&g);
        let r = ms::get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut y, &mut g);
        (g, r)
    }) {
        Ok((g, r)) => X::V(json!([g, r.0, r.1])),
        Err(_) => X::E,
    });
    if let Ok((a, x, y, _, _)) = catch(|| ms::refresh_matrixs(&gb)) {
        let args = json!([a, tuples2(&x), y, gb]);
        macro_rules! engine {
            ($name:ident) => {{
                let (mut a, mut x, mut y, mut g) = (a.clone(), x.clone(), y.clone(), gb.clone());
                let r = catch(|| ms::$name(&mut a, &mut x, &mut y, &mut g));
                q.func(stringify!($name), args.clone(), match r {
                    Ok(Ok(r)) => X::V(json!([a, x, y, g, r.0, r.1])),
                    _ => X::E,
                });
            }};
        }
        engine!(solve_direct);
        engine!(solve_minus);
        q.func("solve_enumerate", json!([gb]), match catch(|| ms::solve_enumerate(&a, &x, &y)) {
            Ok(r) => X::V(json!([r.0, r.1])),
            Err(_) => X::E,
        });
    }
    q.func("unsolvable_structure", json!([b]), want(|| ms::unsolvable_structure(&b)));
    let st = (s.us(0, rows - 1), s.us(0, cols - 1));
    if b[st.0][st.1] != -1 {
        q.func("is_solvable", json!([b, st.0, st.1]), want(|| ms::is_solvable(&b, st.0, st.1)));
    }
    let mut g = gb.clone();
    let marked = catch(|| ms::mark_board(&mut g));
    q.func("mark_board", json!([gb]), if marked.is_ok() { X::V(json!(g)) } else { X::E });
    let mf = m as f64;
    q.func("cal_possibility", json!([gb, f(mf)]), match (&marked, catch(|| ms::cal_possibility(&g, mf))) {
        (Ok(Ok(_)), Ok(Ok(r))) => X::V(json!([r.0.j(), f(r.1), r.2, r.3])),
        _ => X::E,
    });
    q.func("cal_possibility_onboard", json!([gb, f(mf)]), match catch(|| poss_onboard(&gb, mf)) {
        Ok(Ok(r)) => X::V(json!([r.0.j(), r.1])),
        _ => X::E,
    });
    let xy = (s.us(0, rows - 1), s.us(0, cols - 1));
    let t = json!({ "t": [xy.0, xy.1] });
    q.func("is_guess_while_needless", json!([gb, t]), want(|| ms::is_guess_while_needless(&mut gb.clone(), &xy)));
    q.func("is_able_to_solve", json!([gb, t]), want(|| ms::is_able_to_solve(&mut gb.clone(), &xy)));
    // a table of partial assignments: columns are unassigned (2) in all rows or assigned in all
    let n = s.us(1, 7);
    let free: Vec<bool> = (0..n).map(|_| s.chance(1, 2)).collect();
    let table: Vec<Vec<usize>> = (0..s.us(1, 5)).map(|_| (0..n).map(|i| if free[i] { 2 } else { s.us(0, 1) }).collect()).collect();
    let mut ids: Vec<usize> = (0..n).filter(|_| s.chance(2, 3)).collect();
    s.shuffle(&mut ids);
    let k = s.us(0, 4) as i32;
    c.input("table", &(&table, &ids, k));
    q.func("enuOneStep", json!([table, ids, k]), want(|| ms::enuOneStep(table.clone(), ids.clone(), k)));
    q.run(c)?;
    Ok(())
}
fn want3(g: impl FnOnce() -> (B, Vec<P>, Vec<i32>)) -> X {
    match catch(g) {
        Ok(t) => X::V(json!([t.0, t.1, t.2])),
        Err(_) => X::E,
    }
}
fn lay_params(s: &mut Src) -> (usize, usize, usize, usize, usize) {
    let (rows, cols) = (s.us(4, 12), s.us(4, 12));
    let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
    let m = s.us(0, rows * cols / 6);
    (rows, cols, m, x0, y0)
}
/// Now and then parameters past 255 instead
fn wide(s: &mut Src, p: (usize, usize, usize, usize, usize)) -> (usize, usize, usize, usize, usize) {
    if !s.chance(1, 24) {
        return p;
    }
    let (rows, cols) = *s.pick(&[(20, 30), (300, 4), (4, 300)]);
    (rows, cols, s.us(0, rows * cols / 2), s.us(0, rows - 1), s.us(0, cols - 1))
}
fn judge_lay(v: &Value, (rows, cols, m, x0, y0): (usize, usize, usize, usize, usize), zero: bool) -> R {
    let b = board_of(v)?;
    check_layout(&b, rows, cols, m)?;
    ensure!(if zero { b[x0][y0] == 0 } else { b[x0][y0] != -1 }, "start", "start {:?} holds {}", (x0, y0), b[x0][y0]);
    Ok(())
}
fn judge_flagged(v: &Value, p: (usize, usize, usize, usize, usize), budget: usize) -> R {
    let (rows, cols, m, x0, y0) = p;
    let b = board_of(&v[0])?;
    valid_layout(&b, rows, cols, m)?;
    ensure!(b[x0][y0] == 0, "start", "start {:?} holds {}", (x0, y0), b[x0][y0]);
    let flag = v[1].as_bool();
    ensure!(flag.is_some(), "shape", "no flag");
    if flag == Some(true) {
        ensure!(budget > 0, "budget", "success without an attempt");
        if let Some((ok, _)) = local_solve(&b, x0, y0) {
            ensure!(ok, "flag", "flagged as solvable but is not");
        }
    }
    Ok(())
}
/// Recognition; a refusal reads [[200]] in Python.
fn py_obr(s: &mut Src, c: &mut Case) -> R {
    let mut q = Batch::new(Kind::Py, "picture".into());
    let (v, h, w) = super::p_obr::picture(s);
    c.input("size", &(h, w));
    let want = catch(|| ms::OBR_board(v.clone(), h, w));
    let read = matches!(want, Ok(Ok(_)));
    q.func("OBR_board", json!([v, h, w]), match want {
        Ok(Ok(b)) => X::V(json!(b)),
        Ok(Err(_)) => X::V(json!([[200]])),
        Err(_) => X::E,
    });
    q.run(c)?;
    c.nontrivial = read;
    Ok(())
}
fn py_lay(s: &mut Src, c: &mut Case) -> R {
    let mut q = Batch::new(Kind::Py, "random boards".into());
    for _ in 0..8 {
        let p = lay_params(s);
        let (rows, cols, m, x0, y0) = p;
        let which = s.weighted(&[4, 4, 4, 2, 1, 2]);
        let p = if which < 2 { wide(s, p) } else { p };
        let (rows, cols, m, x0, y0) = p;
        let kw = s.us(0, 5);
        c.input("call", &(which, p, kw));
        let names = ["row", "column", "mine_num", "x0", "y0"];
        let vals = [rows, cols, m, x0, y0];
        let pos_args: Vec<usize> = vals[..kw].to_vec();
        let mut kws: serde_json::Map<String, Value> = (kw..5).map(|i| (names[i].to_string(), json!(vals[i]))).collect();
        let op = |name: &str, k: &serde_json::Map<String, Value>| json!(["fn", name, pos_args, k]);
        match which {
            0 => q.push("laymine", op("laymine", &kws), X::F(Box::new(move |v| judge_lay(v, p, false)))),
            1 => q.push("laymine_op", op("laymine_op", &kws), X::F(Box::new(move |v| judge_lay(v, p, true)))),
            2 | 3 => {
                let name = if which == 2 { "laymine_solvable" } else { "laymine_solvable_thread" };
                let budget = *s.pick(&[0, 1, 100, 1000000]);
                // a large budget only where success is quick
                let budget = if budget == 1000000 && m > rows * cols / 10 { 10 } else { budget };
                if budget < 1000000 || s.chance(1, 2) {
                    kws.insert("max_times".into(), json!(budget));
                }
                q.push(name, op(name, &kws), X::F(Box::new(move |v| {
                    judge_flagged(v, p, budget)?;
                    if budget == 1000000 && which == 2 {
                        ensure!(v[1] == json!(true), "flag", "no solvable board in 1000000 attempts");
                    }
                    Ok(())
                })))
            }
            4 if s.chance(1, 3) => {
                // more mines than an opening leaves room for: the call reports failure, unless only the start is free
                let area = nbrs(x0, y0, rows, cols).len() + 1;
                let m = s.us(rows * cols - area + 1, rows * cols - 1);
                c.input("mines", &m);
                q.func("laymine_solvable_adjust", json!([rows, cols, m, x0, y0]), X::F(Box::new(move |v| {
                    let b = board_of(&v[0])?;
                    valid_layout(&b, rows, cols, m)?;
                    ensure!(b[x0][y0] != -1, "start", "start {:?} holds a mine", (x0, y0));
                    ensure_eq!(v[1].as_bool(), Some(m == rows * cols - 1), "flag", "flag of {:?}", b);
                    Ok(())
                })))
            }
            4 => {
                let p = (rows.min(8), cols.min(8), m.min(rows.min(8) * cols.min(8) / 8), x0.min(7), y0.min(7));
                q.func("laymine_solvable_adjust", json!([p.0, p.1, p.2, p.3, p.4]), X::F(Box::new(move |v| judge_flagged(v, p, 1))))
            }
            _ => {
                let (x, y, n) = (s.us(0, 15), s.us(0, 29), s.us(0, 48));
                q.func("sample_3BVs_exp", json!([x, y, n]), X::F(Box::new(move |v| {
                    let h: Vec<usize> = serde_json::from_value(v.clone()).or_else(|e| fail("shape", format!("{}", e)))?;
                    ensure_eq!(h.len(), 382, "sample", "length of the histogram");
                    ensure_eq!(h.iter().sum::<usize>(), n / 16 * 16, "sample", "total of the histogram");
                    ensure!(h[..40].iter().all(|x| *x == 0), "sample", "an expert board with a 3BV below 40");
                    Ok(())
                })))
            }
        }
    }
    q.run(c)?;
    Ok(())
}

// ---------- boards in play ----------
fn st_num(x: ms::GameBoardState) -> usize {
    match x {
        ms::GameBoardState::Ready => 1,
        ms::GameBoardState::Playing => 2,
        ms::GameBoardState::Win => 3,
        ms::GameBoardState::Loss => 4,
        ms::GameBoardState::PreFlaging => 5,
        ms::GameBoardState::Display => 6,
    }
}
fn ms_num(x: ms::MouseState) -> usize {
    match x {
        ms::MouseState::UpUp => 1,
        ms::MouseState::UpDown => 2,
        ms::MouseState::UpDownNotFlag => 3,
        ms::MouseState::DownUp => 4,
        ms::MouseState::Chording => 5,
        ms::MouseState::ChordingNotFlag => 6,
        ms::MouseState::DownUpAfterChording => 7,
        ms::MouseState::Undefined => 8,
    }
}
macro_rules! board_getters {
    ($q:expr, $id:expr, $m:expr, $txt:expr, $board:expr) => {{
        let m = &$m;
        for (n, v) in [("left", m.left), ("right", m.right), ("double", m.double), ("ce", m.ce), ("flag", m.flag), ("bbbv_solved", m.bbbv_solved), ("row", m.row), ("column", m.column), ("game_board_state", st_num(m.game_board_state)), ("mouse_state", ms_num(m.mouse_state))] {
            $q.get($id, n, X::V(json!(v)));
        }
        let b: B = $board;
        if $txt {
            $q.get($id, "game_board", X::P(json!(m.game_board)));
            $q.get($id, "board", X::P(json!(b)));
        } else {
            $q.get($id, "game_board", X::V(json!(m.game_board)));
            $q.get($id, "board", X::V(json!(b)));
        }
    }};
}
fn moves(s: &mut Src, board: &B) -> Vec<Ev> {
    let o = Opts { aliases: true, illegal: s.chance(1, 2), outside: s.chance(1, 3), middle: s.chance(1, 3), moves: s.chance(1, 2), max: s.us(3, 25) };
    let raw = history(s, board, o);
    let evs = if s.chance(1, 3) { finish(s, board, raw, o) } else { raw };
    scatter(s, board, evs)
}
fn rl_board(gb: &B, m: f64) -> X {
    let t1: Vec<Vec<f64>> = gb.iter().map(|r| r.iter().map(|x| if *x == 10 { -1.0 } else if *x == 11 { -2.0 } else { *x as f64 }).collect()).collect();
    let mut g: B = gb.iter().map(|r| r.iter().map(|x| (*x).min(10)).collect()).collect();
    match catch(|| {
        let _ = ms::mark_board(&mut g);
        ms::cal_possibility_onboard(&g, m).unwrap().0
    }) {
        Ok(t2) => X::V(json!([t1.j(), t2.j()])),
        Err(_) => X::E,
    }
}
macro_rules! play_board {
    ($s:expr, $q:expr, $core:expr, $evs:expr, $id:expr, $reset:expr, $poss:expr, $mines:expr) => {{
        let (s, q, evs) = (&mut *$s, &mut $q, &$evs);
        let mut i = 0;
        while i < evs.len() {
            if s.chance(1, 5) {
                // several events at once
                let n = s.us(1, (evs.len() - i).min(5));
                let part: Vec<(&str, P)> = evs[i..i + n].iter().map(|(e, p)| (*e, *p)).collect();
                let arg = Value::Array(part.iter().map(|(e, p)| json!({ "t": [e, { "t": [p.0, p.1] }] })).collect());
                let r = catch(|| $core.step_flow(part).is_ok());
                q.call($id, "step_flow", json!([arg]), if matches!(r, Ok(true)) { X::V(Value::Null) } else { X::E });
                i += n;
            } else {
                let (e, p) = evs[i];
                let r = catch(|| $core.step(e, p).is_ok());
                q.call($id, "step", json!([e, { "t": [p.0, p.1] }]), if matches!(r, Ok(true)) { X::V(Value::Null) } else { X::E });
                i += 1;
            }
            if s.chance(1, 4) {
                board_getters!(q, $id, $core, false, $core.board.to_b());
            }
            if $poss && s.chance(1, 8) && light(&$core.game_board.iter().map(|r| r.iter().map(|x| (*x).min(10)).collect()).collect()) {
                q.call($id, "get_game_board_2", json!([f($mines as f64)]), rl_board(&$core.game_board, $mines as f64));
            }
        }
        board_getters!(q, $id, $core, false, $core.board.to_b());
    }};
}
trait ToB {
    fn to_b(&self) -> B;
}
impl ToB for B {
    fn to_b(&self) -> B {
        self.clone()
    }
}
impl ToB for ms::SafeBoard {
    fn to_b(&self) -> B {
        self.into_vec_vec()
    }
}
fn py_objects(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 1, 8, 1, 8);
    let m = mine_count(&board);
    let evs = moves(s, &board);
    let small = board.len() * board[0].len() <= 64;
    let which = s.weighted(&[4, 4, 3, 2, 2]);
    c.input("class", &which);
    c.input("board", &board);
    let mut q = Batch::new(Kind::Py, format!("on {:?}", board));
    match which {
        0 => {
            c.input("events", &evs);
            let mut core = lib("new", || ms::MinesweeperBoard::<B>::new(board.clone()))?;
            q.make("MinesweeperBoard", 0, json!([board]), X::V(Value::Null));
            play_board!(s, q, core, evs, 0, true, small, m);
            if s.chance(1, 2) {
                core.reset();
                q.call(0, "reset", json!([]), X::V(Value::Null));
                board_getters!(q, 0, core, false, core.board.clone());
                if s.chance(1, 2) {
                    // another board of the same size
                    let b2 = gen::board_mines(s, board.len(), board[0].len(), m);
                    core.board = b2.clone();
                    q.set(0, "board", json!(b2), X::V(Value::Null));
                    let evs2 = moves(s, &b2);
                    c.input("second", &(&b2, &evs2));
                    play_board!(s, q, core, evs2, 0, true, small, m);
                }
            }
        }
        1 => {
            c.input("events", &evs);
            let late = s.chance(1, 2);
            let first = if late { vec![vec![0; board[0].len()]; board.len()] } else { board.clone() };
            let mut core = lib("new", || ms::MinesweeperBoard::<ms::SafeBoard>::new(ms::SafeBoard::new(first.clone())))?;
            q.make("SafeMinesweeperBoard", 0, json!([first]), X::V(Value::Null));
            if late {
                core.board.set(board.clone());
                q.set(0, "board", json!(board), X::V(Value::Null));
            }
            play_board!(s, q, core, evs, 0, false, small, m);
        }
        2 => {
            q.make("GameBoard", 0, json!([m]), X::V(Value::Null));
            let mut core = ms::GameBoard::new(m);
            for _ in 0..s.us(1, 3) {
                let mut gb = if s.chance(1, 2) { gen::position_deep(s, &board) } else { gen::position(s, &board, true) };
                gen::mark_some(s, &board, &mut gb, true, true);
                c.input("position", &gb);
                if !light(&gb) {
                    return super::p_solve::skip();
                }
                core.set_game_board(&gb);
                q.set(0, "game_board", json!(gb), X::V(Value::Null));
                game_board_getters(s, &mut q, 0, &mut core);
            }
        }
        3 => {
            q.make("Board", 0, json!([board]), X::V(Value::Null));
            let mut core = ms::Board::new(board.clone());
            let mut gs: Vec<(&str, X)> = vec![
                ("bbbv", want(|| core.get_bbbv())),
                ("op", want(|| core.get_op())),
                ("isl", want(|| core.get_isl())),
                ("cell0", want(|| core.get_cell0())),
                ("cell1", want(|| core.get_cell1())),
                ("cell2", want(|| core.get_cell2())),
                ("cell3", want(|| core.get_cell3())),
                ("cell4", want(|| core.get_cell4())),
                ("cell5", want(|| core.get_cell5())),
                ("cell6", want(|| core.get_cell6())),
                ("cell7", want(|| core.get_cell7())),
                ("cell8", want(|| core.get_cell8())),
            ];
            s.shuffle(&mut gs);
            for (n, x) in gs {
                q.get(0, n, x);
            }
        }
        _ => {
            q.make("SafeBoard", 0, json!([board]), X::V(Value::Null));
            let mut core = ms::SafeBoard::new(board.clone());
            for _ in 0..s.us(1, 3) {
                for _ in 0..s.us(2, 8) {
                    let (i, j) = (s.us(0, board.len()), s.us(0, board[0].len()));
                    q.push("item", json!(["item", 0, i, j]), want(|| core[i][j]));
                }
                q.call(0, "into_vec_vec", json!([]), want(|| core.into_vec_vec()));
                let b2 = gen::board_mines(s, board.len(), board[0].len(), m);
                core.set(b2.clone());
                q.call(0, "set", json!([b2]), X::V(Value::Null));
            }
            q.call(0, "into_vec_vec", json!([]), want(|| core.into_vec_vec()));
            for i in 0..board.len() {
                for j in 0..board[0].len() {
                    q.push("item", json!(["item", 0, i, j]), want(|| core[i][j]));
                }
            }
        }
    }
    q.run(c)?;
    Ok(())
}
fn game_board_getters(s: &mut Src, q: &mut Batch, id: usize, core: &mut ms::GameBoard) {
    let mut order = [0, 1, 2, 3, 4];
    s.shuffle(&mut order);
    for o in order {
        match o {
            0 => q.get(id, "poss", want(|| core.get_poss().to_vec())),
            1 => q.get(id, "basic_not_mine", want(|| core.get_basic_not_mine().to_vec())),
            2 => q.get(id, "basic_is_mine", want(|| core.get_basic_is_mine().to_vec())),
            3 => q.get(id, "enum_not_mine", want(|| core.get_enum_not_mine().to_vec())),
            _ => q.get(id, "enum_is_mine", want(|| core.get_enum_is_mine().to_vec())),
        }
    }
}

// ---------- replays ----------
macro_rules! common_getters {
    ($q:expr, $id:expr, $v:expr) => {{
        let (q, id, v) = (&mut *$q, $id, &*$v);
        q.get(id, "software", want(|| v.software.clone()));
        q.get(id, "row", want(|| v.height));
        q.get(id, "column", want(|| v.width));
        q.get(id, "level", want(|| v.level));
        q.get(id, "mode", want(|| v.mode));
        q.get(id, "is_completed", want(|| v.is_completed));
        q.get(id, "is_offical", want(|| v.is_offical));
        q.get(id, "is_fair", want(|| v.is_fair));
        q.get(id, "mine_num", want(|| v.mine_num));
        q.get(id, "player_designator", want(|| v.player_designator.clone()));
        q.get(id, "race_designator", want(|| v.race_designator.clone()));
        q.get(id, "uniqueness_designator", want(|| v.uniqueness_designator.clone()));
        q.get(id, "country", want(|| v.country.clone()));
        q.get(id, "bbbv", want(|| v.static_params.bbbv));
        q.get(id, "op", want(|| v.static_params.op));
        q.get(id, "isl", want(|| v.static_params.isl));
        q.get(id, "hizi", want(|| v.static_params.hizi));
        q.get(id, "cell0", want(|| v.static_params.cell0));
        q.get(id, "cell1", want(|| v.static_params.cell1));
        q.get(id, "cell2", want(|| v.static_params.cell2));
        q.get(id, "cell3", want(|| v.static_params.cell3));
        q.get(id, "cell4", want(|| v.static_params.cell4));
        q.get(id, "cell5", want(|| v.static_params.cell5));
        q.get(id, "cell6", want(|| v.static_params.cell6));
        q.get(id, "cell7", want(|| v.static_params.cell7));
        q.get(id, "cell8", want(|| v.static_params.cell8));
        q.get(id, "left", want(|| v.get_left()));
        q.get(id, "right", want(|| v.get_right()));
        q.get(id, "double", want(|| v.get_double()));
        q.get(id, "cl", want(|| v.get_cl()));
        q.get(id, "flag", want(|| v.get_flag()));
        q.get(id, "bbbv_solved", want(|| v.get_bbbv_solved().unwrap()));
        q.get(id, "ce", want(|| v.get_ce().unwrap()));
        q.get(id, "path", want(|| v.get_path()));
        q.get(id, "thrp", want(|| v.get_thrp().unwrap()));
        q.get(id, "ioe", want(|| v.get_ioe().unwrap()));
        q.get(id, "corr", want(|| v.get_corr().unwrap()));
        q.get(id, "events_len", want(|| v.video_action_state_recorder.len()));
        q.get(id, "current_event_id", want(|| v.current_event_id));
        q.get(id, "mouse_state", want(|| v.get_mouse_state()));
        q.get(id, "checksum", want(|| v.get_checksum().unwrap()));
    }};
}
macro_rules! time_getters {
    ($q:expr, $id:expr, $v:expr) => {{
        let (q, id, v) = (&mut *$q, $id, &*$v);
        q.get(id, "start_time", want(|| v.start_time.clone()));
        q.get(id, "end_time", want(|| v.end_time.clone()));
        q.get(id, "rtime", want(|| v.get_rtime().unwrap()));
        q.get(id, "rtime_ms", want(|| v.get_rtime_ms().unwrap()));
        q.get(id, "etime", want(|| v.get_etime().unwrap()));
        q.get(id, "video_start_time", want(|| v.get_video_start_time().unwrap()));
        q.get(id, "video_end_time", want(|| v.get_video_end_time().unwrap()));
        q.get(id, "bbbv_s", want(|| v.get_bbbv_s().unwrap()));
        q.get(id, "stnb", want(|| v.get_stnb().unwrap()));
        q.get(id, "rqp", want(|| v.get_rqp().unwrap()));
        q.get(id, "left_s", want(|| v.get_left_s()));
        q.get(id, "right_s", want(|| v.get_right_s()));
        q.get(id, "double_s", want(|| v.get_double_s()));
        q.get(id, "cl_s", want(|| v.get_cl_s()));
        q.get(id, "flag_s", want(|| v.get_flag_s()));
        q.get(id, "ce_s", want(|| v.get_ce_s().unwrap()));
        q.get(id, "x_y", want(|| v.get_x_y().unwrap()));
        q.get(id, "raw_data", want(|| v.get_raw_data().unwrap()));
    }};
}
macro_rules! event_getters {
    ($s:expr, $q:expr, $id:expr, $v:expr, $n:expr, $comments:expr, $times:expr) => {{
        let (s, q, v) = (&mut *$s, &mut *$q, &*$v);
        let len = v.video_action_state_recorder.len();
        for _ in 0..$n {
            // sometimes one too far
            let i = if len == 0 || s.chance(1, 30) { len } else { s.us(0, len - 1) };
            if $times {
                q.call($id, "events_time", json!([i]), want(|| v.video_action_state_recorder[i].time));
            }
            q.call($id, "events_mouse", json!([i]), want(|| v.video_action_state_recorder[i].mouse.clone()));
            q.call($id, "events_x", json!([i]), want(|| v.video_action_state_recorder[i].x));
            q.call($id, "events_y", json!([i]), want(|| v.video_action_state_recorder[i].y));
            q.call($id, "events_useful_level", json!([i]), want(|| v.video_action_state_recorder[i].useful_level));
            q.call($id, "events_mouse_state", json!([i]), want(|| ms_num(v.video_action_state_recorder[i].mouse_state)));
            if $comments {
                q.call($id, "events_comments", json!([i]), want(|| v.video_action_state_recorder[i].comments.clone()));
            }
        }
    }};
}
const FEATURES: [&str; 7] = ["high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss", "super_fl_local"];
fn class_of(f: Fmt) -> &'static str {
    match f {
        Fmt::Evf => "EvfVideo",
        Fmt::Avf => "AvfVideo",
        Fmt::Rmv => "RmvVideo",
        Fmt::Mvf => "MvfVideo",
    }
}
fn replay_bytes(s: &mut Src, c: &mut Case) -> (Fmt, Vec<u8>) {
    let fm = *s.pick(&FMTS);
    let mut bytes = valid_file(s, fm);
    if s.chance(1, 6) {
        let header = bytes.len().min(80).max(1);
        damage(s, &mut bytes, &[], header);
        c.class("damaged");
    }
    c.input("format", &fm);
    c.input("bytes", &bytes);
    (fm, bytes)
}
/// Everything a replay object of either binding answers, in the same order as the core is asked.
fn drive(s: &mut Src, c: &mut Case, q: &mut Batch, v: &mut V, r: &Result<(), String>, py: bool) -> R {
    q.call(0, "parse_video", json!([]), if r.is_ok() { X::V(Value::Null) } else { X::E });
    if r.is_err() {
        c.class("does not parse");
        if v.video_action_state_recorder.is_empty() {
            return Ok(());
        }
        q.get(0, "row", want(|| v.height));
        return Ok(());
    }
    c.class("parsed");
    c.class(match q.exp[0].0.as_str() {
        "EvfVideo" => "evf",
        "AvfVideo" => "avf",
        "RmvVideo" => "rmv",
        _ => "mvf",
    });
    let small = v.width * v.height <= 36 && v.video_action_state_recorder.len() <= 60;
    macro_rules! all {
        () => {{
            common_getters!(q, 0, v);
            time_getters!(q, 0, v);
            event_getters!(s, q, 0, v, 4, py, true);
            if py {
                q.get(0, "time", want(|| v.get_time()));
                q.get(0, "game_board_state", X::V(json!(1)));
                q.get(0, "game_board", want(|| v.get_game_board()));
            } else {
                q.get(0, "device_uuid", want(|| v.device_uuid.clone()));
                q.get(0, "pix_size", want(|| v.get_pix_size().unwrap()));
                q.get(0, "game_board_state", X::V(json!(st_num(v.game_board_state))));
                q.call(0, "is_valid", json!([]), want(|| v.is_valid()));
                q.get(0, "game_board", match catch(|| v.get_game_board()) {
                    Ok(g) => X::P(json!(g)),
                    Err(_) => X::E,
                });
            }
            if small && s.chance(1, 3) {
                let g = catch(|| v.get_game_board_poss());
                q.get(0, "game_board_poss", match g {
                    Ok(g) if py => X::V(g.j()),
                    Ok(g) => X::P(json!(g)),
                    Err(_) => X::E,
                });
            }
        }};
    }
    if s.chance(1, 4) {
        all!();
    }
    let a = catch(|| v.analyse());
    q.call(0, "analyse", json!([]), want(|| a.clone().unwrap()));
    if a.is_err() {
        return Ok(());
    }
    if py && small && s.chance(1, 3) {
        let n = s.us(1, 3);
        let fs: Vec<&str> = (0..n).map(|_| *s.pick(&FEATURES)).collect();
        let r = catch(|| v.analyse_for_features(fs.clone()));
        q.call(0, "analyse_for_features", json!([fs]), if r.is_ok() { X::V(Value::Null) } else { X::E });
        if r.is_err() {
            return Ok(());
        }
        c.class("features");
        for i in 0..v.video_action_state_recorder.len() {
            q.call(0, "events_comments", json!([i]), want(|| v.video_action_state_recorder[i].comments.clone()));
        }
    }
    all!();
    let n = v.video_action_state_recorder.len();
    for _ in 0..s.us(0, 3) {
        match s.weighted(&[4, 4, 1]) {
            0 if n > 0 => {
                let id = s.us(0, n - 1);
                let r = catch(|| v.set_current_event_id(id).is_ok());
                q.set(0, "current_event_id", json!(id), if matches!(r, Ok(true)) { X::V(Value::Null) } else { X::E });
            }
            2 if py => {
                let p = s.us(1, 60);
                let r = catch(|| v.set_video_playing_pix_size(p as u8));
                q.set(0, "video_playing_pix_size", json!(p), want(|| r.unwrap()));
            }
            _ => {
                let (Ok(Ok(a)), Ok(Ok(b))) = (catch(|| v.get_video_start_time()), catch(|| v.get_video_end_time())) else { continue };
                let t = a - 0.5 + (b - a + 1.0) * s.us(0, 1000) as f64 / 1000.0;
                let r = catch(|| v.set_current_time(t));
                q.set(0, "current_time", f(t), want(|| r.unwrap()));
            }
        }
        all!();
        c.class("seek");
    }
    if py && small && n > 0 && s.chance(1, 2) {
        for j in 0..s.us(1, 2) {
            let i = s.us(0, n - 1);
            let mut g = v.game_board_stream[v.video_action_state_recorder[i].prior_game_board_id].clone();
            q.push("events_prior_game_board", json!(["sub", 0, "events_prior_game_board", [i], 10 + j]), X::V(Value::Null));
            game_board_getters(s, q, 10 + j, &mut g);
        }
    }
    Ok(())
}
fn py_replay(s: &mut Src, c: &mut Case) -> R {
    let (fm, bytes) = replay_bytes(s, c);
    let (mut v, r) = match parse(fm, &bytes) {
        Ok(x) => x,
        // the core's own failures are C17's
        Err(_) => return super::p_solve::skip(),
    };
    let file = put(&bytes);
    let mut q = Batch::new(Kind::Py, format!("{:?} replay", fm));
    q.make(class_of(fm), 0, json!([file]), X::V(Value::Null));
    drive(s, c, &mut q, &mut v, &r, true)?;
    if r.is_ok() && s.chance(1, 4) {
        let g = catch(|| v.generate_evf_v0_raw_data());
        q.call(0, "generate_evf_v0_raw_data", json!([]), if g.is_ok() { X::V(Value::Null) } else { X::E });
        q.get(0, "raw_data", want(|| v.get_raw_data().unwrap()));
        if g.is_ok() {
            let d = fresh_dir();
            let n = s.us(1, 2);
            for _ in 0..n {
                q.call(0, "save_to_evf_file", json!([format!("{}/x", d)]), X::V(Value::Null));
            }
            q.run(c)?;
            let got = listing(&d);
            let _ = std::fs::remove_dir_all(&d);
            let d2 = fresh_dir();
            for _ in 0..n {
                lib("save", || v.save_to_evf_file(&format!("{}/x", d2)))?;
            }
            let exp = listing(&d2);
            let _ = std::fs::remove_dir_all(&d2);
            ensure_eq!(got, exp, "py:save_to_evf_file", "files saved {} times", n);
            c.class("saved");
            return Ok(());
        }
    }
    q.run(c)?;
    Ok(())
}
fn wasm_replay(s: &mut Src, c: &mut Case) -> R {
    let (fm, bytes) = replay_bytes(s, c);
    let (mut v, r) = match parse(fm, &bytes) {
        Ok(x) => x,
        Err(_) => return super::p_solve::skip(),
    };
    let mut q = Batch::new(Kind::Wasm, format!("{:?} replay", fm));
    q.make(class_of(fm), 0, json!([bytes, "a"]), X::V(Value::Null));
    drive(s, c, &mut q, &mut v, &r, false)?;
    q.run(c)?;
    Ok(())
}

// ---------- the live recorder from Python ----------
fn py_live(s: &mut Src, c: &mut Case) -> R {
    let board = video_board(s);
    let pix = pix_for(s, &board);
    let done = s.chance(3, 4);
    let plan = live_plan(s, board.clone(), pix, done);
    let h = heads(s);
    let sum: Vec<u8> = (0..32).map(|_| s.byte()).collect();
    c.input("board", &board);
    c.input("pix", &pix);
    c.input("events", &plan.evs);
    c.input("header", &h);
    let mut q = Batch::new(Kind::Py, format!("a live game on {:?}, cell size {}: {:?}", board, pix, plan.evs));
    let other = s.chance(1, 3);
    let first = if other { vec![vec![0; 3]; 4] } else { board.clone() };
    let mut v = lib("new", || ms::BaseVideo::<ms::SafeBoard>::new_before_game(first.clone(), if other { 7 } else { pix as u8 }))?;
    q.make("BaseVideo", 0, json!([first, if other { 7 } else { pix }]), X::V(Value::Null));
    let (rows, cols) = dims(&board);
    if other {
        lib("reset", || v.reset(rows, cols, pix as u8))?;
        q.call(0, "reset", json!([rows, cols, pix]), X::V(Value::Null));
        let r = lib("set_board", || v.set_board(board.clone()))?;
        q.set(0, "board", json!(board), if r.is_ok() { X::V(Value::Null) } else { X::E });
    }
    if s.chance(1, 8) {
        let p2 = s.us(1, 255);
        let _ = lib("pix", || v.set_pix_size(p2 as u8))?;
        q.set(0, "pix_size", json!(p2), X::V(Value::Null));
        let _ = lib("pix", || v.set_pix_size(pix as u8))?;
        q.set(0, "pix_size", json!(pix), X::V(Value::Null));
    }
    let q2 = &mut q;
    macro_rules! all {
        () => {{
            common_getters!(q2, 0, &v);
            event_getters!(s, q2, 0, &v, 3, true, false);
            q2.get(0, "game_board", want(|| v.get_game_board()));
            q2.get(0, "game_board_state", X::V(json!(st_num(v.game_board_state))));
            q2.push("board", json!(["subget", 0, "board", 5]), X::V(Value::Null));
            q2.call(5, "into_vec_vec", json!([]), want(|| v.minesweeper_board.board.into_vec_vec()));
            for n in ["video_start_time", "video_end_time", "x_y"] {
                q2.get(0, n, X::E);
            }
        }};
    }
    let sleep_at = s.us(0, plan.evs.len().max(1) - 1);
    for (i, (e, p, _)) in plan.evs.iter().enumerate() {
        if i == sleep_at {
            q2.push("sleep", json!(["sleep", 3]), X::V(Value::Null));
        }
        let r = lib("step", || v.step(e, *p))?;
        q2.call(0, "step", json!([e, { "t": [p.0, p.1] }]), if r.is_ok() { X::V(Value::Null) } else { X::E });
        if s.chance(1, 10) {
            all!();
        }
    }
    let over = matches!(v.game_board_state, ms::GameBoardState::Win | ms::GameBoardState::Loss);
    if s.chance(1, 3) {
        let win = v.game_board_state == ms::GameBoardState::Win;
        if win {
            lib("flag_all", || v.win_then_flag_all_mine())?;
            q2.call(0, "win_then_flag_all_mine", json!([]), X::V(Value::Null));
        } else if over {
            lib("open_all", || v.loss_then_open_all_mine())?;
            q2.call(0, "loss_then_open_all_mine", json!([]), X::V(Value::Null));
        }
    }
    // headers: accepted or refused alike
    let st = &h.strings;
    let mut k = |name: &str, val: Value, r: bool, q2: &mut Batch| q2.set(0, name, val, if r { X::V(Value::Null) } else { X::E });
    k("is_offical", json!(h.flags.0), v.set_is_offical(h.flags.0).is_ok(), q2);
    k("is_fair", json!(h.flags.1), v.set_is_fair(h.flags.1).is_ok(), q2);
    k("mode", json!(h.mode), v.set_mode(h.mode).is_ok(), q2);
    k("software", json!(st[0]), v.set_software(st[0].clone()).is_ok(), q2);
    k("player_designator", json!(st[1]), v.set_player_designator(st[1].clone()).is_ok(), q2);
    k("race_designator", json!(st[2]), v.set_race_designator(st[2].clone()).is_ok(), q2);
    k("uniqueness_designator", json!(st[3]), v.set_uniqueness_designator(st[3].clone()).is_ok(), q2);
    k("country", json!(st[4]), v.set_country(st[4].clone()).is_ok(), q2);
    k("device_uuid", json!(st[5]), v.set_device_uuid(st[5].clone()).is_ok(), q2);
    all!();
    if !over {
        for n in ["rtime", "rtime_ms"] {
            q2.get(0, n, X::E);
        }
        c.class("unfinished");
        q.run(c)?;
        return Ok(());
    }
    c.class(if v.game_board_state == ms::GameBoardState::Win { "won" } else { "lost" });
    let at = q2.ops.len();
    let n = v.video_action_state_recorder.len();
    const T: [&str; 13] = ["rtime", "rtime_ms", "time", "etime", "bbbv_s", "stnb", "rqp", "left_s", "right_s", "double_s", "cl_s", "flag_s", "ce_s"];
    for t in T {
        q2.get(0, t, X::F(Box::new(|_| Ok(()))));
    }
    q2.get(0, "start_time", X::F(Box::new(|_| Ok(()))));
    q2.get(0, "end_time", X::F(Box::new(|_| Ok(()))));
    for i in 0..n {
        q2.call(0, "events_time", json!([i]), X::F(Box::new(|_| Ok(()))));
    }
    q2.call(0, "generate_evf_v0_raw_data", json!([]), X::V(Value::Null));
    q2.get(0, "raw_data", X::F(Box::new(|_| Ok(()))));
    let r = v.set_checksum(sum.clone().try_into().unwrap());
    q2.set(0, "checksum", json!(sum), if r.is_ok() { X::V(Value::Null) } else { X::E });
    q2.get(0, "checksum", want(|| v.get_checksum().unwrap()));
    let d = fresh_dir();
    q2.get(0, "raw_data", X::F(Box::new(|_| Ok(()))));
    q2.call(0, "save_to_evf_file", json!([format!("{}/x", d)]), X::V(Value::Null));
    let ctx = q.ctx.clone();
    let res = q.run(c);
    let files = listing(&d);
    let _ = std::fs::remove_dir_all(&d);
    let res = res?;
    let fl = |i: usize| unf(&res[at + i]).or(res[at + i].as_f64()).unwrap_or(f64::NAN);
    let rtime = fl(0);
    ensure!((fl(1) - rtime * 1000.0).abs() < 1e-6, "py:rtime_ms", "rtime {} but {} ms in {}", rtime, fl(1), ctx);
    ensure!(close9(fl(2), rtime), "py:time", "time {} after the end at {} in {}", fl(2), rtime, ctx);
    let ks = [v.get_left(), v.get_right(), v.get_double(), v.get_ce().unwrap(), v.get_flag(), v.get_bbbv_solved().unwrap()];
    if rtime > 0.002 {
        c.class("timed");
        let fm: HashMap<&str, f64> = formulas(&board, rtime, ks).into_iter().collect();
        for i in 3..T.len() {
            ensure!(close(fl(i), fm[T[i]]), &format!("py:{}", T[i]), "{} is {} instead of {} in {}", T[i], fl(i), fm[T[i]], ctx);
        }
    }
    let by = |i: usize| -> Vec<u8> { serde_json::from_value(res[i].clone()).unwrap_or_default() };
    let (st, en) = (by(at + T.len()), by(at + T.len() + 1));
    let times: Vec<f64> = (0..n).map(|i| fl(T.len() + 2 + i)).collect();
    let raw = by(at + T.len() + 2 + n + 1);
    let (w, r) = parse(Fmt::Evf, &raw)?;
    ensure!(r.is_ok(), "py:raw_data", "generated data does not parse: {:?} in {}", r, ctx);
    ensure_eq!((w.is_offical, w.is_fair, w.mode), (h.flags.0, h.flags.1, h.mode), "py:raw_data", "header of {}", ctx);
    ensure_eq!([&w.software, &w.player_designator, &w.race_designator, &w.uniqueness_designator, &w.country, &w.device_uuid].map(|x| x.clone()), h.strings, "py:raw_data", "header strings of {}", ctx);
    ensure_eq!((&w.start_time, &w.end_time), (&st, &en), "py:raw_data", "time stamps of {}", ctx);
    ensure_eq!(w.board, board, "py:raw_data", "board of {}", ctx);
    ensure_eq!(w.video_action_state_recorder.len(), n, "py:raw_data", "events of {}", ctx);
    for i in 0..n {
        let (a, b) = (&w.video_action_state_recorder[i], &v.video_action_state_recorder[i]);
        ensure_eq!((&a.mouse, a.x, a.y), (&b.mouse, b.x, b.y), "py:raw_data", "event {} of {}", i, ctx);
        ensure!((a.time - times[i]).abs() < 1e-9, "py:events_time", "event {} at {} in the file and {} in the recorder of {}", i, a.time, times[i], ctx);
    }
    let raw2 = by(at + T.len() + 2 + n + 4);
    let saved = files.get("x.evf").cloned().flatten();
    ensure_eq!(saved, Some(raw2), "py:save_to_evf_file", "saved file of {} ({:?})", ctx, files.keys());
    Ok(())
}

// ---------- WebAssembly ----------
fn wasm_funcs(s: &mut Src, c: &mut Case) -> R {
    let (b, mut gb) = any_pos(s);
    if s.chance(1, 3) {
        gen::mark_some(s, &b, &mut gb, true, true);
    }
    let (rows, cols) = dims(&b);
    let m = if s.chance(1, 4) { s.us(0, rows * cols) } else { mine_count(&b) };
    c.input("board", &b);
    c.input("position", &gb);
    c.input("mines", &m);
    if !light(&gb) {
        return super::p_solve::skip();
    }
    let mut q = Batch::new(Kind::Wasm, format!("position {:?} of {:?} with {} mines", gb, b, m));
    q.func("cal_bbbv", json!([json!(b).to_string()]), want(|| ms::cal_bbbv(&b) as i32));
    q.func("cal_op", json!([json!(b).to_string()]), want(|| ms::cal_op(&b) as i32));
    // no more mines than cells can hold them: the wrapper reports an impossible position as empty
    match catch(|| poss_onboard(&gb, m as f64)) {
        Ok(Ok(r)) => q.func("cal_possibility_onboard", json!([json!(gb).to_string(), m]), X::P(json!(r))),
        Ok(Err(9)) => {}
        Ok(Err(_)) => q.func("cal_possibility_onboard", json!([json!(gb).to_string(), m]), X::P(json!([[], [0, 0, 0]]))),
        Err(_) => {}
    }
    for _ in 0..6 {
        let p = lay_params(s);
        let (rows, cols, m, x0, y0) = p;
        let which = s.us(0, 2);
        let p = if which < 2 { wide(s, p) } else { p };
        let (rows, cols, m, x0, y0) = p;
        c.input("call", &(which, p));
        let txt = |v: &Value| -> Result<Value, Fail> { v.as_str().and_then(|t| serde_json::from_str(t).ok()).map_or_else(|| fail("shape", "not JSON".into()), Ok) };
        match which {
            0 => q.func("laymine_number", json!([rows, cols, m, x0, y0]), X::F(Box::new(move |v| judge_lay(&txt(v)?, p, false)))),
            1 => q.func("laymine_op_number", json!([rows, cols, m, x0, y0]), X::F(Box::new(move |v| judge_lay(&txt(v)?, p, true)))),
            _ => {
                let budget = *s.pick(&[0, 1, 50]);
                q.func("laymine_solvable", json!([rows, cols, m, x0, y0, budget]), X::F(Box::new(move |v| judge_flagged(&txt(v)?, p, budget))))
            }
        }
    }
    q.run(c)?;
    Ok(())
}
fn wasm_board(s: &mut Src, c: &mut Case) -> R {
    let board = gen::board(s, 1, 9, 1, 9);
    let evs = moves(s, &board);
    c.input("board", &board);
    c.input("events", &evs);
    let mut q = Batch::new(Kind::Wasm, format!("on {:?}", board));
    let late = s.chance(1, 3);
    let first = if late { vec![vec![0; board[0].len()]; board.len()] } else { board.clone() };
    let mut core = lib("new", || ms::MinesweeperBoard::<B>::new(first.clone()))?;
    q.make("MinesweeperBoard", 0, json!([json!(first).to_string()]), X::V(Value::Null));
    if late {
        core.board = board.clone();
        q.set(0, "board", json!(json!(board).to_string()), X::V(Value::Null));
    }
    let mut i = 0;
    while i < evs.len() {
        if s.chance(1, 4) {
            let n = s.us(1, (evs.len() - i).min(6));
            let part: Vec<(&str, P)> = evs[i..i + n].iter().map(|(e, p)| (*e, *p)).collect();
            let arg = Value::Array(part.iter().map(|(e, p)| json!([e, p.0, p.1])).collect()).to_string();
            let r = catch(|| core.step_flow(part).is_ok());
            q.call(0, "step_flow", json!([arg]), if matches!(r, Ok(true)) { X::V(Value::Null) } else { X::E });
            i += n;
        } else {
            let (e, p) = evs[i];
            let r = catch(|| core.step(e, p).is_ok());
            q.call(0, "step", json!([e, p.0, p.1]), if matches!(r, Ok(true)) { X::V(Value::Null) } else { X::E });
            i += 1;
        }
        if s.chance(1, 4) {
            board_getters!(q, 0, core, true, core.board.clone());
        }
    }
    board_getters!(q, 0, core, true, core.board.clone());
    if s.chance(1, 4) {
        let g = gen::position(s, &board, true);
        core.game_board = g.clone();
        q.set(0, "game_board", json!(json!(g).to_string()), X::V(Value::Null));
        board_getters!(q, 0, core, true, core.board.clone());
    }
    q.run(c)?;
    Ok(())
}

// ---------- C ----------
fn c_calls(s: &mut Src, c: &mut Case) -> R {
    let cells = |b: &B| b.iter().flatten().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let which = s.us(0, 2);
    thread_local! { static FIRST: std::cell::Cell<bool> = std::cell::Cell::new(true); }
    let num = |t: &str| t.parse::<f64>().unwrap_or(f64::NAN);
    let line;
    match which {
        0 => {
            let b = if s.chance(1, 8) { video_board(s) } else { gen::board(s, 1, 12, 1, 12) };
            c.input("bbbv", &b);
            let (r, q) = dims(&b);
            line = format!("bbbv {} {} {}", r, q, cells(&b));
            let a = ask(Kind::C, &line)?;
            let a: Vec<&str> = a.split_whitespace().collect();
            ensure_eq!(a.len(), 3, "protocol", "answer {:?} to {}", a, line);
            ensure_eq!(num(a[0]) as usize, ms::cal_bbbv(&b), "c:bbbv", "3BV of {:?}", b);
            leaks(&a, &line)?;
            c.nontrivial(b.iter().flatten().any(|x| *x > 0));
            c.class("3BV");
        }
        1 => {
            let (rows, cols) = match s.weighted(&[14, 1, 1]) {
                0 => (s.us(1, 20), s.us(1, 20)),
                1 => (s.us(250, 300), s.us(1, 5)),
                _ => (s.us(1, 5), s.us(250, 300)),
            };
            let (x0, y0) = (s.us(0, rows - 1), s.us(0, cols - 1));
            let few = s.chance(1, 2);
            let m = s.us(0, (rows * cols - 1).min(if few { rows * cols / 4 } else { rows * cols }));
            c.input("laymine", &(rows, cols, m, x0, y0));
            c.key = mix(c.key ^ s.seed64());
            // the first use of the random source keeps an allocation for the thread's lifetime
            if FIRST.with(|f| f.replace(false)) {
                ask(Kind::C, "laymine 2 2 1 0 0")?;
            }
            line = format!("laymine {} {} {} {} {}", rows, cols, m, x0, y0);
            let a = match ask(Kind::C, &line) {
                Ok(a) => a,
                Err(e) => {
                    FIRST.with(|f| f.set(true));
                    return Err(e);
                }
            };
            let a: Vec<&str> = a.split_whitespace().collect();
            ensure!(a.len() == 1 + rows * (cols + 1) + 2, "c:laymine", "answer of {} words to {}", a.len(), line);
            ensure_eq!(num(a[0]) as usize, rows, "c:laymine", "rows of {}", line);
            let mut b: B = vec![];
            for i in 0..rows {
                let at = 1 + i * (cols + 1);
                ensure_eq!(num(a[at]) as usize, cols, "c:laymine", "columns of {}", line);
                b.push(a[at + 1..at + 1 + cols].iter().map(|t| num(t) as i32).collect());
            }
            check_layout(&b, rows, cols, m)?;
            ensure!(b[x0][y0] != -1, "c:laymine", "mine on the start of {}: {:?}", line, b);
            leaks(&a, &line)?;
            c.nontrivial(m > 0);
            c.class("layout");
        }
        _ => {
            let (b, mut gb) = any_pos(s);
            if s.chance(1, 3) {
                gen::mark_some(s, &b, &mut gb, true, true);
            }
            c.input("position", &gb);
            if !light(&gb) {
                return super::p_solve::skip();
            }
            let m = mine_count(&b);
            let Ok(Ok((p, t))) = catch(|| ms::cal_possibility_onboard(&gb, m as f64)) else { return super::p_solve::skip() };
            let (rows, cols) = dims(&gb);
            line = format!("poss {} {} {} {}", rows, cols, m, cells(&gb));
            let a = ask(Kind::C, &line)?;
            let a: Vec<&str> = a.split_whitespace().collect();
            ensure!(a.len() == 4 + rows * (cols + 1) + 2, "c:poss", "answer of {} words to {}", a.len(), line);
            ensure_eq!([num(a[0]) as usize, num(a[1]) as usize, num(a[2]) as usize, num(a[3]) as usize], [t[0], t[1], t[2], rows], "c:poss", "mine counts and rows of {}", line);
            for i in 0..rows {
                let at = 4 + i * (cols + 1);
                ensure_eq!(num(a[at]) as usize, cols, "c:poss", "columns of {}", line);
                for j in 0..cols {
                    let g = num(a[at + 1 + j]);
                    ensure!(close9(g, p[i][j]), "c:poss", "cell {:?} is {} instead of {} in {}", (i, j), g, p[i][j], line);
                }
            }
            leaks(&a, &line)?;
            c.nontrivial(gb.iter().flatten().any(|x| *x < 9));
            c.class("probabilities");
        }
    }
    Ok(())
}
fn leaks(a: &[&str], line: &str) -> R {
    let n = a.len();
    ensure_eq!(a[n - 2], "0", "c:layout", "releases with another layout than the allocation's in {}", line);
    ensure_eq!(a[n - 1], "0", "c:leak", "allocations left behind by {}", line);
    Ok(())
}
