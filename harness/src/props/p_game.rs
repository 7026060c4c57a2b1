//! C12, C13: the live game.
use crate::core::*;
use crate::game::*;
use crate::refm::*;
use crate::{ensure, ensure_eq, gen};
use ms_toollib as ms;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", rule: "Games on random boards (1..9 x 1..9, all densities): a simulated player opens, marks, takes marks back, chords (also with wrong marks, held buttons, releases elsewhere or outside the board, middle button) before and during play, with legal events under all their names; a second generator mixes in arbitrary illegal events, a third plays on boards up to 255x255 on a thread with the default stack. Non-trivial: the game started, at least two cells were opened by play and at least one mark or chord happened.",
            assumptions: &["positions outside the board are given as (rows, columns), as the user interfaces do", "presses outside the board occur during play only"],
            subs: vec![
                Sub { name: "rules", f: c12_rules, quick: 600000, thorough: 12000000, serial: false },
                Sub { name: "large", f: c12_large, quick: 500, thorough: 15000, serial: false },
                Sub { name: "illegal", f: c12_illegal, quick: 300000, thorough: 6000000, serial: false },
                Sub { name: "variants", f: c12_variants, quick: 300000, thorough: 6000000, serial: false },
            ] },
        Prop { id: "C13", rule: "The same games; after every event the invariants are evaluated from the visible board and the true board alone; games played to the end and then continued; games abandoned anywhere, reset and played again. Non-trivial: as for C12.",
            assumptions: &["positions outside the board are given as (rows, columns)"],
            subs: vec![
                Sub { name: "invariants", f: c13_inv, quick: 600000, thorough: 12000000, serial: false },
                Sub { name: "reset", f: c13_reset, quick: 200000, thorough: 4000000, serial: false },
            ] },
    ]
}

pub fn game_board(s: &mut Src) -> B {
    match s.weighted(&[10, 2, 1]) {
        0 => gen::board(s, 1, 8, 1, 9),
        1 => {
            // sparse, with large openings
            let (rows, cols) = (s.us(3, 9), s.us(3, 9));
            let k = s.us(1, (rows * cols / 8).max(1));
            gen::board_mines(s, rows, cols, k)
        }
        _ => gen::board(s, 1, 2, 1, 12),
    }
}
pub fn st_of(x: ms::GameBoardState) -> Option<St> {
    Some(match x {
        ms::GameBoardState::Ready => St::Ready,
        ms::GameBoardState::PreFlaging => St::Pre,
        ms::GameBoardState::Playing => St::Playing,
        ms::GameBoardState::Win => St::Win,
        ms::GameBoardState::Loss => St::Loss,
        _ => return None,
    })
}
pub fn ms_of(x: ms::MouseState) -> Option<Ms> {
    Some(match x {
        ms::MouseState::UpUp => Ms::UpUp,
        ms::MouseState::UpDown => Ms::UpDown,
        ms::MouseState::UpDownNotFlag => Ms::UpDownNotFlag,
        ms::MouseState::DownUp => Ms::DownUp,
        ms::MouseState::Chording => Ms::Chording,
        ms::MouseState::ChordingNotFlag => Ms::ChordingNotFlag,
        ms::MouseState::DownUpAfterChording => Ms::DownUpAfterChording,
        _ => return None,
    })
}
type Snap = (B, Option<St>, Option<Ms>, [usize; 6]);
macro_rules! snap {
    ($m:expr) => {
        (
            $m.game_board.clone(),
            st_of($m.game_board_state),
            ms_of($m.mouse_state),
            [$m.left, $m.right, $m.double, $m.ce, $m.flag, $m.bbbv_solved],
        )
    };
}
fn model(g: &Game) -> Snap {
    (g.gb.clone(), Some(g.st), Some(g.mouse()), [g.left, g.right, g.double, g.ce, g.flags(), g.solved()])
}
fn classify(c: &mut Case, g: &Game, marks: usize, chords: usize, opens: usize) {
    c.nontrivial(g.st != St::Ready && g.st != St::Pre && opens >= 2 && marks + chords >= 1);
    c.class_if(g.st == St::Win, "won");
    c.class_if(g.st == St::Loss, "lost");
    c.class_if(g.st == St::Playing, "unfinished");
    c.class_if(chords > 0, "chord opened cells");
    c.class_if(g.flags() > 0, "marks at the end");
}
const NAMES: [&str; 6] = ["left", "right", "double", "effective", "flags", "solved 3BV"];
fn compare(got: &Snap, exp: &Snap, ctx: &str) -> R {
    ensure_eq!(got.1, exp.1, "game:state", "game state {}", ctx);
    ensure_eq!(got.0, exp.0, "game:board", "visible board {}", ctx);
    ensure_eq!(got.2, exp.2, "game:mouse", "mouse state {}", ctx);
    for i in 0..6 {
        ensure_eq!(got.3[i], exp.3[i], &format!("game:{}", NAMES[i]), "{} {}", NAMES[i], ctx);
    }
    Ok(())
}
fn run_rules(c: &mut Case, board: &B, evs: &[Ev]) -> R {
    let mut g = Game::new(board);
    let mut m = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let (mut marks, mut chords, mut opens) = (0, 0, 0);
    compare(&snap!(m), &model(&g), "of a new game")?;
    for (i, (e, p)) in evs.iter().enumerate() {
        let over = g.over();
        let pre = g.st == St::Pre || g.st == St::Ready;
        let eff = g.event(e, *p);
        let ctx = format!("after event {} = {:?} of {:?} on {:?}", i, (e, p), &evs[..=i], board);
        let r = lib("step", || m.step(e, *p))?;
        compare(&snap!(m), &model(&g), &ctx)?;
        match eff {
            Eff::Flag => marks += 1,
            Eff::Chord => chords += 1,
            Eff::Open => opens += 1,
            _ => {}
        }
        if eff == Eff::Chord {
            opens += 1;
        }
        if eff != Eff::Illegal {
            ensure!(r.is_ok(), "game:refused", "a legal event is refused {}", ctx);
        } else if pre && !over && r.is_ok() {
            // tolerated: nothing changed
        }
        let want = match eff {
            Eff::None | Eff::Hit => Some(0),
            Eff::Flag => Some(1),
            Eff::Open => Some(2),
            Eff::Chord => Some(3),
            _ => None,
        };
        if let (Some(w), Ok(x)) = (want, r) {
            ensure_eq!(x, w, "game:code", "value returned {}", ctx);
        }
    }
    classify(c, &g, marks, chords, opens);
    Ok(())
}
/// Boards up to 255 x 255.
fn c12_large(s: &mut Src, c: &mut Case) -> R {
    let board = gen::large(s);
    let o = Opts { aliases: s.chance(1, 2), illegal: false, outside: s.chance(1, 3), middle: s.chance(1, 3), moves: s.chance(1, 3), max: s.us(4, 16) };
    let evs = history(s, &board, o);
    c.input("board", &(dims(&board), board.iter().flatten().enumerate().filter(|x| *x.1 == -1).map(|x| x.0).collect::<Vec<_>>()));
    c.input("events", &evs);
    let mut g = Game::new(&board);
    let mut m = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let (mut marks, mut chords, mut opens) = (0, 0, 0);
    for (i, (e, p)) in evs.iter().enumerate() {
        let eff = g.event(e, *p);
        let ctx = format!("after event {} of {:?}", i, evs);
        lib("step", || default_stack(|| m.step(e, *p).map_err(|_| "refused")))?.or_else(|x| if eff == Eff::Illegal { Ok(0) } else { fail("game:refused", format!("{} {}", x, ctx)) })?;
        let (got, want) = (snap!(m), model(&g));
        ensure!(got.0 == want.0, "game:board", "visible board {}", ctx);
        ensure_eq!((got.1, got.2, got.3), (want.1, want.2, want.3), "game:large", "states and counters {}", ctx);
        match eff {
            Eff::Flag => marks += 1,
            Eff::Chord => {
                chords += 1;
                opens += 1
            }
            Eff::Open => opens += 1,
            _ => {}
        }
    }
    classify(c, &g, marks, chords, opens);
    Ok(())
}
fn c12_rules(s: &mut Src, c: &mut Case) -> R {
    let board = game_board(s);
    let o = Opts { aliases: s.chance(1, 2), illegal: false, outside: s.chance(1, 3), middle: s.chance(1, 3), moves: s.chance(1, 3), max: s.us(5, 40) };
    let evs = history(s, &board, o);
    let evs = scatter(s, &board, evs);
    c.input("board", &board);
    c.input("events", &evs);
    run_rules(c, &board, &evs)
}
fn c12_illegal(s: &mut Src, c: &mut Case) -> R {
    let board = game_board(s);
    let o = Opts { aliases: true, illegal: true, outside: true, middle: true, moves: true, max: s.us(5, 30) };
    let evs = history(s, &board, o);
    let evs = scatter(s, &board, evs);
    c.input("board", &board);
    c.input("events", &evs);
    // a middle release without a press is outside the rules of either button
    let mut mid = false;
    let mut g = Game::new(&board);
    let mut keep = vec![];
    for (e, p) in evs {
        if e == "mr" && !mid {
            continue;
        }
        let playing = g.st == St::Playing;
        let mut h = g.clone();
        h.event(e, p);
        if playing {
            match e {
                "mc" => mid = true,
                "mr" => mid = false,
                "m" => mid = !mid,
                _ => {}
            }
        }
        g = h;
        keep.push((e, p));
    }
    run_rules(c, &board, &keep)
}
fn c12_variants(s: &mut Src, c: &mut Case) -> R {
    let board = game_board(s);
    let o = Opts { aliases: true, illegal: false, outside: s.chance(1, 3), middle: true, moves: true, max: s.us(5, 40) };
    let evs = history(s, &board, o);
    let evs = scatter(s, &board, evs);
    c.input("board", &board);
    c.input("events", &evs);
    let mut g = Game::new(&board);
    let (mut marks, mut chords, mut opens) = (0, 0, 0);
    for (e, p) in &evs {
        match g.event(e, *p) {
            Eff::Flag => marks += 1,
            Eff::Chord => {
                chords += 1;
                opens += 1
            }
            Eff::Open => opens += 1,
            _ => {}
        }
    }
    classify(c, &g, marks, chords, opens);
    let exp = model(&g);
    // one batch
    let mut m = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let r = lib("step_flow", || m.step_flow(evs.clone()))?;
    ensure!(r.is_ok(), "variants:refused", "a legal batch is refused");
    compare(&snap!(m), &exp, "after the batch")?;
    // batches cut anywhere
    let cut = s.us(0, evs.len());
    let mut m = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let r = lib("step_flow", || m.step_flow(evs[..cut].to_vec()).and_then(|_| m.step_flow(evs[cut..].to_vec())))?;
    ensure!(r.is_ok(), "variants:refused", "a legal batch is refused");
    compare(&snap!(m), &exp, "after two batches")?;
    // guarded board
    let mut m = ms::MinesweeperBoard::<ms::SafeBoard>::new(ms::SafeBoard::new(board.clone()));
    for (e, p) in &evs {
        let r = lib("step on SafeBoard", || m.step(e, *p))?;
        ensure!(r.is_ok(), "variants:refused", "a legal event is refused on the guarded board");
    }
    compare(&snap!(m), &exp, "on the guarded board")?;
    let mut m = ms::MinesweeperBoard::<ms::SafeBoard>::new(ms::SafeBoard::new(board.clone()));
    let r = lib("step_flow on SafeBoard", || m.step_flow(evs.clone()))?;
    ensure!(r.is_ok(), "variants:refused", "a legal batch is refused on the guarded board");
    compare(&snap!(m), &exp, "after the batch on the guarded board")
}
fn c13_inv(s: &mut Src, c: &mut Case) -> R {
    let board = game_board(s);
    let o = Opts { aliases: true, illegal: s.chance(1, 3), outside: s.chance(1, 3), middle: true, moves: false, max: s.us(10, 60) };
    let evs = history(s, &board, o);
    let evs = scatter(s, &board, evs);
    c.input("board", &board);
    c.input("events", &evs);
    let (rows, cols) = dims(&board);
    let total = stats(&board).bbbv;
    let mut m = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    let mut last = snap!(m);
    let (mut marks, mut chords, mut opens) = (0usize, 0, 0);
    let mut g = Game::new(&board);
    for (i, (e, p)) in evs.iter().enumerate() {
        match g.event(e, *p) {
            Eff::Flag => marks += 1,
            Eff::Chord => {
                chords += 1;
                opens += 1
            }
            Eff::Open => opens += 1,
            _ => {}
        }
        let ctx = format!("after event {} = {:?} of {:?} on {:?}", i, (e, p), &evs[..=i], board);
        let _ = lib("step", || m.step(e, *p))?;
        let now: Snap = snap!(m);
        let mut hit = false;
        let mut all_safe_open = true;
        for r in 0..rows {
            for k in 0..cols {
                let x = now.0[r][k];
                match x {
                    0..=8 => ensure_eq!(x, board[r][k], "inv:number", "cell {:?} {}", (r, k), ctx),
                    10 | 11 => {}
                    14 => ensure!(board[r][k] != -1 && last.0[r][k] != 10 || last.0[r][k] == 14, "inv:wrong_mark", "wrong-mark sign on {:?} {}", (r, k), ctx),
                    15 => {
                        ensure_eq!(board[r][k], -1, "inv:hit", "hit sign on {:?} {}", (r, k), ctx);
                        hit = true;
                    }
                    _ => return fail("inv:code", format!("cell {:?} shows {} {}", (r, k), x, ctx)),
                }
                if board[r][k] != -1 && x != board[r][k] {
                    all_safe_open = false;
                }
                if (0..=8).contains(&last.0[r][k]) {
                    ensure_eq!(x, last.0[r][k], "inv:closed_again", "cell {:?} {}", (r, k), ctx);
                }
            }
        }
        ensure_eq!(now.1 == Some(St::Loss), hit, "inv:loss", "lost although no mine is open, or the reverse, {}", ctx);
        ensure_eq!(now.1 == Some(St::Win), all_safe_open && !hit && opens > 0, "inv:win", "won before all safe cells are open, or the reverse, {}", ctx);
        if matches!(last.1, Some(St::Win) | Some(St::Loss)) {
            ensure_eq!(now, last, "inv:after_end", "a finished game changed {}", ctx);
        }
        ensure!(now.3[5] >= last.3[5], "inv:3bv_decreased", "solved 3BV fell from {} to {} {}", last.3[5], now.3[5], ctx);
        ensure!(now.3[5] <= total, "inv:3bv_exceeds", "solved 3BV {} of {} {}", now.3[5], total, ctx);
        if now.1 == Some(St::Win) {
            ensure_eq!(now.3[5], total, "inv:3bv_win", "solved 3BV at the win {}", ctx);
        }
        ensure!(now.3[3] <= now.3[0] + now.3[1] + now.3[2], "inv:ce_exceeds", "more effective clicks than clicks ({:?}) {}", now.3, ctx);
        ensure_eq!(now.3[4], now.0.iter().flatten().filter(|x| **x == 11 || **x == 14).count(), "inv:flags", "mark counter {}", ctx);
        last = now;
    }
    classify(c, &g, marks, chords, opens);
    Ok(())
}
fn c13_reset(s: &mut Src, c: &mut Case) -> R {
    let board = game_board(s);
    let o = Opts { aliases: true, illegal: s.chance(1, 3), outside: s.chance(1, 2), middle: true, moves: false, max: s.us(1, 30) };
    let evs = history(s, &board, o);
    let evs = scatter(s, &board, evs);
    let board2 = {
        let (rows, cols) = dims(&board);
        let k = s.us(0, rows * cols - 1);
        gen::board_mines(s, rows, cols, k)
    };
    let evs2 = history(s, &board2, o);
    let evs2 = scatter(s, &board2, evs2);
    c.input("board", &board);
    c.input("events", &evs);
    c.input("board2", &board2);
    c.input("events2", &evs2);
    let mut m = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    for (e, p) in &evs {
        let _ = lib("step", || m.step(e, *p))?;
    }
    lib("reset", || m.reset())?;
    // a reset game has no board yet
    let (rows, cols) = dims(&board);
    m.board = board2.clone();
    let mut f = ms::MinesweeperBoard::<Vec<Vec<i32>>>::new(board2.clone());
    ensure_eq!((m.row, m.column), (rows, cols), "reset:dims", "dimensions after reset");
    let (a, b): (Snap, Snap) = (snap!(m), snap!(f));
    compare(&a, &b, "after reset")?;
    for (i, (e, p)) in evs2.iter().enumerate() {
        let x = lib("step", || m.step(e, *p))?;
        let y = lib("step", || f.step(e, *p))?;
        let ctx = format!("after reset and event {} = {:?}", i, (e, p));
        ensure_eq!(x, y, "reset:result", "result {}", ctx);
        let (a, b): (Snap, Snap) = (snap!(m), snap!(f));
        compare(&a, &b, &ctx)?;
    }
    let mut g = Game::new(&board2);
    let (mut marks, mut chords, mut opens) = (0, 0, 0);
    for (e, p) in &evs2 {
        match g.event(e, *p) {
            Eff::Flag => marks += 1,
            Eff::Chord => {
                chords += 1;
                opens += 1
            }
            Eff::Open => opens += 1,
            _ => {}
        }
    }
    classify(c, &g, marks, chords, opens);
    Ok(())
}
