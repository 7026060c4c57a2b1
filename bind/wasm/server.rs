// Serves calls into the WebAssembly wrapper, compiled for this machine, one JSON batch per line. A child module of
// `board`, so that it sees the wrapper's classes.
use super::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
trait J {
    fn j(self) -> Value;
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl J for $t { fn j(self) -> Value { json!(self) } })* };
}
plain!(bool, u8, u16, u32, u64, usize, i32, i64, String, Vec<u8>);
impl J for f64 {
    fn j(self) -> Value {
        json!({ "f": format!("{:016x}", self.to_bits()) })
    }
}
impl J for CursorPos {
    fn j(self) -> Value {
        json!([self.0, self.1])
    }
}
impl J for () {
    fn j(self) -> Value {
        Value::Null
    }
}
enum Obj {
    Board(MinesweeperBoard),
    Avf(AvfVideo),
    Evf(EvfVideo),
    Mvf(MvfVideo),
    Rmv(RmvVideo),
}
fn s(v: &Value) -> &str {
    v.as_str().expect("protocol: string")
}
fn n(v: &Value) -> u64 {
    v.as_u64().expect("protocol: number")
}
fn i(v: &Value) -> i32 {
    v.as_i64().expect("protocol: number") as i32
}
fn f(v: &Value) -> f64 {
    f64::from_bits(u64::from_str_radix(v["f"].as_str().expect("protocol: float"), 16).unwrap())
}
fn bytes(v: &Value) -> Box<[u8]> {
    v.as_array().unwrap().iter().map(|x| n(x) as u8).collect::<Vec<u8>>().into_boxed_slice()
}
macro_rules! video {
    ($v:expr, $op:expr, $name:expr, $a:expr) => {{
        let v = $v;
        let a = $a;
        match ($op, $name) {
            ("call", "parse_video") => v.parse_video().j(),
            ("call", "analyse") => v.analyse().j(),
            ("call", "is_valid") => v.is_valid().j(),
            ("set", "current_event_id") => v.set_current_event_id(n(&a[0]) as usize).j(),
            ("set", "current_time") => v.set_current_time(f(&a[0])).j(),
            ("get", "game_board") => v.get_game_board().j(),
            ("get", "game_board_poss") => v.get_game_board_poss().j(),
            ("get", "x_y") => v.get_x_y().j(),
            ("call", "events_time") => v.events_time(n(&a[0]) as usize).j(),
            ("call", "events_mouse") => v.events_mouse(n(&a[0]) as usize).j(),
            ("call", "events_x") => v.events_x(n(&a[0]) as usize).j(),
            ("call", "events_y") => v.events_y(n(&a[0]) as usize).j(),
            ("call", "events_useful_level") => v.events_useful_level(n(&a[0]) as usize).j(),
            ("call", "events_mouse_state") => v.events_mouse_state(n(&a[0]) as usize).j(),
            ("get", "raw_data") => v.get_raw_data().j(),
            ("get", "software") => v.get_software().j(),
            ("get", "row") => v.get_row().j(),
            ("get", "column") => v.get_column().j(),
            ("get", "level") => v.get_level().j(),
            ("get", "mode") => v.get_mode().j(),
            ("get", "is_completed") => v.get_is_completed().j(),
            ("get", "is_offical") => v.get_is_offical().j(),
            ("get", "is_fair") => v.get_is_fair().j(),
            ("get", "mine_num") => v.get_mine_num().j(),
            ("get", "player_designator") => v.get_player_designator().j(),
            ("get", "race_designator") => v.get_race_designator().j(),
            ("get", "uniqueness_designator") => v.get_uniqueness_designator().j(),
            ("get", "country") => v.get_country().j(),
            ("get", "device_uuid") => v.get_device_uuid().j(),
            ("get", "bbbv") => v.get_bbbv().j(),
            ("get", "start_time") => v.get_start_time().j(),
            ("get", "end_time") => v.get_end_time().j(),
            ("get", "op") => v.get_op().j(),
            ("get", "isl") => v.get_isl().j(),
            ("get", "hizi") => v.get_hizi().j(),
            ("get", "cell0") => v.get_cell0().j(),
            ("get", "cell1") => v.get_cell1().j(),
            ("get", "cell2") => v.get_cell2().j(),
            ("get", "cell3") => v.get_cell3().j(),
            ("get", "cell4") => v.get_cell4().j(),
            ("get", "cell5") => v.get_cell5().j(),
            ("get", "cell6") => v.get_cell6().j(),
            ("get", "cell7") => v.get_cell7().j(),
            ("get", "cell8") => v.get_cell8().j(),
            ("get", "rtime") => v.get_rtime().j(),
            ("get", "rtime_ms") => v.get_rtime_ms().j(),
            ("get", "etime") => v.get_etime().j(),
            ("get", "video_start_time") => v.get_video_start_time().j(),
            ("get", "video_end_time") => v.get_video_end_time().j(),
            ("get", "bbbv_s") => v.get_bbbv_s().j(),
            ("get", "stnb") => v.get_stnb().j(),
            ("get", "rqp") => v.get_rqp().j(),
            ("get", "left") => v.get_left().j(),
            ("get", "right") => v.get_right().j(),
            ("get", "double") => v.get_double().j(),
            ("get", "cl") => v.get_cl().j(),
            ("get", "flag") => v.get_flag().j(),
            ("get", "bbbv_solved") => v.get_bbbv_solved().j(),
            ("get", "ce") => v.get_ce().j(),
            ("get", "left_s") => v.get_left_s().j(),
            ("get", "right_s") => v.get_right_s().j(),
            ("get", "double_s") => v.get_double_s().j(),
            ("get", "cl_s") => v.get_cl_s().j(),
            ("get", "flag_s") => v.get_flag_s().j(),
            ("get", "path") => v.get_path().j(),
            ("get", "ce_s") => v.get_ce_s().j(),
            ("get", "ioe") => v.get_ioe().j(),
            ("get", "thrp") => v.get_thrp().j(),
            ("get", "corr") => v.get_corr().j(),
            ("get", "events_len") => v.get_events_len().j(),
            ("get", "current_event_id") => v.get_current_event_id().j(),
            ("get", "mouse_state") => v.get_mouse_state().j(),
            ("get", "game_board_state") => v.get_game_board_state().j(),
            ("get", "checksum") => v.get_checksum().j(),
            ("get", "pix_size") => v.get_pix_size().j(),
            (o, x) => panic!("protocol: {} {}", o, x),
        }
    }};
}
fn board(v: &mut MinesweeperBoard, op: &str, name: &str, a: &[Value]) -> Value {
    match (op, name) {
        ("call", "step") => v.step(s(&a[0]), n(&a[1]) as u32, n(&a[2]) as u32).j(),
        ("call", "step_flow") => v.step_flow(s(&a[0])).j(),
        ("set", "board") => v.set_board(s(&a[0])).j(),
        ("set", "game_board") => v.set_game_board(s(&a[0])).j(),
        ("get", "board") => v.get_board().j(),
        ("get", "game_board") => v.get_game_board().j(),
        ("get", "left") => v.get_left().j(),
        ("get", "right") => v.get_right().j(),
        ("get", "double") => v.get_double().j(),
        ("get", "ce") => v.get_ce().j(),
        ("get", "flag") => v.get_flag().j(),
        ("get", "bbbv_solved") => v.get_bbbv_solved().j(),
        ("get", "row") => v.get_row().j(),
        ("get", "column") => v.get_column().j(),
        ("get", "game_board_state") => v.get_game_board_state().j(),
        ("get", "mouse_state") => v.get_mouse_state().j(),
        (o, x) => panic!("protocol: {} {}", o, x),
    }
}
fn one(objs: &mut HashMap<u64, Obj>, r: &[Value]) -> Value {
    match s(&r[0]) {
        "fn" => {
            let a = r[2].as_array().unwrap();
            match s(&r[1]) {
                "cal_bbbv" => crate::cal_bbbv(s(&a[0])).j(),
                "cal_op" => crate::cal_op(s(&a[0])).j(),
                "cal_possibility_onboard" => crate::cal_possibility_onboard(s(&a[0]), i(&a[1])).j(),
                "laymine_number" => crate::laymine_number(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4])).j(),
                "laymine_op_number" => crate::laymine_op_number(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4])).j(),
                "layouts" => {
                    let p: Vec<i32> = a.iter().map(i).collect();
                    let g = if p[0] == 1 { crate::laymine_op_number } else { crate::laymine_number };
                    let one = || {
                        let b: Vec<Vec<i32>> = serde_json::from_str(&g(p[1], p[2], p[3], p[4], p[5])).unwrap();
                        b.iter().flatten().map(|x| if *x == -1 { '1' } else { '0' }).collect::<String>()
                    };
                    json!((0..p[6]).map(|_| one()).collect::<Vec<_>>())
                }
                "laymine_solvable" => crate::laymine_solvable(i(&a[0]), i(&a[1]), i(&a[2]), i(&a[3]), i(&a[4]), i(&a[5])).j(),
                x => panic!("protocol: {}", x),
            }
        }
        "new" => {
            let a = r[3].as_array().unwrap();
            let o = match s(&r[1]) {
                "MinesweeperBoard" => Obj::Board(MinesweeperBoard::new(s(&a[0]))),
                "AvfVideo" => Obj::Avf(AvfVideo::new(bytes(&a[0]), s(&a[1]))),
                "EvfVideo" => Obj::Evf(EvfVideo::new(bytes(&a[0]), s(&a[1]))),
                "MvfVideo" => Obj::Mvf(MvfVideo::new(bytes(&a[0]), s(&a[1]))),
                "RmvVideo" => Obj::Rmv(RmvVideo::new(bytes(&a[0]), s(&a[1]))),
                x => panic!("protocol: {}", x),
            };
            std::panic::set_hook(Box::new(|_| {}));
            objs.insert(n(&r[2]), o);
            Value::Null
        }
        op => {
            let empty = vec![];
            let a: Vec<Value> = match op {
                "call" => r[3].as_array().unwrap_or(&empty).clone(),
                "set" => vec![r[3].clone()],
                _ => vec![],
            };
            let name = s(&r[2]);
            match objs.get_mut(&n(&r[1])).expect("protocol: object") {
                Obj::Board(v) => board(v, op, name, &a),
                Obj::Avf(v) => video!(v, op, name, &a),
                Obj::Evf(v) => video!(v, op, name, &a),
                Obj::Mvf(v) => video!(v, op, name, &a),
                Obj::Rmv(v) => video!(v, op, name, &a),
            }
        }
    }
}
pub fn serve() {
    let input = std::io::stdin();
    for line in input.lock().lines() {
        let line = line.unwrap();
        let batch: Vec<Vec<Value>> = serde_json::from_str(&line).unwrap();
        let mut objs = HashMap::new();
        let mut res = vec![];
        for r in &batch {
            res.push(match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&mut objs, r))) {
                Ok(v) => json!([0, v]),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                    json!([1, m])
                }
            });
        }
        let mut out = std::io::stdout().lock();
        writeln!(out, "{}", serde_json::to_string(&res).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
