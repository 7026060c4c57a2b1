mod core;
mod refm;
mod gen;
mod game;
mod props;
mod venc;
use crate::core::*;
use std::process::{exit, Command};

fn env() -> Env {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    Env { seed, thorough, verif, scale }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

/// Bounds the address space, so that a case which allocates without end aborts this process (and is found by its
/// slot) before the machine runs out of memory. The checks that run a JavaScript engine reserve far more than they use.
fn limit_memory(id: &str, gb: u64) {
    if !["C02", "C25", "C28"].contains(&id) {
        const RLIMIT_AS: i32 = 9;
        let lim = [gb << 30, gb << 30];
        unsafe { setrlimit(RLIMIT_AS, &lim) };
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let env = env();
    let find = |id: &str| props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        exit(2)
    });
    match args.get(1).map(|s| s.as_str()) {
        // check <ID> [sub]: run in a child so that an abort or a stack overflow is attributed to a case
        Some("check") => {
            let p = find(&args[2]);
            let slots = format!("{}/target/slots-{}-{}", env.verif, p.id, std::process::id());
            let mut c = Command::new(std::env::current_exe().unwrap());
            c.arg("worker").args(&args[2..]).env("VERIF_SLOTS", &slots);
            let st = c.status().unwrap();
            let cases = read_slots(&slots);
            let _ = std::fs::remove_file(&slots);
            if let Some(code) = st.code() {
                exit(if code == 0 || code == 1 { code } else { 2 });
            }
            use std::os::unix::process::ExitStatusExt;
            eprintln!("worker killed by signal {:?}; candidates {:?}", st.signal(), cases);
            if st.signal() == Some(9) {
                exit(2);
            }
            for (si, i) in cases {
                let sub = &p.subs[si];
                let out = Command::new(std::env::current_exe().unwrap()).args(["one", p.id, sub.name, &i.to_string()]).output().unwrap();
                if out.status.code().is_none() && out.status.signal() != Some(9) {
                    let err = String::from_utf8_lossy(&out.stderr).to_string();
                    let e = Fail { sig: "crash:signal".into(), msg: format!("the process was killed by signal {:?}: {}", out.status.signal(), err) };
                    // the tape is re-derived from the seed; record it as such
                    let seed = case_seed(env.seed, p.id, sub.name, i);
                    let path = write_replay(&env, p.id, sub.name, &vec![u64::MAX, seed], &e, "(tape omitted: case crashes the process; regenerated from its seed)");
                    println!("{}", e.msg);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    exit(1);
                }
            }
            exit(2);
        }
        Some("worker") => {
            let p = find(&args[2]);
            limit_memory(p.id, 16);
            if let Ok(s) = std::env::var("VERIF_SLOTS") {
                let _ = SLOTS.set(Slots::open(&s));
            }
            getrandom::set_global_seed(mix(env.seed));
            let code = run_prop(&p, &env, args.get(3).map(|s| s.as_str()));
            props::p_video::scratch_cleanup();
            if std::env::var("VERIF_MEM").is_ok() {
                let st = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
                eprintln!("{} {}", p.id, st.lines().filter(|l| l.starts_with("VmPeak") || l.starts_with("VmHWM")).collect::<Vec<_>>().join(" "));
            }
            quit(code);
        }
        Some("one") => {
            let p = find(&args[2]);
            limit_memory(p.id, 8);
            let sub = p.subs.iter().find(|s| s.name == args[3]).unwrap();
            let i: usize = args[4].parse().unwrap();
            let mut src = Src::random(case_seed(env.seed, p.id, sub.name, i));
            let mut c = Case::default();
            let f = sub.f;
            let r = std::thread::Builder::new().stack_size(32 << 20).spawn(move || { let r = run_case(f, &mut src, &mut c); (r, c.desc) }).unwrap().join().unwrap();
            println!("{:?}", r);
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let sub = p.subs.iter().find(|s| s.name == v["sub"].as_str().unwrap()).unwrap();
            let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let mut src = if tape.len() == 2 && tape[0] == u64::MAX { Src::random(tape[1]) } else { Src::replay(tape) };
            let f = sub.f;
            let (id, file) = (p.id, args[2].clone());
            std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_millis(HANG_MS));
                println!("the case does not end");
                println!("VIOLATION property={} replay={}", id, file);
                quit(1);
            });
            let (r, d) = std::thread::Builder::new().stack_size(32 << 20).spawn(move || { let mut c = Case::default(); let r = run_case(f, &mut src, &mut c); (r, c.desc) }).unwrap().join().unwrap();
            println!("input: {}", d);
            match r {
                Ok(()) => println!("the property holds on this case"),
                Err(e) => {
                    println!("failure [{}]: {}", e.sig, e.msg);
                    println!("VIOLATION property={} replay={}", p.id, args[2]);
                    exit(1);
                }
            }
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
        }
        _ => {
            eprintln!("usage: vharness check|replay|one|list ...");
            exit(2);
        }
    }
}
