//! Generation, execution, shrinking, replay and evidence. Every random choice of a case is drawn from a tape of
//! integers (`Src`), so one generic shrinker works for every property and a replay file is just the tape.
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write as _;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

/// Source of choices: replays a tape, then (if it has a generator) extends it with random values.
pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: vec![], pos: 0, rng: Some(seed) }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, rng: None }
    }
    /// Uniform in `0..n`; shrinks towards 0.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos] % n;
            self.tape[self.pos] = v;
            v
        } else {
            let v = match &mut self.rng {
                Some(s) => {
                    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                    ((mix(*s) as u128 * n as u128) >> 64) as u64
                }
                None => 0,
            };
            self.tape.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo) as u64 + 1) as i64
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    /// Weighted choice of an index.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut r = self.below(tot);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn seed64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable identity of the failure; what a known-findings entry names.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return $crate::core::fail($sig, format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr, $($arg:tt)*) => {
        { let a = &$a; let b = &$b;
          if a != b { return $crate::core::fail($sig, format!("{}\n  observed: {:?}\n  expected: {:?}", format!($($arg)*), a, b)); } }
    };
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub desc: String,
    pub key: u64,
    pub want_desc: bool,
}
impl Case {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// Describe the generated input (also gives the identity of the case for counting distinct ones).
    pub fn input<T: std::fmt::Debug>(&mut self, name: &str, v: &T) {
        use std::fmt::Write;
        let start = self.desc.len();
        let _ = write!(self.desc, "{}={:?}; ", name, v);
        self.key = mix(self.key ^ hash_str(&self.desc[start..]));
    }
}

pub type CaseFn = fn(&mut Src, &mut Case) -> R;
pub struct Sub {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: usize,
    pub thorough: usize,
    /// run cases one after another (they use several threads or much memory themselves)
    pub serial: bool,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
/// Run a closure; a panic becomes Err(description).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|l| l.borrow().clone())),
    }
}
/// Run library code; a panic in it is a failure of the property with the given signature.
pub fn lib<T>(sig: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch(f) {
        Ok(v) => Ok(v),
        Err(p) => fail(&format!("panic:{}", sig), format!("{}: panicked: {}", sig, p)),
    }
}
/// Run a closure on a fresh thread whose random stream (rand::thread_rng) starts from `seed`.
pub fn with_rng<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                getrandom::set_thread_seed(seed);
                catch(f)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(v) => v,
        Err(p) => panic!("{}", p),
    }
}

/// Run a closure on a thread with the stack that Rust gives a thread by default, so that deep recursion shows.
pub fn default_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || catch(f)).unwrap().join().unwrap());
    match r {
        Ok(v) => v,
        Err(p) => panic!("{}", p),
    }
}
/// As `with_rng`, but gives up (None) after a time limit; the thread is left behind. After a dozen such losses
/// every further call gives up at once.
pub fn with_rng_limit<T: Send + 'static>(seed: u64, limit: Duration, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    static LOST: AtomicUsize = AtomicUsize::new(0);
    if LOST.load(Ordering::Relaxed) >= 12 {
        return None;
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            getrandom::set_thread_seed(seed);
            let _ = tx.send(catch(f));
        })
        .unwrap();
    match rx.recv_timeout(limit) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(p)) => panic!("{}", p),
        Err(_) => {
            LOST.fetch_add(1, Ordering::Relaxed);
            None
        }
    }
}

/// Ends the process without running destructors: library threads given up on may still be running.
pub fn quit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe { _exit(code) }
}

pub fn run_case(f: CaseFn, src: &mut Src, case: &mut Case) -> R {
    match catch(|| f(src, case)) {
        Ok(r) => r,
        Err(p) => fail("panic:uncaught", format!("panicked: {}", p)),
    }
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
/// known_findings.txt: lines `finding: property=<id> sig=<signature> <what fails>` (and `fixed: ...`, ignored here).
pub fn load_known(verif: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif)) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("").trim_start_matches("property=").to_string();
                let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
                v.push(Known { property: p, sig, text: it.next().unwrap_or("").to_string() });
            }
        }
    }
    v
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub verif: String,
    pub scale: f64,
}

const THREADS: usize = 8;

/// Shrink a failing tape: remove chunks, then lower values. Keeps any failure that is not a known finding.
pub fn shrink(f: CaseFn, tape: Vec<u64>, fail0: Fail, known: &HashSet<String>, budget: Duration) -> (Vec<u64>, Fail, usize) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut bf = fail0;
    let runs_cell = std::cell::Cell::new(0usize);
    let try_tape = |cand: &Vec<u64>, best: &mut Vec<u64>, bf: &mut Fail| -> bool {
        if t0.elapsed() > budget || runs_cell.get() > 20000 {
            return false;
        }
        runs_cell.set(runs_cell.get() + 1);
        let mut s = Src::replay(cand.clone());
        let mut c = Case::default();
        if let Err(e) = run_case(f, &mut s, &mut c) {
            if !known.contains(&e.sig) && e.sig != "skip" {
                let used = s.used().min(s.tape.len());
                let mut t = s.tape;
                t.truncate(used);
                while t.last() == Some(&0) {
                    t.pop();
                }
                let better = t.len() < best.len() || (t.len() == best.len() && t < *best);
                if better {
                    *best = t;
                    *bf = e;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let mut improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..e);
                if try_tape(&cand, &mut best, &mut bf) {
                    improved = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..e] {
                        *x = 0;
                    }
                    if try_tape(&cand, &mut best, &mut bf) {
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let cur = best[i];
                let mid = lo + (cur - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if try_tape(&cand, &mut best, &mut bf) {
                    improved = true;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if !improved || t0.elapsed() > budget || runs_cell.get() > 20000 {
            break;
        }
    }
    (best, bf, runs_cell.get())
}

pub const HANG_MS: u64 = 120_000;

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: usize) -> u64 {
    mix(seed ^ mix(hash_str(prop) ^ mix(hash_str(sub) ^ mix(i as u64))))
}

#[derive(Default)]
struct Tally {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    skipped: u64,
}

/// Runs all subs of a property in this process. `slots` receives the case each thread is working on.
pub fn run_prop(p: &Prop, env: &Env, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let known = load_known(&env.verif);
    let known_sigs: HashSet<String> = known.iter().filter(|k| k.property == p.id).map(|k| k.sig.clone()).collect();
    let mut sub_reports = vec![];
    let mut total = Tally::default();
    let mut violation: Option<(String, Vec<u64>, Fail, String)> = None;
    for (si, sub) in p.subs.iter().enumerate() {
        if only.map_or(false, |o| o != sub.name) {
            continue;
        }
        let n = ((if env.thorough { sub.thorough } else { sub.quick }) as f64 * env.scale).ceil() as usize;
        let next = AtomicUsize::new(0);
        let first_fail = AtomicUsize::new(usize::MAX);
        let fails: Mutex<BTreeMap<usize, (Vec<u64>, Fail)>> = Mutex::new(BTreeMap::new());
        let tally = Mutex::new(Tally::default());
        let slowest = AtomicU64::new(0);
        let threads = if sub.serial { 1 } else { THREADS };
        let starts: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let done = AtomicBool::new(false);
        let st0 = Instant::now();
        std::thread::scope(|s| {
            // watchdog: a case that does not end is a violation
            s.spawn(|| {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = st0.elapsed().as_millis() as u64;
                    for (a, b) in starts.iter() {
                        let i = b.load(Ordering::Relaxed);
                        if i != u64::MAX && now.saturating_sub(a.load(Ordering::Relaxed)) > HANG_MS {
                            // a case takes milliseconds (searches have their own limit): this one does not end
                            let e = Fail { sig: "hang".into(), msg: format!("case {} of {} did not end within {} s", i, sub.name, HANG_MS / 1000) };
                            let tape = vec![u64::MAX, case_seed(env.seed, p.id, sub.name, i as usize)];
                            let path = write_replay(env, p.id, sub.name, &tape, &e, "(tape omitted: the case does not end; regenerated from its seed)");
                            write_evidence(p, env, &total, vec![json!({"sub": sub.name, "hung_case": i})], t0.elapsed().as_secs_f64(), 1);
                            println!("{}", e.msg);
                            println!("VIOLATION property={} replay={}", p.id, path);
                            quit(1);
                        }
                    }
                }
            });
            let hs: Vec<_> = (0..threads)
                .map(|ti| {
                    let (next, first_fail, fails, tally, starts, known_sigs, slowest) = (&next, &first_fail, &fails, &tally, &starts, &known_sigs, &slowest);
                    let slots = SLOTS.get();
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(s, move || {
                            let mut t = Tally::default();
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= n || i > first_fail.load(Ordering::Relaxed) {
                                    break;
                                }
                                starts[ti].0.store(st0.elapsed().as_millis() as u64, Ordering::Relaxed);
                                starts[ti].1.store(i as u64, Ordering::Relaxed);
                                if let Some(sl) = slots {
                                    sl.set(ti, si, i);
                                }
                                let mut src = Src::random(case_seed(env.seed, p.id, sub.name, i));
                                let mut case = Case::default();
                                let r = run_case(sub.f, &mut src, &mut case);
                                starts[ti].1.store(u64::MAX, Ordering::Relaxed);
                                slowest.fetch_max(st0.elapsed().as_millis() as u64 - starts[ti].0.load(Ordering::Relaxed), Ordering::Relaxed);
                                t.evals += 1;
                                if case.nontrivial {
                                    t.nontrivial += 1;
                                    let key = if case.key != 0 { case.key } else { src.tape.iter().fold(7, |a, b| mix(a ^ b)) };
                                    t.distinct.insert(key);
                                    let d: String = case.desc.chars().take(600).collect();
                                    if t.samples.len() < 2 && i < 64 {
                                        t.samples.push(json!({"sub": sub.name, "case": i, "input": d}));
                                    }
                                }
                                for c in &case.classes {
                                    *t.classes.entry(c.to_string()).or_default() += 1;
                                }
                                if let Err(e) = r {
                                    if e.sig == "skip" {
                                        t.skipped += 1;
                                    } else if known_sigs.contains(&e.sig) {
                                        *t.known.entry(e.sig).or_default() += 1;
                                    } else {
                                        first_fail.fetch_min(i, Ordering::Relaxed);
                                        fails.lock().unwrap().insert(i, (src.tape, e));
                                    }
                                }
                            }
                            if let Some(sl) = slots {
                                sl.clear(ti);
                            }
                            let mut g = tally.lock().unwrap();
                            g.evals += t.evals;
                            g.nontrivial += t.nontrivial;
                            g.skipped += t.skipped;
                            g.distinct.extend(t.distinct);
                            for (k, v) in t.classes {
                                *g.classes.entry(k).or_default() += v;
                            }
                            for (k, v) in t.known {
                                *g.known.entry(k).or_default() += v;
                            }
                            g.samples.extend(t.samples);
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
            done.store(true, Ordering::Relaxed);
        });
        let mut t = tally.into_inner().unwrap();
        t.samples.sort_by_key(|v| v["case"].as_u64());
        t.samples.truncate(2);
        println!(
            "{} {}: {} cases, {} non-trivial, {} distinct, {:.1}s (slowest {} ms) {:?}{}",
            p.id, sub.name, t.evals, t.nontrivial, t.distinct.len(), st0.elapsed().as_secs_f64(), slowest.load(Ordering::Relaxed), t.classes,
            if t.skipped > 0 { format!(" skipped {}", t.skipped) } else { String::new() }
        );
        sub_reports.push(json!({"sub": sub.name, "evaluations": t.evals, "nontrivial": t.nontrivial, "distinct_nontrivial": t.distinct.len(),
            "classes": t.classes, "skipped": t.skipped, "wall_s": st0.elapsed().as_secs_f64()}));
        total.evals += t.evals;
        total.nontrivial += t.nontrivial;
        let salt = mix(hash_str(sub.name));
        total.distinct.extend(t.distinct.into_iter().map(|k| mix(k ^ salt)));
        total.samples.extend(t.samples);
        for (k, v) in t.known {
            *total.known.entry(k).or_default() += v;
        }
        let fails = fails.into_inner().unwrap();
        if let Some((_, (tape, e))) = fails.into_iter().next() {
            if violation.is_none() {
                // on a thread of its own: a candidate may hang
                let (tx, rx) = std::sync::mpsc::channel();
                let (f, known2, tape2, e2, budget) = (sub.f, known_sigs.clone(), tape.clone(), e.clone(), if sub.serial { 30 } else { 60 });
                let _ = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
                    let _ = tx.send(shrink(f, tape2, e2, &known2, Duration::from_secs(budget)));
                });
                let (tape, e, runs) = rx.recv_timeout(Duration::from_secs(budget + 60)).unwrap_or((tape, e, 0));
                println!("shrunk in {} runs", runs);
                let mut s = Src::replay(tape.clone());
                let mut c = Case::default();
                let _ = run_case(sub.f, &mut s, &mut c);
                violation = Some((sub.name.to_string(), tape, e, c.desc));
                break;
            }
        }
    }
    for k in known.iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {} (sig={}, seen {} times in this run)", p.id, k.text, k.sig, total.known.get(&k.sig).copied().unwrap_or(0));
    }
    write_evidence(p, env, &total, sub_reports, t0.elapsed().as_secs_f64(), violation.is_some() as u64);
    if let Some((sub, tape, e, desc)) = violation {
        let path = write_replay(env, p.id, &sub, &tape, &e, &desc);
        println!("failure [{}] in {}: {}", e.sig, sub, e.msg);
        println!("input: {}", desc.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    0
}

pub fn write_replay(env: &Env, prop: &str, sub: &str, tape: &Vec<u64>, e: &Fail, desc: &str) -> String {
    let dir = format!("{}/replays", env.verif);
    let _ = std::fs::create_dir_all(&dir);
    let h = tape.iter().fold(hash_str(&e.sig), |a, b| mix(a ^ b));
    let path = format!("{}/{}-{}-{:08x}.json", dir, prop, sub, h as u32);
    let v = json!({"property": prop, "sub": sub, "signature": e.sig, "message": e.msg, "input": desc, "tape": tape});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn write_evidence(p: &Prop, env: &Env, t: &Tally, subs: Vec<Value>, wall: f64, violations: u64) {
    let dir = format!("{}/evidence", env.verif);
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": p.id, "tier": if env.thorough {"thorough"} else {"quick"}, "seed": env.seed, "level": "exploration",
        "coverage": {"evaluations": t.evals, "nontrivial": t.nontrivial, "distinct_nontrivial": t.distinct.len(), "rule": p.rule,
            "samples": t.samples, "subchecks": subs, "known_finding_hits": t.known},
        "assumptions": p.assumptions, "wall_s": wall, "violations": violations});
    let _ = std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&v).unwrap());
}

// ---- crash attribution: which case each worker thread is on, in a file the parent reads ----
pub struct Slots {
    file: std::fs::File,
}
pub static SLOTS: std::sync::OnceLock<Slots> = std::sync::OnceLock::new();
impl Slots {
    pub fn open(path: &str) -> Slots {
        Slots { file: std::fs::OpenOptions::new().create(true).write(true).open(path).unwrap() }
    }
    pub fn set(&self, ti: usize, si: usize, i: usize) {
        use std::os::unix::fs::FileExt;
        let v = ((si as u64) << 48) | (i as u64 + 1);
        let _ = self.file.write_at(&v.to_le_bytes(), ti as u64 * 8);
    }
    pub fn clear(&self, ti: usize) {
        use std::os::unix::fs::FileExt;
        let _ = self.file.write_at(&0u64.to_le_bytes(), ti as u64 * 8);
    }
}
pub fn read_slots(path: &str) -> Vec<(usize, usize)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks(8)
        .filter(|c| c.len() == 8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|v| *v != 0)
        .map(|v| ((v >> 48) as usize, (v & 0xffff_ffff_ffff) as usize - 1))
        .collect()
}
