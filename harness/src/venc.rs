//! Encoders of the four replay formats, written from the format descriptions, and the event list each should decode to.
use crate::refm::*;

#[derive(Clone, Debug, PartialEq)]
pub struct RE {
    pub e: &'static str,
    pub ms: u32,
    pub x: u16,
    pub y: u16,
}
#[derive(Clone, Debug, Default)]
pub struct EvfHead {
    pub version: u8,
    pub flags: u8,
    pub pix: u8,
    pub mode: u16,
    pub bbbv: u16,
    pub rtime: u32,
    /// software, player, race, unique, start, end, country, device
    pub strings: [Vec<u8>; 8],
    pub checksum: Option<[u8; 32]>,
}
pub fn mines_of(b: &B) -> Vec<P> {
    let (r, c) = dims(b);
    (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|p| b[p.0][p.1] == -1).collect()
}
fn u16b(v: &mut Vec<u8>, x: usize) {
    v.push((x >> 8) as u8);
    v.push(x as u8);
}
fn u24b(v: &mut Vec<u8>, x: usize) {
    v.push((x >> 16) as u8);
    u16b(v, x & 0xffff);
}
pub fn evf_code(e: &str) -> u8 {
    match e {
        "mv" => 1,
        "lc" => 2,
        "lr" => 3,
        "rc" => 4,
        "rr" => 5,
        "mc" => 6,
        "mr" => 7,
        "pf" => 8,
        "cc" => 9,
        _ => 99,
    }
}
pub fn evf(board: &B, h: &EvfHead, evs: &[RE]) -> Vec<u8> {
    let (rows, cols) = dims(board);
    let mut v = vec![h.version, h.flags, rows as u8, cols as u8];
    u16b(&mut v, mine_count(board));
    v.push(h.pix);
    u16b(&mut v, h.mode as usize);
    u16b(&mut v, h.bbbv as usize);
    u24b(&mut v, h.rtime as usize);
    for s in &h.strings {
        v.extend(s);
        v.push(0);
    }
    let bits: Vec<bool> = board.iter().flatten().map(|x| *x == -1).collect();
    for ch in bits.chunks(8) {
        let mut b = 0u8;
        for (i, x) in ch.iter().enumerate() {
            if *x {
                b |= 0x80 >> i;
            }
        }
        v.push(b);
    }
    for e in evs {
        v.push(evf_code(e.e));
        u24b(&mut v, e.ms as usize);
        u16b(&mut v, e.x as usize);
        u16b(&mut v, e.y as usize);
    }
    match &h.checksum {
        Some(c) => {
            v.push(0);
            v.extend(c);
        }
        None => v.push(255),
    }
    v
}

#[derive(Clone, Debug)]
pub struct AvfHead {
    pub level: u8,
    pub skip: [u8; 5],
    pub before_text: Vec<u8>,
    pub bracket: u8,
    pub start: Vec<u8>,
    pub end: Vec<u8>,
    /// text between the end time's '|' and the 'B' of the 3BV (either "", or ending in '|')
    pub mid: Vec<u8>,
    pub bbbv: usize,
    /// the T field as written (time + 1)
    pub t_text: String,
    pub filler: Vec<u8>,
    pub before_skin: Vec<u8>,
    pub skin: Vec<u8>,
    pub name: Vec<u8>,
    pub tail: Vec<u8>,
}
/// `codes[i]` is the raw type byte of event i
pub fn avf(board: &B, h: &AvfHead, evs: &[RE], codes: &[u8]) -> Vec<u8> {
    let (rows, cols) = dims(board);
    let mut v = h.skip.to_vec();
    v.push(h.level);
    if h.level == 6 {
        v.push((cols - 1) as u8);
        v.push((rows - 1) as u8);
        u16b(&mut v, mine_count(board));
    }
    for p in mines_of(board) {
        v.push(p.0 as u8 + 1);
        v.push(p.1 as u8 + 1);
    }
    v.extend(&h.before_text);
    v.push(b'[');
    v.push(h.bracket);
    v.push(b'|');
    v.extend(&h.start);
    v.push(b'|');
    v.extend(&h.end);
    v.push(b'|');
    v.extend(&h.mid);
    v.extend(format!("B{}T{}]", h.bbbv, h.t_text).bytes());
    v.extend(&h.filler);
    for (e, c) in evs.iter().zip(codes) {
        let sec = e.ms / 1000 + 1;
        v.extend([*c, (e.x >> 8) as u8, sec as u8, e.x as u8, (e.ms % 1000 / 10) as u8, (e.y >> 8) as u8, (sec >> 8) as u8, e.y as u8]);
    }
    v.extend([1, 0, 0, 9, 9, 0, 0, 9]);
    v.extend(&h.before_skin);
    v.extend(b"Skin:");
    v.extend(&h.skin);
    v.push(b'\r');
    v.extend(&h.name);
    v.push(b'\r');
    v.extend(&h.tail);
    v
}
pub fn avf_code(e: &str, alt: bool) -> u8 {
    match e {
        "mv" => 1,
        "lc" => 3,
        "lr" => {
            if alt {
                21
            } else {
                5
            }
        }
        "rc" => 9,
        "rr" => {
            if alt {
                145
            } else {
                17
            }
        }
        "mc" => 33,
        "mr" => {
            if alt {
                193
            } else {
                65
            }
        }
        "sc" => 11,
        _ => panic!(),
    }
}

#[derive(Clone, Debug)]
pub struct RmvHead {
    pub junk: Vec<u8>,
    /// None: a short result string without fields; Some((three 3BV characters, time stamp))
    pub result: Option<(Vec<u8>, Vec<u8>, usize)>,
    pub short_len: usize,
    pub version_len: usize,
    pub players: Vec<Vec<u8>>,
    pub nf: u8,
    pub mode: u8,
    pub level: u8,
    pub extra_props: usize,
    pub preflags: Option<Vec<P>>,
    /// ignored records between the events: (position in the event list, record code)
    pub ignored: Vec<(usize, u8)>,
    pub end: u8,
}
/// `evs` are the events as they stand in the file (the first press is not recorded)
pub fn rmv(board: &B, h: &RmvHead, evs: &[RE]) -> Vec<u8> {
    let (rows, cols) = dims(board);
    let mut ji = 0;
    let mut junk = |n: usize| -> Vec<u8> {
        (0..n)
            .map(|_| {
                ji += 1;
                if h.junk.is_empty() {
                    0
                } else {
                    h.junk[ji % h.junk.len()]
                }
            })
            .collect()
    };
    let mut v = b"*rmv".to_vec();
    u16b(&mut v, 1);
    v.extend(junk(4));
    let rs = match &h.result {
        Some((_, _, extra)) => 36 + extra,
        None => h.short_len,
    };
    u16b(&mut v, rs);
    u16b(&mut v, h.version_len);
    v.extend(junk(4));
    u16b(&mut v, h.preflags.as_ref().map_or(0, |p| 2 + 2 * p.len()));
    u16b(&mut v, 4 + h.extra_props);
    v.extend(junk(7));
    match &h.result {
        Some((b3, ts, _)) => {
            v.extend(junk(rs - 32));
            v.extend(b3);
            v.extend(junk(16));
            v.extend(ts);
        }
        None => v.extend(junk(rs - 3)),
    }
    v.extend(junk(h.version_len + 2));
    u16b(&mut v, h.players.len());
    for p in &h.players {
        v.push(p.len() as u8);
        v.extend(p);
    }
    v.extend(junk(4));
    v.push(cols as u8);
    v.push(rows as u8);
    u16b(&mut v, mine_count(board));
    for p in mines_of(board) {
        v.push(p.1 as u8);
        v.push(p.0 as u8);
    }
    if let Some(pf) = &h.preflags {
        u16b(&mut v, pf.len());
        for p in pf {
            v.push(p.1 as u8);
            v.push(p.0 as u8);
        }
    }
    v.extend(junk(1));
    v.extend([h.nf, h.mode, h.level]);
    v.extend(junk(h.extra_props));
    for (i, e) in evs.iter().enumerate() {
        for (k, c) in &h.ignored {
            if *k == i {
                v.push(*c);
                v.extend(junk(if *c == 0 { 4 } else { 2 }));
            }
        }
        v.push(evf_code(e.e));
        u24b(&mut v, e.ms as usize);
        v.push(0);
        u16b(&mut v, e.x as usize);
        u16b(&mut v, e.y as usize);
    }
    v.push(h.end);
    v
}

#[derive(Clone, Debug)]
pub struct MvfHead {
    pub junk: Vec<u8>,
    pub level: u8,
    pub mode: u8,
    pub rtime_cs: u32,
    pub bbbv: u16,
    pub name: Vec<u8>,
    pub leading: u16,
}
/// Clone 0.97 replay: each record is the state of the buttons with a position and a time.
#[derive(Clone, Debug)]
pub struct MvfRec {
    pub l: bool,
    pub r: bool,
    pub m: bool,
    pub x: u16,
    pub y: u16,
    pub cs: u32,
}
/// byte and bit of each of the 40 fields of a record
fn mvf_perm(leading: u16) -> Vec<(usize, u8)> {
    let mult = 100000000.0f64;
    let n1 = (leading as f64).sqrt();
    let n2 = (leading as f64 + 1000.0).sqrt();
    let n3 = (n1 + 1000.0).sqrt();
    let parts = [(n3 + 1000.0).cos(), n2.sqrt().sin(), n3.cos(), (n1.sqrt() + 1000.0).sin(), (n2 + 1000.0).sqrt().cos()];
    let mut digits: Vec<u8> = vec![];
    for p in parts {
        let t = format!("{:08}", (p * mult).abs().round() as u64);
        digits.extend(&t.as_bytes()[..8]);
    }
    let mut order: Vec<usize> = (0..40).collect();
    order.sort_by_key(|j| (digits[*j], *j));
    order.into_iter().map(|j| (j / 8, 1u8 << (j % 8))).collect()
}
pub fn mvf(board: &B, h: &MvfHead, recs: &[MvfRec]) -> Vec<u8> {
    let (rows, cols) = dims(board);
    let mut ji = 0;
    let mut junk = |n: usize| -> Vec<u8> {
        (0..n)
            .map(|_| {
                ji += 1;
                if h.junk.is_empty() {
                    0
                } else {
                    h.junk[ji % h.junk.len()]
                }
            })
            .collect()
    };
    let mut v = vec![0x11, 0x4D];
    v.extend(junk(25));
    v.push(b'5');
    v.extend(junk(46));
    v.extend([12, 31, 7, 0xd7, 23, 59, 58]);
    v.push(h.level - 2);
    v.push(h.mode);
    u16b(&mut v, (h.rtime_cs / 100) as usize);
    v.push((h.rtime_cs % 100) as u8);
    u16b(&mut v, h.bbbv as usize);
    v.extend(junk(9));
    v.push(cols as u8);
    v.push(rows as u8);
    u16b(&mut v, mine_count(board));
    for p in mines_of(board) {
        v.push(p.1 as u8 + 1);
        v.push(p.0 as u8 + 1);
    }
    v.push(h.name.len() as u8);
    v.extend(&h.name);
    u16b(&mut v, h.leading as usize);
    u24b(&mut v, recs.len());
    let perm = mvf_perm(h.leading);
    for r in recs {
        let mut e = [0u8; 5];
        let mut put = |at: usize, n: usize, val: u32| {
            for j in 0..n {
                if val >> j & 1 == 1 {
                    e[perm[at + j].0] |= perm[at + j].1;
                }
            }
        };
        put(0, 1, r.r as u32);
        put(1, 1, r.m as u32);
        put(2, 1, r.l as u32);
        put(3, 9, r.y as u32);
        put(12, 9, r.x as u32);
        put(21, 7, r.cs % 100);
        put(28, 10, r.cs / 100);
        v.extend(e);
    }
    v
}
/// What the records say happened.
pub fn mvf_events(recs: &[MvfRec]) -> Vec<RE> {
    let mut out = vec![];
    for (i, r) in recs.iter().enumerate() {
        let mut names: Vec<&'static str> = vec![];
        if i == 0 {
            names.push(if r.m {
                "mc"
            } else if r.r {
                "rc"
            } else if r.l {
                "lc"
            } else {
                "mv"
            });
        } else {
            let p = &recs[i - 1];
            if (p.x, p.y) != (r.x, r.y) {
                names.push("mv");
            }
            for (a, b, n) in [(p.l, r.l, "lc"), (p.r, r.r, "rc"), (p.m, r.m, "mc")] {
                if b && !a {
                    names.push(n);
                }
            }
            for (a, b, n) in [(p.l, r.l, "lr"), (p.r, r.r, "rr"), (p.m, r.m, "mr")] {
                if a && !b {
                    names.push(n);
                }
            }
        }
        for e in names {
            out.push(RE { e, ms: r.cs * 10, x: r.x, y: r.y });
        }
    }
    out
}
