//! C22: reading a board back from its picture.
use crate::core::*;
use crate::refm::*;
use crate::{ensure, ensure_eq, gen};
use ms_toollib as ms;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C22", rule: "Consistent positions on boards of 8..24 x 8..32 cells (all densities, up to 60% of the cells open), drawn in the classic skin with a one-pixel frame, margins of 8 to 48 pixels and four background colours; cells of 12 to 36 pixels, and of 80 to 112 (240 to 288 on boards up to 10x10), where the library first reduces the picture. A case is a set of pictures of one kind; the reading is accepted if it is right for all but a stated number of them, because the library documents that recognition is not always right (measured on the unchanged tree: 1 of 1500 pictures misread at 32 pixels per cell, none with wrong dimensions; 3 of 100 at 80 to 112 pixels). Non-trivial: every picture has closed and open cells and at least three different digits occur.",
        assumptions: &["pictures are sharp, unobstructed and drawn in the classic skin", "params.onnx of the repository is the parameter file"],
        subs: vec![
            Sub { name: "dimensions", f: dimensions, quick: 400, thorough: 12000, serial: false },
            Sub { name: "small", f: small, quick: 200, thorough: 6000, serial: false },
            Sub { name: "huge", f: huge, quick: 16, thorough: 200, serial: false },
            Sub { name: "large", f: large, quick: 40, thorough: 800, serial: false },
            Sub { name: "cells_large", f: cells_large, quick: 24, thorough: 500, serial: false },
            Sub { name: "cells", f: cells32, quick: 120, thorough: 2000, serial: false },
            Sub { name: "cell_sizes", f: cell_sizes, quick: 60, thorough: 1500, serial: false },
            Sub { name: "flags", f: flags, quick: 60, thorough: 1500, serial: false },
            Sub { name: "alpha", f: alpha, quick: 300, thorough: 6000, serial: false },
            Sub { name: "legal", f: legal, quick: 3000, thorough: 20000, serial: false },
        ] }]
}

const GLYPHS: [[&str; 10]; 8] = [
    ["....##....", "...###....", "..####....", ".#####....", "...###....", "...###....", "...###....", "...###....", ".#######..", ".#######.."],
    [".########.", "##########", "###....###", ".......###", ".....####.", "...#####..", ".#####....", "####......", "##########", "##########"],
    ["#########.", "##########", ".......###", ".......###", "...######.", "...######.", ".......###", ".......###", "##########", "#########."],
    ["...###.###", "...###.###", "..###..###", "..###..###", ".#########", ".#########", ".......###", ".......###", ".......###", ".......###"],
    ["##########", "##########", "###.......", "###.......", "#########.", "##########", ".......###", ".......###", "##########", "#########."],
    [".########.", "#########.", "###.......", "###.......", "#########.", "##########", "###....###", "###....###", "##########", ".########."],
    ["##########", "##########", ".......###", ".......###", "......###.", "......###.", ".....###..", ".....###..", "....###...", "....###..."],
    [".########.", "##########", "###....###", "###....###", ".########.", ".########.", "###....###", "###....###", "##########", ".########."],
];
const COLORS: [[u8; 3]; 8] = [[0, 0, 255], [0, 128, 0], [255, 0, 0], [0, 0, 128], [128, 0, 0], [0, 128, 128], [0, 0, 0], [128, 128, 128]];
type Tile = Vec<[u8; 3]>;

fn tile(code: i32) -> Tile {
    let mut p = vec![[192u8; 3]; 256];
    if code >= 10 {
        for i in 0..16 {
            for j in 0..16 {
                if i < 2 || j < 2 {
                    p[i * 16 + j] = [255; 3];
                }
                if (i >= 14 && j >= 15 - i) || (j >= 14 && i >= 15 - j) {
                    p[i * 16 + j] = [128; 3];
                }
            }
        }
        if code == 11 {
            for i in 3..9usize {
                for j in 5..9usize {
                    if j + 2 + (i - 3).min(8 - i) >= 9 {
                        p[i * 16 + j] = [255, 0, 0];
                    }
                }
            }
            for i in 9..11 {
                p[i * 16 + 8] = [0; 3];
            }
            for j in 5..11 {
                p[11 * 16 + j] = [0; 3];
                p[12 * 16 + j] = [0; 3];
            }
        }
    } else {
        for i in 0..16 {
            p[i] = [128; 3];
            p[i * 16] = [128; 3];
        }
        if (1..9).contains(&code) {
            for (i, r) in GLYPHS[code as usize - 1].iter().enumerate() {
                for (j, ch) in r.bytes().enumerate() {
                    if ch == b'#' {
                        p[(i + 3) * 16 + j + 3] = COLORS[code as usize - 1];
                    }
                }
            }
        }
    }
    p
}

#[derive(Clone, Debug)]
struct Look {
    scale: f64,
    margins: [usize; 4],
    background: u8,
    green: bool,
    frame: u8,
}
/// The picture as the library takes it: four components per pixel, blue first.
fn draw(b: &B, k: &Look) -> (Vec<usize>, usize, usize) {
    let (rows, cols) = dims(b);
    let f = k.scale.round() as usize;
    let (h, w) = ((rows as f64 * 16.0 * k.scale) as usize, (cols as f64 * 16.0 * k.scale) as usize);
    let [mt, ml, mb, mr] = k.margins;
    let (hh, ww) = (h + mt + mb + 2 * f, w + ml + mr + 2 * f);
    let bg = if k.green { [20, 120, 60] } else { [k.background; 3] };
    let tiles: Vec<Tile> = (0..12).map(tile).collect();
    let mut v = vec![255usize; hh * ww * 4];
    for y in 0..hh {
        for x in 0..ww {
            let px = if y < mt || x < ml || y >= mt + h + 2 * f || x >= ml + w + 2 * f {
                bg
            } else if y < mt + f || x < ml + f || y >= mt + f + h || x >= ml + f + w {
                [k.frame; 3]
            } else {
                let yy = ((y - mt - f) as f64 / k.scale) as usize;
                let xx = ((x - ml - f) as f64 / k.scale) as usize;
                let code = b[(yy / 16).min(rows - 1)][(xx / 16).min(cols - 1)];
                tiles[code as usize][(yy % 16) * 16 + xx % 16]
            };
            for c in 0..3 {
                v[(y * ww + x) * 4 + c] = px[2 - c] as usize;
            }
        }
    }
    (v, hh, ww)
}
fn look(s: &mut Src, scale: f64) -> Look {
    Look {
        scale,
        margins: [s.us(8, 48), s.us(8, 48), s.us(8, 48), s.us(8, 48)],
        background: *s.pick(&[192, 255, 240]),
        green: s.chance(1, 4),
        frame: *s.pick(&[128, 60, 0, 90]),
    }
}
/// A position with both closed and open cells, at most 60% of them open; returns the mines' board and the position.
fn scene(s: &mut Src) -> (B, B) {
    scene_of(s, (24, 32))
}
fn scene_of(s: &mut Src, most: (usize, usize)) -> (B, B) {
    loop {
        let (rows, cols) = (s.us(8, most.0), s.us(8, most.1));
        let k = rows * cols * s.us(5, 60) / 100;
        let b = gen::board_mines(s, rows, cols, k);
        let mut gb = vec![vec![10; cols]; rows];
        let limit = rows * cols * 6 / 10;
        let n = s.us(2, rows * cols / 2);
        for _ in 0..n {
            let (r, q) = (s.us(0, rows - 1), s.us(0, cols - 1));
            if b[r][q] == -1 {
                continue;
            }
            let keep = gb.clone();
            open_cells(&b, &mut gb, &[(r, q)]);
            if gb.iter().flatten().filter(|x| **x < 10).count() > limit {
                gb = keep;
                break;
            }
        }
        if gb.iter().flatten().any(|x| *x < 10) || s.chance(1, 10) {
            return (b, gb);
        }
    }
}
/// Any picture, for comparisons between interfaces; small boards only.
pub fn picture(s: &mut Src) -> (Vec<usize>, usize, usize) {
    model_dir();
    let (rows, cols) = (s.us(1, 7), s.us(1, 7));
    let b: B = (0..rows).map(|_| (0..cols).map(|_| *s.pick(&[0, 1, 1, 2, 3, 10, 10, 10, 11])).collect()).collect();
    let k = Look { margins: [s.us(0, 12), s.us(0, 12), s.us(0, 12), s.us(0, 12)], ..look(s, 1.5) };
    draw(&b, &k)
}
fn model_dir() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| std::env::set_current_dir("/repo/base").expect("base"));
}
fn read(b: &B, k: &Look) -> Result<B, String> {
    model_dir();
    let (v, h, w) = draw(b, k);
    match catch(|| ms::OBR_board(v, h, w)) {
        Ok(Ok(g)) => Ok(g),
        Ok(Err(e)) => Err(format!("refused: {}", e)),
        Err(e) => Err(format!("panicked: {}", e)),
    }
}
fn digits(v: &[B]) -> usize {
    (1..9).filter(|d| v.iter().flatten().flatten().any(|x| x == d)).count()
}

/// Rows and columns, without the neural network.
fn dimensions(s: &mut Src, c: &mut Case) -> R {
    sizes(s, c, &[2.0], 1, "obr:dimensions", (24, 32))
}
fn small(s: &mut Src, c: &mut Case) -> R {
    sizes(s, c, &[0.75, 0.875, 1.0, 1.125], 6, "obr:small_cells", (24, 32))
}
/// Cells near the documented limit of 300 pixels: the picture is reduced twice.
fn huge(s: &mut Src, c: &mut Case) -> R {
    sizes(s, c, &[15.0, 18.0], 4, "obr:huge", (10, 10))
}
/// Cells so large that the picture has to be reduced first.
fn large(s: &mut Src, c: &mut Case) -> R {
    sizes(s, c, &[5.0, 5.25, 5.5, 5.75, 6.0, 6.25, 7.0], 4, "obr:large", (24, 32))
}
fn cells_large(s: &mut Src, c: &mut Case) -> R {
    readings(s, c, 8, &[6.0], false, 5, "obr:cells_large")
}
fn sizes(s: &mut Src, c: &mut Case, scales: &[f64], allowed: usize, sig: &str, most: (usize, usize)) -> R {
    let mut bad = vec![];
    let mut boards = vec![];
    for i in 0..8 {
        let (_, gb) = scene_of(s, most);
        let scale = *s.pick(scales);
        let k = look(s, scale);
        c.input("look", &k);
        let (v, h, w) = draw(&gb, &k);
        let got = catch(|| {
            let mut m = ms::ImageBoard::new(v, h, w);
            m.get_pos_pixel();
            (m.r, m.c)
        });
        if got.as_ref().ok() != Some(&dims(&gb)) {
            bad.push(format!("picture {} of {:?} cells read as {:?}", i, dims(&gb), got));
        }
        boards.push(gb);
    }
    c.nontrivial(digits(&boards) >= 3);
    ensure!(bad.len() <= allowed, sig, "{} of 8 pictures: {:?}", bad.len(), bad);
    Ok(())
}
fn readings(s: &mut Src, c: &mut Case, n: usize, sizes: &[f64], flagged: bool, allowed: usize, sig: &str) -> R {
    let mut bad = vec![];
    let mut boards = vec![];
    let mut seen = [[0usize; 2]; 12];
    for i in 0..n {
        let (b, gb) = scene(s);
        let mut shown = gb.clone();
        if flagged {
            for r in 0..b.len() {
                for q in 0..b[0].len() {
                    if b[r][q] == -1 && s.chance(1, 3) {
                        shown[r][q] = 11;
                    }
                }
            }
        }
        let scale = *s.pick(sizes);
        let k = look(s, scale);
        c.input("look", &k);
        match read(&shown, &k) {
            Ok(g) => {
                // a picture misread as a whole is counted below and says nothing about single digits
                let wrong = if dims(&g) == dims(&gb) { g.iter().flatten().zip(gb.iter().flatten()).filter(|(a, b)| a != b).count() } else { usize::MAX };
                if wrong <= gb.len() * gb[0].len() / 4 {
                    for (x, y) in shown.iter().flatten().zip(g.iter().flatten()) {
                        let want = if *x == 11 { 10 } else { *x };
                        seen[*x as usize][(*y == want) as usize] += 1;
                    }
                }
                if g != gb {
                    bad.push(format!("picture {}: {:?} cells read as {:?}, {} cells differ", i, dims(&gb), dims(&g), g.iter().flatten().zip(gb.iter().flatten()).filter(|(a, b)| a != b).count()));
                }
            }
            Err(e) => bad.push(format!("picture {}: {}", i, e)),
        }
        boards.push(gb);
    }
    c.nontrivial(digits(&boards) >= 3);
    ensure!(bad.len() <= allowed, sig, "{} of {} pictures: {:?}", bad.len(), n, bad);
    if sizes[0] > 4.0 {
        // after the reduction a digit may be misread throughout a picture
        return Ok(());
    }
    // every kind of cell on its own: a digit that is rare must not hide behind the others
    for (k, [wrong, right]) in seen.iter().enumerate() {
        ensure!(wrong + right < 4 || right >= wrong, "obr:digit", "cells of code {}: {} read right and {} wrong", k, right, wrong);
    }
    Ok(())
}
fn cells32(s: &mut Src, c: &mut Case) -> R {
    readings(s, c, 16, &[2.0], false, 3, "obr:cells")
}
fn cell_sizes(s: &mut Src, c: &mut Case) -> R {
    readings(s, c, 16, &[1.5, 1.75, 1.875, 2.125, 2.25], false, 8, "obr:sizes")
}
fn flags(s: &mut Src, c: &mut Case) -> R {
    readings(s, c, 16, &[2.0], true, 8, "obr:flags")
}
/// The fourth component of every pixel is not part of the picture.
fn alpha(s: &mut Src, c: &mut Case) -> R {
    model_dir();
    let (_, gb) = scene(s);
    let k = look(s, 2.0);
    c.input("look", &k);
    let (v, h, w) = draw(&gb, &k);
    let mut v2 = v.clone();
    for i in 0..h * w {
        v2[i * 4 + 3] = s.us(0, 255);
        if i > 2000 {
            // the rest is filled without further choices
            v2[i * 4 + 3] = (i * 37) % 256;
        }
    }
    let one = catch(|| ms::OBR_board(v, h, w));
    let two = catch(|| ms::OBR_board(v2, h, w));
    c.nontrivial(digits(&[gb]) >= 2);
    ensure_eq!(one, two, "obr:alpha", "the reading depends on the fourth component");
    Ok(())
}
/// Whatever the picture shows, a board that is returned is one the solvers accept at first sight: known codes and no
/// number above the count of closed cells around it. Pictures too small for any board are refused.
fn legal(s: &mut Src, c: &mut Case) -> R {
    model_dir();
    let (rows, cols) = (s.us(1, 14), s.us(1, 14));
    let b: B = (0..rows).map(|_| (0..cols).map(|_| s.us(0, 11) as i32).map(|x| if x == 9 { 10 } else { x }).collect()).collect();
    let scale = *s.pick(&[1.0, 1.5, 2.0, 2.0, 2.0]);
    let mut k = look(s, scale);
    if s.chance(1, 4) {
        k.margins = [0, 0, 0, 0];
    }
    c.input("drawn", &b);
    c.input("look", &k);
    let (v, h, w) = draw(&b, &k);
    match catch(|| ms::OBR_board(v, h, w)) {
        Err(_) => c.class("gave up"),
        Ok(Err(_)) => c.class("refused"),
        Ok(Ok(g)) => {
            c.class("read");
            ensure!(h > 24 && w > 24, "obr:small", "a picture of {}x{} pixels was read", h, w);
            let (r, q) = dims(&g);
            ensure!(r > 3 && q > 3 && g.iter().all(|x| x.len() == q), "obr:shape", "{}x{}", r, q);
            let mut numbers = 0;
            for x in 0..r {
                for y in 0..q {
                    ensure!((0..=8).contains(&g[x][y]) || g[x][y] == 10 || g[x][y] == 11, "obr:codes", "code {} at {:?}", g[x][y], (x, y));
                    if (1..=8).contains(&g[x][y]) {
                        numbers += 1;
                        let closed = nbrs(x, y, r, q).into_iter().filter(|p| g[p.0][p.1] >= 10).count() as i32;
                        ensure!(g[x][y] <= closed, "obr:legal", "{} at {:?} with {} closed cells around in {:?}", g[x][y], (x, y), closed, g);
                    }
                }
            }
            c.nontrivial(numbers >= 3 && dims(&g) == (rows, cols));
        }
    }
    if h <= 24 || w <= 24 {
        c.class("too small");
    }
    Ok(())
}
