//! C24: the 3BV sampler.
use crate::core::*;
use crate::refm::*;
use crate::{ensure, ensure_eq};
use ms_toollib as ms;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C24", rule: "A case fixes a start and a number of boards for the sampler. Non-trivial: at least one board. `distribution` compares mean, variance and the whole distribution with an independent sampler of the same size.",
        assumptions: &["thresholds of 7 standard deviations (and 1e-11 for the distribution): a correct sampler fails a run with probability below 1e-9", "the start lies on the 16x30 board"],
        subs: vec![
            Sub { name: "totals", f: c24_totals, quick: 600, thorough: 6000, serial: true },
            Sub { name: "distribution", f: c24_dist, quick: 9, thorough: 60, serial: true },
        ] }]
}

fn c24_totals(s: &mut Src, c: &mut Case) -> R {
    let (x0, y0) = (*s.pick(&[0usize, 15, 7, 3, 12]), *s.pick(&[0usize, 29, 15, 1, 22]));
    let n = *s.pick(&[0usize, 1, 15, 16, 17, 31, 100, 1000, 4096]) + s.us(0, 64);
    c.input("x0,y0,n", &(x0, y0, n));
    c.nontrivial(n >= 16);
    let h = lib("sample_3BVs_exp", || ms::sample_3BVs_exp(x0, y0, n))?;
    ensure_eq!(h.iter().sum::<usize>(), n / 16 * 16, "sampler:total", "number of boards in the histogram");
    // 99 mines on 480 cells can neither be solved by nothing nor leave more than 381 safe cells
    ensure_eq!(h[0], 0, "sampler:support", "boards with a 3BV of 0");
    Ok(())
}

/// Histogram of `n` boards of my own: 16x30, 99 mines, none on the start.
fn own_hist(seed: u64, x0: usize, y0: usize, n: usize) -> Vec<f64> {
    let parts: Vec<Vec<f64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                sc.spawn(move || {
                    let mut st = mix(seed ^ mix(t));
                    let mut rnd = move |k: usize| {
                        st = st.wrapping_add(0x9E37_79B9_7F4A_7C15);
                        ((mix(st) as u128 * k as u128) >> 64) as usize
                    };
                    let mut h = vec![0.0; 382];
                    let mut cells: Vec<usize> = (0..480).filter(|i| *i != x0 * 30 + y0).collect();
                    for _ in 0..n / 8 {
                        let mut mine = vec![false; 480];
                        for i in 0..99 {
                            let j = i + rnd(479 - i);
                            cells.swap(i, j);
                            mine[cells[i]] = true;
                        }
                        h[bv(&mine)] += 1.0;
                    }
                    h
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut h = vec![0.0; 382];
    for p in parts {
        for i in 0..382 {
            h[i] += p[i];
        }
    }
    h
}
/// 3BV of a 16x30 board, written for speed and checked against `stats` on a part of the boards.
fn bv(mine: &[bool]) -> usize {
    const W: usize = 32;
    let mut num = [0i8; 18 * W];
    for i in 0..480 {
        if mine[i] {
            let p = (i / 30 + 1) * W + i % 30 + 1;
            for d in [p - W - 1, p - W, p - W + 1, p - 1, p + 1, p + W - 1, p + W, p + W + 1] {
                num[d] += 1;
            }
            num[p] -= 50;
        }
    }
    let mut done = [true; 18 * W];
    for r in 1..17 {
        for k in 1..31 {
            done[r * W + k] = num[r * W + k] < 0;
        }
    }
    let (mut n, mut st) = (0, vec![]);
    for r in 1..17 {
        for k in 1..31 {
            let p = r * W + k;
            if !done[p] && num[p] == 0 {
                n += 1;
                done[p] = true;
                st.push(p);
                while let Some(p) = st.pop() {
                    for d in [p - W - 1, p - W, p - W + 1, p - 1, p + 1, p + W - 1, p + W, p + W + 1] {
                        if !done[d] {
                            done[d] = true;
                            if num[d] == 0 {
                                st.push(d);
                            }
                        }
                    }
                }
            }
        }
    }
    n + done.iter().filter(|x| !**x).count()
}
fn moments(h: &[f64]) -> (f64, f64, f64, f64) {
    let n: f64 = h.iter().sum();
    let m = h.iter().enumerate().map(|(i, x)| i as f64 * x).sum::<f64>() / n;
    let v = h.iter().enumerate().map(|(i, x)| (i as f64 - m).powi(2) * x).sum::<f64>() / n;
    let k = h.iter().enumerate().map(|(i, x)| (i as f64 - m).powi(4) * x).sum::<f64>() / n;
    (n, m, v, k)
}
fn c24_dist(s: &mut Src, c: &mut Case) -> R {
    let x0 = if s.chance(2, 3) { *s.pick(&[0, 15]) } else { s.us(1, 14) };
    let y0 = if s.chance(2, 3) { *s.pick(&[0, 29]) } else { s.us(1, 28) };
    let n = 16 * 20000;
    let seed = s.seed64();
    c.input("x0,y0,n,seed", &(x0, y0, n, seed));
    c.nontrivial(true);
    // the fast count is the same as the definition
    let mut own = Src::random(seed);
    for _ in 0..200 {
        let b = crate::gen::board_mines(&mut own, 16, 30, 99);
        let mine: Vec<bool> = b.iter().flatten().map(|x| *x == -1).collect();
        assert_eq!(bv(&mine), stats(&b).bbbv);
    }
    let got: Vec<f64> = lib("sample_3BVs_exp", || ms::sample_3BVs_exp(x0, y0, n))?.iter().map(|x| *x as f64).collect();
    let want = own_hist(seed, x0, y0, n);
    let (na, ma, va, _) = moments(&got);
    let (nb, mb, vb, kb) = moments(&want);
    let z = (ma - mb).abs() / (vb / na + vb / nb).sqrt();
    ensure!(z < 7.0, "sampler:mean", "mean 3BV of {} sampled boards is {:.3} but should be about {:.3} (z={:.1})", na, ma, mb, z);
    let z = (va - vb).abs() / ((kb - vb * vb) * (1.0 / na + 1.0 / nb)).sqrt();
    ensure!(z < 7.0, "sampler:variance", "variance of the 3BV is {:.3} but should be about {:.3} (z={:.1})", va, vb, z);
    let (mut fa, mut fb, mut d) = (0.0, 0.0, 0f64);
    for i in 0..382 {
        fa += got[i] / na;
        fb += want[i] / nb;
        d = d.max((fa - fb).abs());
    }
    let limit = (-(1e-11f64 / 2.0).ln() / 2.0).sqrt() * ((na + nb) / (na * nb)).sqrt();
    ensure!(d < limit, "sampler:distribution", "the distribution functions differ by {:.5}, more than {:.5}", d, limit);
    // single values, in particular impossible ones
    for i in 0..382 {
        let p = (got[i] + want[i]) / (na + nb);
        let sd = (p * (1.0 - p) * (1.0 / na + 1.0 / nb)).sqrt();
        let z = (got[i] / na - want[i] / nb).abs() / sd.max(4.0 / na);
        ensure!(z < 7.5, "sampler:value", "3BV {} occurs {} times, but {} times in {} boards of the same kind (z={:.1})", i, got[i], want[i], nb, z);
    }
    Ok(())
}
