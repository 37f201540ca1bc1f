//! P16 Goertzel, P17 chirp-Z, P18 Hilbert, P19 cepstrum/mel/MFCC, P20 windows, P21 spectrogram.
use crate::fw::*;
use crate::oracle::*;
use kofft::fft::FftError;

const EPS: f64 = f32::EPSILON as f64;
const PI: f64 = std::f64::consts::PI;
const MIRI: bool = cfg!(miri);

/// Signal with amplitudes that survive squaring in f32.
pub fn msig(c: &mut Case, n: usize) -> (&'static str, Vec<f32>) {
    let (p, mut s) = rsignal::<f32>(&mut c.rng, n);
    let m = s.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    if m > 0.0 && !(1e-12..1e9).contains(&m) {
        s.iter_mut().for_each(|v| *v /= m);
    } else if m > 0.0 && c.rng.chance(1, 4) {
        // recordings are quiet, or raw integers of 8 to 32 bits
        let a = *c.rng.pick(&[1e-12f32, 1e-9, 1e-6, 1e-4, 128.0, 32768.0, 8388608.0, 2147483648.0]);
        s.iter_mut().for_each(|v| *v *= a / m);
        c.cover(format!("loudness:{a:e}"));
    }
    (p, s)
}
fn abs_sum(x: &[f32]) -> f64 {
    x.iter().map(|v| v.abs() as f64).sum()
}

// ------------------------------------------------------------------ P16
fn goertzel_case(c: &mut Case, n: usize, exact: bool) {
    let (pat, x) = msig(c, n);
    let rate = *c.rng.pick(&[1.0f32, 2.0, 100.0, 8000.0, 11025.0, 16000.0, 22050.0, 44100.0, 48000.0, 96000.0, 0.37]);
    let k = c.rng.below(n);
    let target = if exact {
        (k as f64 * rate as f64 / n as f64) as f32
    } else {
        c.rng.uni(0.0, rate as f64) as f32
    };
    // aliases of the band: negative frequencies and those beyond the sampling rate
    let target = match c.rng.below(12) {
        0 => target - rate,
        1 => target + rate * c.rng.range(1, 3) as f32,
        2 => -target,
        _ => target,
    };
    let pos = target as f64 * n as f64 / rate as f64;
    let near = (pos + 0.5).floor();
    let amb = ((pos - pos.floor()) - 0.5).abs() < 1e-4 + 8.0 * EPS * pos.abs();
    let wrap = |k: f64| (k as i64).rem_euclid(n as i64) as u64;
    let alts: Vec<u64> = if amb { vec![wrap(pos.floor()), wrap(pos.floor() + 1.0)] } else { vec![wrap(near)] };
    // the angle's own rounding grows with the bin number
    let turns = 1.0 + (near / n as f64).abs();
    c.sig(&format!("{n}:{near}:{pat}:{exact}"));
    let Some(r) = c.call("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, rate, target)) else { return };
    let g = match r {
        Ok(g) => g,
        Err(e) => return c.fail("goertzel_f32: refused", format!("n={n} rate={rate} {e:?}")),
    };
    c.check(g.is_finite() && g >= 0.0, "goertzel_f32: not finite and non-negative", || format!("n={n} target={target} rate={rate} got {g}"));
    let s = abs_sum(&x);
    let mut best = f64::INFINITY;
    let mut info = String::new();
    for b in alts {
        let mut acc = Z::default();
        for (i, &v) in x.iter().enumerate() {
            acc = acc + root((i as u64 * b) % n as u64, n as u64).scale(v as f64);
        }
        let want = acc.abs();
        let sw = (2.0 * PI * (b % n as u64) as f64 / n as f64).sin().abs();
        // bound of the recurrence state, and how an error of the coefficient grows
        let a = s * (1.0 / sw.max(1e-300)).min(n as f64);
        // |g^2 - w^2| <= C eps n a^2 (cancellation of the squared state, coefficient error)
        let tol2 = 4.0 * EPS * (n as f64 + 4.0) * turns * a * a + 1e-40;
        let e2 = ((g as f64).powi(2) - want * want).abs();
        // far away from DC and Nyquist the value itself is well conditioned, too
        if e2 / tol2 < best {
            best = e2 / tol2;
            info = format!("n={n} k={b} target={target} rate={rate} {pat}: got {g} want {want} tol {:.3e}", tol2.sqrt());
        }
    }
    c.sample(info.clone());
    c.ratio("magnitude", best, || info.clone());
    c.check(best <= 1.0, "goertzel_f32: not the magnitude of the nearest bin", || info);
}
pub fn p16(x: &mut Ctx) {
    let max = if MIRI { 20 } else { 400 };
    x.run("exact-small", 600, |c| {
        let n = 1 + (c.idx % 40) as usize;
        goertzel_case(c, n, true)
    });
    x.run("exact", 600, |c| {
        let n = c.rng.logsize(1, max);
        goertzel_case(c, n, true)
    });
    x.run("any", 600, |c| {
        let n = c.rng.logsize(1, max);
        goertzel_case(c, n, false)
    });
    x.run("long", 20, |c| {
        let n = c.rng.logsize(max, if MIRI { 30 } else { 20000 });
        let e = c.rng.chance(1, 2);
        goertzel_case(c, n, e)
    });
    x.run("very-long", 1, |c| {
        let n = if MIRI { 30 } else { *c.rng.pick(&[65535usize, 65536, 65537, 70_001, 131_072, 140_000]) };
        let e = c.rng.chance(3, 4);
        goertzel_case(c, n, e)
    });
    // Tones: the matching bin answers with the tone's strength, all others stay far below it.
    x.run("tone", 300, |c| {
        let n = c.rng.range(8, if MIRI { 16 } else { 300 });
        let rate = *c.rng.pick(&[8000.0f32, 44100.0, 1.0]);
        let k = c.rng.range(1, (n - 1) / 2);
        let ph = c.rng.uni(0.0, 6.28);
        let x: Vec<f32> = (0..n).map(|i| (2.0 * PI * ((i * k) % n) as f64 / n as f64 + ph).cos() as f32).collect();
        let f = |b: usize| (b as f64 * rate as f64 / n as f64) as f32;
        let Some(Ok(on)) = c.call("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, rate, f(k))) else { return };
        c.sig(&format!("tone {n} {k}"));
        c.check((on as f64 / (n as f64 / 2.0) - 1.0).abs() < 0.05, "goertzel_f32: tone strength", || format!("n={n} k={k} got {on} want {}", n as f64 / 2.0));
        let mut o = c.rng.range(1, (n - 1) / 2);
        if o == k {
            o = if k > 1 { k - 1 } else { k + 1 };
        }
        if let Some(Ok(off)) = c.call("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, rate, f(o))) {
            c.check(off < on * 0.1, "goertzel_f32: other bin answers the tone", || format!("n={n} tone {k} asked {o} got {off} vs {on}"));
        }
    });
}

// ------------------------------------------------------------------ P17
fn czt_case(c: &mut Case, n: usize, m: usize, dft: bool) {
    let (pat, x) = msig(c, n);
    let (w, a, kind) = if dft {
        let t = -2.0 * PI / n.max(1) as f64;
        ((t.cos() as f32, t.sin() as f32), (1.0f32, 0.0f32), "dft")
    } else {
        // radii such that a^-n and w^(nk) stay moderate; short inputs take far-off ones
        let far = n <= 4 && c.rng.chance(1, 3);
        let rw = if far && n * m <= 8 {
            10f64.powf(c.rng.uni(-2.0, 2.0))
        } else if c.rng.chance(1, 2) { 1.0 } else { 2f64.powf(c.rng.uni(-8.0, 8.0) / ((n * m).max(1) as f64)) };
        let ra = if far {
            10f64.powf(c.rng.uni(-5.0, 5.0))
        } else if c.rng.chance(1, 2) { 1.0 } else { 2f64.powf(c.rng.uni(-8.0, 8.0) / n.max(1) as f64) };
        let (tw, ta) = (c.rng.uni(-PI, PI), c.rng.uni(-PI, PI));
        let q = *c.rng.pick(&["general", "real w", "unit a"]);
        let w = if q == "real w" { (rw as f32, 0.0) } else { ((rw * tw.cos()) as f32, (rw * tw.sin()) as f32) };
        let a = if q == "unit a" { (1.0, 0.0) } else { ((ra * ta.cos()) as f32, (ra * ta.sin()) as f32) };
        (w, a, q)
    };
    c.sig(&format!("{n}:{m}:{kind}:{pat}"));
    c.cover(format!("czt:{kind}"));
    let Some(y) = c.call("czt_f32", || kofft::czt::czt_f32(&x, m, w, a)) else { return };
    if !c.check(y.len() == m, "czt_f32: wrong number of outputs", || format!("n={n} m={m} got {}", y.len())) {
        return;
    }
    let (wm, wt) = ((w.0 as f64).hypot(w.1 as f64).ln(), (w.1 as f64).atan2(w.0 as f64));
    let (am, at) = ((a.0 as f64).hypot(a.1 as f64).ln(), (a.1 as f64).atan2(a.0 as f64));
    for k in 0..m {
        let mut acc = Z::default();
        let mut tol = 1e-36;
        for (i, &v) in x.iter().enumerate() {
            let (fi, fk) = (i as f64, k as f64);
            let mag = (fi * fk * wm - fi * am).exp();
            let ang = fi * fk * wt - fi * at;
            acc = acc + z(ang.cos(), ang.sin()).scale(v as f64 * mag);
            tol += EPS * (v as f64).abs() * mag * (8.0 + 3.0 * fi * (fk + 3.0) + n as f64);
        }
        c.ev();
        let e = (y[k].0 as f64 - acc.re).hypot(y[k].1 as f64 - acc.im);
        c.ratio("spiral value", e / tol, || format!("n={n} m={m} k={k} {kind}"));
        if k == 1 {
            c.sample(format!("n={n} m={m} w={w:?} a={a:?} y[1]={:?}", y[1]));
        }
        if !(e <= tol) {
            c.fail("czt_f32: wrong value", format!("n={n} m={m} k={k} w={w:?} a={a:?} got {:?} want ({}, {}) tolerance {tol:.2e}", y[k], acc.re, acc.im));
            return;
        }
    }
    if dft && n > 0 {
        // the same outputs are the DFT of the input
        let d = dft_naive(&rz(&r64(&x)));
        let s = abs_sum(&x);
        let bad = (0..m.min(n)).find(|&k| {
            let tol = EPS * s * (16.0 + (4 * n) as f64 + 3.0 * (n * (k + 4)) as f64);
            !((y[k].0 as f64 - d[k].re).hypot(y[k].1 as f64 - d[k].im) <= tol)
        });
        c.check(bad.is_none(), "czt_f32: DFT parameters do not give the DFT", || format!("n={n} k={bad:?}"));
    }
}
pub fn p17(x: &mut Ctx) {
    let max = if MIRI { 8 } else { 90 };
    x.run("dft", 200, |c| {
        let n = (c.idx % max as u64) as usize;
        czt_case(c, n, n, true)
    });
    x.run("spiral", 500, |c| {
        let n = c.rng.range(0, max);
        let m = c.rng.range(0, max);
        czt_case(c, n, m, false)
    });
    x.run("tiny", 200, |c| {
        let n = c.rng.range(0, 4);
        let m = c.rng.range(0, 5);
        czt_case(c, n, m, false)
    });
    // few samples and many outputs, or the other way round
    x.run("wide", 12, |c| {
        let n = c.rng.range(1, 6);
        let m = c.rng.logsize(90, if MIRI { 100 } else { 5000 });
        czt_case(c, n, m, false)
    });
    x.run("deep", 12, |c| {
        let n = c.rng.logsize(90, if MIRI { 100 } else { 5000 });
        let m = c.rng.range(1, 6);
        czt_case(c, n, m, false)
    });
    x.run("vast", 1, |c| {
        let n = c.rng.range(1, 4);
        let m = if MIRI { 40 } else { *c.rng.pick(&[20_000usize, 65535, 65536, 65537, 70_000, 131_073]) };
        match c.idx % 50 {
            7 => czt_case(c, n, m.min(66_000), false),
            k if k % 5 == 0 => czt_case(c, m, n, false),
            _ => {}
        }
    });
    x.run("dft-large", 6, |c| {
        let n = c.rng.range(91, if MIRI { 92 } else { 400 });
        czt_case(c, n, n, true)
    });
}

// ------------------------------------------------------------------ P18
pub fn p18(x: &mut Ctx) {
    fn one(c: &mut Case, n: usize, noise: bool) {
        let (pat, s) = msig(c, n);
        if noise {
            // an unrelated call in between must not matter
            let m = 1usize << c.rng.range(0, 8);
            let (_, o) = msig(c, m);
            let _ = c.call("hilbert_analytic", || kofft::hilbert::hilbert_analytic(&o).is_ok());
            let _ = c.call("hilbert_analytic", || kofft::hilbert::hilbert_analytic(&o[..m - m / 3]).is_ok());
        }
        c.sig(&format!("{n}:{pat}:{noise}"));
        let Some(r) = c.call("hilbert_analytic", || kofft::hilbert::hilbert_analytic(&s)) else { return };
        if !n.is_power_of_two() {
            let want = if n == 0 { FftError::EmptyInput } else { FftError::NonPowerOfTwoNoStd };
            c.check(matches!(&r, Err(e) if *e == want), "hilbert_analytic: unsupported length not refused", || format!("n={n} {:?}", r.as_ref().err()));
            return;
        }
        let y = match r {
            Ok(y) => y,
            Err(e) => return c.fail("hilbert_analytic: refused", format!("n={n} {e:?}")),
        };
        let x64 = r64(&s);
        let mut f = fft_ref(&rz(&x64));
        for (k, v) in f.iter_mut().enumerate() {
            if k >= 1 && 2 * k < n {
                *v = v.scale(2.0);
            } else if 2 * k > n {
                *v = Z::default();
            }
        }
        let want = ifft_ref(&f);
        let got = toz(&y);
        let nx = rnorm(&x64);
        judge(c, "hilbert_analytic", "analytic signal", &got, &want, EPS, 2.0 * nx, 2.0);
        let re: Vec<Z> = got.iter().map(|v| z(v.re, 0.0)).collect();
        judge(c, "hilbert_analytic real part", "real part", &re, &rz(&x64), EPS, 2.0 * nx, 2.0);
        c.sample(format!("n={n} {pat} {}", brief(&got)));
        // spectrum mask, observed through an independent DFT of the result
        if got.len() == n {
            let g = fft_ref(&got);
            let tol = 16.0 * EPS * ((n as f64).log2() + 2.0) * norm(&f).max(1e-300);
            let bad = (0..n).find(|&k| {
                let w = if 2 * k > n { Z::default() } else { f[k] };
                !((g[k] - w).abs() <= tol)
            });
            c.check(bad.is_none(), "hilbert_analytic: spectrum mask", || format!("n={n} bin {bad:?}"));
        }
    }
    x.run("lengths", 200, |c| {
        let n = (c.idx % 70) as usize;
        one(c, n, false)
    });
    x.run("pow2", 300, |c| {
        let n = 1usize << c.rng.range(0, if MIRI { 5 } else { 12 });
        let h = c.rng.chance(1, 2);
        one(c, n, h)
    });
    x.run("refused", 100, |c| {
        let n = c.rng.logsize(1, 5000);
        one(c, n, false)
    });
    x.run("large", 1, |c| {
        let n = 1usize << if MIRI { 5 } else { c.rng.range(13, 18) };
        one(c, n, false)
    });
}

// ------------------------------------------------------------------ P19
fn cepstrum(c: &mut Case, n: usize) {
    let (pat, s) = msig(c, n);
    c.sig(&format!("cep {n}:{pat}"));
    let Some(r) = c.call("real_cepstrum", || kofft::cepstrum::real_cepstrum(&s)) else { return };
    if !n.is_power_of_two() {
        let want = if n == 0 { FftError::EmptyInput } else { FftError::NonPowerOfTwoNoStd };
        c.check(matches!(&r, Err(e) if *e == want), "real_cepstrum: unsupported length not refused", || format!("n={n} {:?}", r.as_ref().err()));
        return;
    }
    let y = match r {
        Ok(y) => y,
        Err(e) => return c.fail("real_cepstrum: refused", format!("n={n} {e:?}")),
    };
    c.check(y.len() == n && y.iter().all(|v| v.is_finite()), "real_cepstrum: length or finiteness", || format!("n={n} {}", y.len()));
    let x64 = r64(&s);
    let f = fft_ref(&rz(&x64));
    let lg = ((n as f64).log2() + 2.0).max(2.0);
    let d = 2.0 * EPS * lg * rnorm(&x64);
    let mut logs = vec![0.0; n];
    let mut de = 0.0f64;
    for k in 0..n {
        let m = f[k].abs();
        if m == 0.0 && d == 0.0 {
            logs[k] = 1e-12f64.ln();
            continue;
        }
        if m < 4.0 * d {
            // this bin cancels: its logarithm is not determined by rounding-error arithmetic
            c.cover("cepstrum: ill-conditioned bin, value not judged");
            return;
        }
        logs[k] = (m + 1e-12).ln();
        de += 2.0 * d / m;
    }
    let want = ifft_ref(&logs.iter().map(|&v| z(v, 0.0)).collect::<Vec<_>>());
    let rms = rnorm(&logs) / (n as f64).sqrt();
    let maxl = logs.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let tol = de / n as f64 + 4.0 * EPS * (lg * rms + maxl) + 1e-12;
    c.cover("cepstrum: judged");
    for k in 0..n.min(y.len()) {
        c.ev();
        let e = (y[k] as f64 - want[k].re).abs();
        c.ratio("cepstrum", e / tol, || format!("n={n} k={k} {pat}"));
        if !(e <= tol) {
            c.fail("real_cepstrum: wrong value", format!("n={n} k={k} got {} want {} tolerance {tol:.2e}", y[k], want[k].re));
            return;
        }
    }
    c.sample(format!("cepstrum n={n} {pat} c0={} c1={:?}", y[0], y.get(1)));
}
fn mel_points(sr: f64, nf: usize) -> Vec<f64> {
    let top = 2595.0 * (1.0 + sr / 2.0 / 700.0).log10();
    (0..nf + 2).map(|i| 700.0 * (10f64.powf(top * i as f64 / (nf + 1) as f64 / 2595.0) - 1.0)).collect()
}
fn mags(c: &mut Case, n: usize) -> Vec<f32> {
    let p = c.rng.below(4);
    (0..n)
        .map(|i| match p {
            0 => 1.0,
            1 => c.rng.f() as f32,
            2 => (10f64.powf(c.rng.uni(-3.0, 3.0))) as f32,
            _ => if i % 7 == 3 { 5.0 } else { 0.0 },
        })
        .collect()
}
fn mel(c: &mut Case) {
    let large = !MIRI && c.rng.chance(1, 25);
    let n = if large { c.rng.logsize(600, 40000) } else { c.rng.range(0, if MIRI { 40 } else { 600 }) };
    let nf = if large { c.rng.range(1, 300) } else { c.rng.range(0, if MIRI { 10 } else { 60 }) };
    mel_of(c, n, nf)
}
fn mel_of(c: &mut Case, n: usize, nf: usize) {
    // the answer depends on the arguments alone: the same shape at several rates in a row
    for _ in 0..if n > 600 { 1 } else { c.rng.range(1, 3) } {
        let sr = match c.rng.below(4) {
            0 => 10f64.powf(c.rng.uni(3.0, 6.0)) as f32,
            1 => c.rng.range(1000, 200_000) as f32,
            _ => *c.rng.pick(&[8000.0f32, 11025.0, 16000.0, 22050.0, 44100.0, 48000.0, 96000.0, 1000.0, 192000.0]),
        };
        mel_at(c, n, nf, sr);
    }
}

fn mel_at(c: &mut Case, n: usize, nf: usize, sr: f32) {
    let m = mags(c, n);
    c.sig(&format!("mel {n}:{nf}:{sr}"));
    let Some(e) = c.call("mel_filterbank", || kofft::cepstrum::mel_filterbank(&m, sr, nf)) else { return };
    if !c.check(e.len() == nf, "mel_filterbank: wrong number of energies", || format!("n={n} nf={nf} got {}", e.len())) {
        return;
    }
    // bin corners; a corner that falls on a bin edge up to rounding may go either way
    let corners: Vec<Vec<i64>> = mel_points(sr as f64, nf)
        .iter()
        .enumerate()
        .map(|(i, &f)| {
            let v = f * (n as f64 + 1.0) / sr as f64;
            if i == 0 {
                return vec![0];
            }
            let t = 60.0 * EPS * (v + 700.0 * (n as f64 + 1.0) / sr as f64) + 1e-6;
            let (a, b) = ((v - t).floor() as i64, (v + t).floor() as i64);
            (a.max(0)..=b).collect()
        })
        .collect();
    let mut nonzero = 0;
    for i in 0..nf {
        let mut ok = false;
        let mut wanted = vec![];
        for &l in &corners[i] {
            for &p in &corners[i + 1] {
                for &h in &corners[i + 2] {
                    let mut s = 0.0;
                    if l < p && p < h {
                        for k in l..h {
                            let wgt = if k < p { (k - l) as f64 / (p - l) as f64 } else { (h - k) as f64 / (h - p) as f64 };
                            s += wgt * m.get(k as usize).copied().unwrap_or(0.0) as f64;
                        }
                    }
                    wanted.push(s);
                    if (e[i] as f64 - s).abs() <= EPS * (8.0 + (h - l).max(0) as f64) * s.abs() {
                        ok = true;
                    }
                    if s != 0.0 {
                        nonzero += 1;
                    }
                }
            }
        }
        if !c.check(ok, "mel_filterbank: wrong energy", || format!("n={n} nf={nf} sr={sr} filter {i}: got {} want one of {wanted:?}", e[i])) {
            return;
        }
    }
    if nonzero > 0 {
        c.cover("mel: spectra with non-zero filters");
    }
    c.sample(format!("mel n={n} nf={nf} sr={sr} e={:?}", &e[..nf.min(3)]));
    // MFCC
    let nc = c.rng.range(0, nf + 2);
    let Some(r) = c.call("mfcc", || kofft::cepstrum::mfcc(&m, sr, nf, nc)) else { return };
    let nfr = c.rng.range(1, 4);
    let mut others: Vec<Vec<f32>> = (1..nfr)
        .map(|_| {
            let k = c.rng.range(0, 80);
            mags(c, k)
        })
        .collect();
    // spectra stay non-negative
    let (_, frames) = related_rows(&mut c.rng, m.clone(), nfr, |_| others.pop().unwrap_or_default(), |v, s| v * s.abs() as f32);
    let Some(rb) = c.call("mfcc_batch", || kofft::cepstrum::mfcc_batch(&frames, sr, nf, nc)) else { return };
    if nc > nf {
        c.check(matches!(&r, Err(FftError::InvalidValue)), "mfcc: too many coefficients not refused", || format!("nf={nf} nc={nc} {:?}", r.is_ok()));
        c.check(rb.is_err(), "mfcc_batch: too many coefficients not refused", || format!("nf={nf} nc={nc}"));
        return;
    }
    let (Ok(r), Ok(rb)) = (r, rb) else { return c.fail("mfcc: refused", format!("n={n} nf={nf} nc={nc}")) };
    c.check(rb.len() == frames.len(), "mfcc_batch: wrong number of frames", || format!("{} {}", rb.len(), frames.len()));
    for (fr, got) in frames.iter().zip(&rb).map(|(a, b)| (a, b)).chain([(&m, &r)]) {
        let Some(en) = c.call("mel_filterbank", || kofft::cepstrum::mel_filterbank(fr, sr, nf)) else { return };
        let l: Vec<f64> = en.iter().map(|&v| (v as f64 + 1e-12).ln()).collect();
        let want = crate::p_trig::reference(crate::p_trig::Tr::C2, &l);
        // the argument of each logarithm is itself rounded: an absolute error of EPS per term
        let tol = EPS * (6 * nf + 20) as f64 * l.iter().map(|v| v.abs() + 1.0).sum::<f64>();
        let bad = (0..nc).find(|&k| k >= got.len() || !((got[k] as f64 - want[k]).abs() <= tol));
        c.check(got.len() == nc && bad.is_none(), "mfcc: wrong coefficients", || format!("n={} nf={nf} nc={nc} k={bad:?} got {:?}", fr.len(), got.first()));
    }
}
pub fn p19(x: &mut Ctx) {
    x.run("cepstrum-lengths", 100, |c| {
        let n = (c.idx % 70) as usize;
        cepstrum(c, n)
    });
    x.run("cepstrum", 500, |c| {
        let n = 1usize << c.rng.range(0, if MIRI { 5 } else { 12 });
        cepstrum(c, n)
    });
    x.run("mel", 700, mel);
    // spectra and signals that sixteen bits cannot count
    x.run("cepstrum-large", 1, |c| {
        let n = 1usize << if MIRI { 5 } else { c.rng.range(13, 18) };
        cepstrum(c, n)
    });
    x.run("mel-large", 2, |c| {
        let n = if MIRI { 30 } else { *c.rng.pick(&[65535usize, 65536, 65537, 100_000, 131_072, 140_000, 262_145, 300_001]) };
        let nf = c.rng.logsize(1, 80);
        mel_of(c, n, nf)
    });
}

// ------------------------------------------------------------------ P20
fn bessel(x: f64) -> f64 {
    let y = x * x / 4.0;
    let (mut t, mut s, mut n) = (1.0, 1.0, 1.0);
    while t > s * 1e-17 {
        t *= y / (n * n);
        s += t;
        n += 1.0;
    }
    s
}
fn judge_w(c: &mut Case, name: &str, par: f64, w: &[f32], len: usize, periodic: bool, tol: f64, f: impl Fn(f64) -> f64) {
    c.sig(&format!("{name}:{len}"));
    c.cover(format!("window:{name}"));
    if !c.check(w.len() == len, &format!("{name}: wrong length"), || format!("asked {len} got {}", w.len())) {
        return;
    }
    for i in 0..len {
        c.ev();
        let want = f(i as f64);
        let e = (w[i] as f64 - want).abs();
        c.ratio(name, e / tol, || format!("len={len} par={par} i={i}"));
        if !(e <= tol) {
            return c.fail(format!("{name}: wrong sample"), format!("len={len} parameter {par} i={i} got {} want {want}", w[i]));
        }
        if !(w[i].is_finite() && (w[i] as f64) <= 1.0 + 8.0 * EPS && (w[i] as f64) >= -8.0 * EPS) {
            return c.fail(format!("{name}: out of range"), format!("len={len} parameter {par} i={i} got {}", w[i]));
        }
        let m = if periodic { (len - i) % len } else { len - 1 - i };
        if !((w[i] as f64 - w[m] as f64).abs() <= 2.0 * tol) {
            return c.fail(format!("{name}: not symmetric"), format!("len={len} parameter {par} i={i}: {} vs {}", w[i], w[m]));
        }
    }
    if len > 3 {
        c.sample(format!("{name} len={len} par={par} {:?}", &w[..4]));
    }
}
fn f_hann(l: f64) -> impl Fn(f64) -> f64 {
    move |i| 0.5 - 0.5 * (2.0 * PI * i / l).cos()
}
fn f_hamming(l: f64) -> impl Fn(f64) -> f64 {
    move |i| 0.54 - 0.46 * (2.0 * PI * i / l).cos()
}
fn f_blackman(l: f64) -> impl Fn(f64) -> f64 {
    move |i| 0.42 - 0.5 * (2.0 * PI * i / l).cos() + 0.08 * (4.0 * PI * i / l).cos()
}
fn windows(c: &mut Case, len: usize) {
    use kofft::{window as w, window_more as m};
    let l = len as f64;
    let t = 16.0 * EPS;
    if let Some(v) = c.call("hann", || w::hann(len)) {
        judge_w(c, "hann", 0.0, &v, len, true, t, f_hann(l));
    }
    if let Some(v) = c.call("hamming", || w::hamming(len)) {
        judge_w(c, "hamming", 0.0, &v, len, true, t, f_hamming(l));
    }
    if let Some(v) = c.call("blackman", || w::blackman(len)) {
        judge_w(c, "blackman", 0.0, &v, len, true, t, f_blackman(l));
    }
    let nn = l - 1.0;
    let beta = *c.rng.pick(&[0.0f32, 0.5, 2.0, 5.0, 8.6, 14.0, 30.0, 60.0]) * if c.rng.chance(1, 2) { 1.0 } else { c.rng.uni(0.2, 1.4) as f32 };
    if let Some(v) = c.call("kaiser", || w::kaiser(len, beta)) {
        let b = beta as f64;
        judge_w(c, "kaiser", b, &v, len, false, EPS * (8.0 + 2.0 * b), |i| {
            if len <= 1 {
                return 1.0;
            }
            let r = 2.0 * i / nn - 1.0;
            bessel(b * (1.0 - r * r).max(0.0).sqrt()) / bessel(b)
        });
    }
    let alpha = match c.rng.below(8) {
        0 => 0.0f32,
        1 => 1.0,
        2 => 0.5,
        3 => -0.3,
        4 => 1.7,
        5 => c.rng.uni(0.001, 0.05) as f32,
        _ => c.rng.uni(0.0, 1.0) as f32,
    };
    if let Some(v) = c.call("tukey", || m::tukey(len, alpha)) {
        let a = alpha.clamp(0.0, 1.0) as f64;
        judge_w(c, "tukey", alpha as f64, &v, len, false, EPS * (16.0 + 8.0 / a.max(1e-4)), |i| {
            if len <= 1 || a == 0.0 {
                return 1.0;
            }
            let d = i.min(nn - i);
            if d < a * nn / 2.0 { 0.5 * (1.0 + (PI * (2.0 * d / (a * nn) - 1.0)).cos()) } else { 1.0 }
        });
    }
    if let Some(v) = c.call("bartlett", || m::bartlett(len)) {
        judge_w(c, "bartlett", 0.0, &v, len, false, t, |i| if len <= 1 { 1.0 } else { 1.0 - (2.0 * i / nn - 1.0).abs() });
    }
    if let Some(v) = c.call("bohman", || m::bohman(len)) {
        judge_w(c, "bohman", 0.0, &v, len, false, t, |i| {
            if len <= 1 {
                return 1.0;
            }
            let x = (2.0 * i / nn - 1.0).abs();
            (1.0 - x) * (PI * x).cos() + (PI * x).sin() / PI
        });
    }
    if let Some(v) = c.call("nuttall", || m::nuttall(len)) {
        judge_w(c, "nuttall", 0.0, &v, len, false, t, |i| {
            if len <= 1 {
                return 1.0;
            }
            let x = 2.0 * PI * i / nn;
            0.355768 - 0.487396 * x.cos() + 0.144232 * (2.0 * x).cos() - 0.012604 * (3.0 * x).cos()
        });
    }
}
macro_rules! stack_windows {
    ($c:ident, $($n:literal)*) => {$({
        let mut o = [f32::NAN; $n];
        $c.call("hann_inplace_stack", || kofft::window::hann_inplace_stack(&mut o));
        judge_w($c, "hann_inplace_stack", 0.0, &o, $n, true, 16.0 * EPS, f_hann($n as f64));
        let mut o = [f32::NAN; $n];
        $c.call("hamming_inplace_stack", || kofft::window::hamming_inplace_stack(&mut o));
        judge_w($c, "hamming_inplace_stack", 0.0, &o, $n, true, 16.0 * EPS, f_hamming($n as f64));
        let mut o = [f32::NAN; $n];
        $c.call("blackman_inplace_stack", || kofft::window::blackman_inplace_stack(&mut o));
        judge_w($c, "blackman_inplace_stack", 0.0, &o, $n, true, 16.0 * EPS, f_blackman($n as f64));
    })*};
}
pub fn p20(x: &mut Ctx) {
    x.run("small", 400, |c| {
        let n = (c.idx % 130) as usize;
        windows(c, n)
    });
    x.run("rand", 200, |c| {
        let n = c.rng.logsize(1, if MIRI { 30 } else { 20000 });
        windows(c, n)
    });
    x.run("large", 2, |c| {
        let n = *c.rng.pick(&[32767usize, 32768, 65535, 65536, 65537, 100_000, 131_072, 262_145]);
        windows(c, if MIRI { 31 } else { n })
    });
    x.run("stack", 1, |c| {
        stack_windows!(c, 0 1 2 3 4 5 7 8 9 15 16 17 31 32 33 63 64 100 127 128 255 256 500 512 777 1000 1024);
    });
}

// ------------------------------------------------------------------ P21
