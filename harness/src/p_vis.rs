//! P21: spectrogram numerics and colour maps.
use crate::fw::*;
use crate::oracle::*;
use kofft::visual::spectrogram as sp;
use crate::p_misc::msig;
use sp::Colormap;
use std::f64::consts::PI;
const EPS: f64 = f32::EPSILON as f64;
const MIRI: bool = cfg!(miri);
const MAPS: [Colormap; 7] = [Colormap::Fire, Colormap::Legacy, Colormap::Gray, Colormap::Viridis, Colormap::Plasma, Colormap::Inferno, Colormap::Rainbow];

fn magnitudes(c: &mut Case) {
    let len = if c.rng.chance(1, 12) { 0 } else { c.rng.logsize(1, if MIRI { 60 } else { 3000 }) };
    let win = if c.rng.chance(1, 2) { 1usize << c.rng.range(0, if MIRI { 4 } else { 9 }) } else { c.rng.logsize(1, if MIRI { 12 } else { 300 }) };
    let hop = match c.rng.below(4) {
        0 => win,
        1 => (win / 2).max(1),
        2 => win + c.rng.range(1, 40),
        _ => c.rng.range(1, win),
    };
    if len / hop > 600 {
        return;
    }
    magnitudes_of(c, len, win, hop)
}
/// Long windows and many frames.
fn magnitudes_large(c: &mut Case) {
    if c.rng.chance(1, 2) {
        let win = *c.rng.pick(&[1000usize, 1024, 2048, 2049, 3000, 4096, 6000, 8192, 16384]) / if MIRI { 200 } else { 1 };
        let hop = *c.rng.pick(&[win, win / 2, win / 4, win + 3]);
        let len = c.rng.range(1, 4 * hop);
        magnitudes_of(c, len, win, hop)
    } else {
        let win = *c.rng.pick(&[1usize, 2, 4, 8, 10]);
        let hop = c.rng.range(1, win + 2);
        let len = hop * c.rng.logsize(300, if MIRI { 310 } else { 9000 }) + c.rng.below(3);
        magnitudes_of(c, len, win, hop)
    }
}
fn magnitudes_of(c: &mut Case, len: usize, win: usize, hop: usize) {
    let (pat, s) = msig(c, len);
    c.sig(&format!("{len}:{win}:{hop}:{pat}"));
    let Some(r) = c.call("stft_magnitudes", || sp::stft_magnitudes(&s, win, hop)) else { return };
    let (m, max) = match r {
        Ok(r) => r,
        Err(e) => return c.fail("stft_magnitudes: refused", format!("len={len} win={win} hop={hop} {e:?}")),
    };
    if !c.check(m.len() == len.div_ceil(hop) && m.iter().all(|f| f.len() == win / 2), "stft_magnitudes: wrong shape", || format!("len={len} win={win} hop={hop} frames {} height {:?}", m.len(), m.first().map(|f| f.len()))) {
        return;
    }
    let true_max = m.iter().flatten().fold(0.0f32, |a, &b| a.max(b));
    c.check((true_max as f64 - max as f64).abs() <= 2.0 * EPS * true_max as f64, "stft_magnitudes: reported maximum is not the maximum", || format!("{true_max} vs {max}"));
    for (f, col) in m.iter().enumerate() {
        let fr: Vec<f64> = (0..win)
            .map(|i| s.get(f * hop + i).copied().unwrap_or(0.0) as f64 * (0.5 - 0.5 * (2.0 * PI * i as f64 / win as f64).cos()))
            .collect();
        let d = fft_ref(&rz(&fr));
        let amp = (0..win).map(|i| s.get(f * hop + i).copied().unwrap_or(0.0) as f64).map(|v| v * v).sum::<f64>().sqrt();
        let tol = EPS * amp * (win as f64).sqrt() * (2.0 * ((win as f64).log2() + 2.0)) + 1e-30;
        for (k, &g) in col.iter().enumerate() {
            c.ev();
            let e = (g as f64 - d[k].abs()).abs();
            c.ratio("magnitude", e / tol, || format!("len={len} win={win} hop={hop} frame {f} bin {k}"));
            if !(e <= tol) {
                return c.fail("stft_magnitudes: wrong magnitude", format!("len={len} win={win} hop={hop} frame {f} bin {k}: got {g} want {}", d[k].abs()));
            }
        }
    }
    c.sample(format!("len={len} win={win} hop={hop} {pat} max={max}"));
}
fn decibels(c: &mut Case) {
    let max = if c.rng.chance(1, 10) { 0.0 } else { 10f64.powf(c.rng.uni(-6.0, 6.0)) as f32 };
    let floor = -(*c.rng.pick(&[1.0f32, 20.0, 60.0, 80.0, 96.0, 120.0, 200.0])) * if c.rng.chance(1, 2) { 1.0 } else { c.rng.uni(0.3, 1.5) as f32 };
    let mut last: Option<(f32, f32, f32)> = None;
    let mut ms: Vec<f32> = (0..60)
        .map(|_| match c.rng.below(10) {
            0 => 0.0,
            1 => max,
            2 => max * 1.5,
            _ => max * 10f64.powf(c.rng.uni(floor as f64 / 20.0 * 1.3, 0.3)) as f32,
        })
        .collect();
    ms.sort_by(|a, b| a.total_cmp(b));
    c.sig(&format!("db {max} {floor}"));
    for m in ms {
        let Some(d) = c.call("magnitude_to_db", || sp::magnitude_to_db(m, max, floor)) else { return };
        let Some(s) = c.call("db_scale", || sp::db_scale(m, max, -floor)) else { return };
        let want = if max <= 0.0 || m <= 0.0 { floor as f64 } else { (20.0 * (m as f64 / max as f64).log10()).max(floor as f64) };
        let tol = 1e-4 + 16.0 * EPS * want.abs();
        c.check((d as f64 - want).abs() <= tol, "magnitude_to_db: wrong value", || format!("mag {m} max {max} floor {floor}: got {d} want {want}"));
        if max > 0.0 {
            let ws = ((want + -(floor as f64)) / -(floor as f64)).clamp(0.0, 1.0);
            // ratios below 1e-10 (-200 dB) are clamped there
            let ok = (s as f64 - ws).abs() <= tol / -(floor as f64) + 8.0 * EPS || floor < -200.0 && ws < (1.0 + 200.0 / floor as f64) + 1e-3 && (s as f64) <= (1.0 + 200.0 / floor as f64) + 1e-3;
            c.check(ok, "db_scale: wrong value", || format!("mag {m} max {max} range {}: got {s} want {ws}", -floor));
        }
        c.check((0.0..=1.0).contains(&s) && d >= floor, "decibel conversion out of range", || format!("mag {m} max {max} floor {floor}: {d} {s}"));
        if let Some((lm, ld, ls)) = last {
            c.check(d as f64 >= ld as f64 - 1e-5 && s as f64 >= ls as f64 - 1e-6, "decibel conversion not monotone", || format!("mag {lm} -> {m}: {ld} -> {d}, {ls} -> {s}"));
        }
        last = Some((m, d, s));
    }
}
fn palette(m: Colormap) -> Option<Vec<(f64, [f64; 3])>> {
    let p = |v: &[(f64, [f64; 3])]| Some(v.to_vec());
    match m {
        Colormap::Fire => p(&[(0.0, [0., 0., 0.]), (0.25, [128., 0., 128.]), (0.5, [255., 165., 0.]), (0.75, [255., 255., 0.]), (1.0, [255., 255., 255.])]),
        Colormap::Legacy => p(&[(0.0, [64., 0., 64.]), (1.0, [255., 255., 224.])]),
        Colormap::Gray => p(&[(0.0, [0., 0., 0.]), (1.0, [255., 255., 255.])]),
        Colormap::Rainbow => p(&[(0.0, [0., 0., 0.]), (0.25, [0., 0., 255.]), (0.5, [0., 255., 255.]), (0.75, [255., 255., 0.]), (0.9, [255., 0., 0.]), (1.0, [255., 255., 255.])]),
        _ => None,
    }
}
fn want_color(m: Colormap, t: f64) -> [f64; 3] {
    if let Some(st) = palette(m) {
        let i = (0..st.len() - 2).find(|&i| t <= st[i + 1].0).unwrap_or(st.len() - 2);
        let (a, b) = (st[i], st[i + 1]);
        let l = (t - a.0) / (b.0 - a.0);
        return [0, 1, 2].map(|j| a.1[j] + (b.1[j] - a.1[j]) * l);
    }
    let g = match m {
        Colormap::Viridis => colorous::VIRIDIS,
        Colormap::Plasma => colorous::PLASMA,
        _ => colorous::INFERNO,
    };
    let k = g.eval_continuous(t);
    [k.r as f64, k.g as f64, k.b as f64]
}
fn colors(c: &mut Case) {
    let m = *c.rng.pick(&MAPS);
    c.cover(format!("map:{m:?}"));
    for j in 0..40 {
        let raw = match (j, c.rng.below(12)) {
            (0, _) => 0.0f32,
            (1, _) => 1.0,
            (_, 0) => c.rng.uni(-5.0, 0.0) as f32,
            (_, 1) => c.rng.uni(1.0, 6.0) as f32,
            (_, 2) => *c.rng.pick(&[0.25f32, 0.5, 0.75, 0.9, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX]),
            _ => c.rng.f() as f32,
        };
        let t = raw.clamp(0.0, 1.0) as f64;
        let Some(a) = c.call("map_color_u8", || sp::map_color_u8(raw, m)) else { return };
        let Some(b) = c.call("map_color_u16", || sp::map_color_u16(raw, m)) else { return };
        c.sig(&format!("{m:?}:{a:?}"));
        let w = want_color(m, t);
        // conversion to integers truncates or rounds: within one level
        let ok = (0..3).all(|i| (a[i] as f64 - w[i]).abs() <= 1.001);
        c.check(ok, &format!("{m:?}: wrong colour"), || format!("t={raw}: got {a:?} want {w:?}"));
        if t == 0.0 || t == 1.0 {
            let exact = (0..3).all(|i| (a[i] as f64 - w[i]).abs() < 0.5);
            c.check(exact, &format!("{m:?}: end colour"), || format!("t={raw}: got {a:?} want {w:?}"));
        }
        let ok = (0..3).all(|i| b[i] == a[i] as u16 * 257);
        c.check(ok, &format!("{m:?}: 16-bit colour does not correspond"), || format!("t={raw}: {a:?} {b:?}"));
        c.sample(format!("{m:?} t={raw} {a:?}"));
        // colour of a magnitude = colour of its clamped decibel position
        let floor = -(*c.rng.pick(&[60.0f32, 80.0, 100.0, 120.0]));
        let max = 10f64.powf(c.rng.uni(-3.0, 4.0)) as f32;
        let mag = if c.rng.chance(1, 8) { 0.0 } else { max * 10f64.powf(c.rng.uni(floor as f64 / 18.0, 0.1)) as f32 };
        let Some(g) = c.call("color_from_magnitude_u8", || sp::color_from_magnitude_u8(mag, max, floor, m)) else { return };
        let Some(h) = c.call("color_from_magnitude_u16", || sp::color_from_magnitude_u16(mag, max, floor, m)) else { return };
        let db = if mag <= 0.0 { floor as f64 } else { (20.0 * (mag as f64 / max as f64).log10()).clamp(floor as f64, 0.0) };
        let tt = (db - floor as f64) / -(floor as f64);
        let (w0, w1) = (want_color(m, (tt - 2e-5).clamp(0.0, 1.0)), want_color(m, (tt + 2e-5).clamp(0.0, 1.0)));
        let ok = (0..3).all(|i| g[i] as f64 >= w0[i].min(w1[i]) - 1.001 && g[i] as f64 <= w0[i].max(w1[i]) + 1.001);
        c.check(ok, &format!("{m:?}: wrong colour of a magnitude"), || format!("mag {mag} max {max} floor {floor}: got {g:?} want {w0:?}..{w1:?}"));
        c.check((0..3).all(|i| h[i] == g[i] as u16 * 257), &format!("{m:?}: 16-bit colour of a magnitude does not correspond"), || format!("{g:?} {h:?}"));
    }
}
fn bins(c: &mut Case) {
    let max = match c.rng.below(4) {
        0 => c.rng.range(0, 40),
        _ => c.rng.logsize(1, if MIRI { 60 } else { 6000 }),
    };
    c.sig(&format!("bins {max}"));
    // values beyond the scale fold into its last pixel: a few of them, or far more than the scale has
    let extra = if c.rng.chance(1, 4) { c.rng.logsize(1, if MIRI { 300 } else { 70000 }) } else { c.rng.range(0, 5) };
    let mut last = 0;
    let mut map = vec![];
    for b in 0..=max + extra {
        let Some(p) = c.call("map_bin_to_pixel", || sp::map_bin_to_pixel(b, max)) else { return };
        c.check(p <= max && p >= last, "map_bin_to_pixel: out of range or not monotone", || format!("bin {b} of {max}: {p} after {last}"));
        if b <= max && max > 0 {
            let v = max as f64 * (b as f64 + 1.0).ln() / (max as f64 + 1.0).ln();
            let t = 8.0 * EPS * v + 1e-9;
            let (lo, hi) = ((v - t).floor().max(0.0) as usize, ((v + t).floor() as usize).min(max));
            c.check((lo..=hi).contains(&p), "map_bin_to_pixel: not logarithmic", || format!("bin {b} of {max}: {p} want {lo}..{hi}"));
        }
        last = p;
        map.push(p);
    }
    c.check(map[0] == 0 && map[max] == max, "map_bin_to_pixel: does not reach both ends", || format!("max {max}: {} {}", map[0], map[max]));
    let n = if c.rng.chance(1, 2) { max + extra + 1 } else { c.rng.range(0, max + extra + 1) };
    let (_, v) = msig(c, n);
    let Some(o) = c.call("log_scale_bins", || sp::log_scale_bins(&v, max)) else { return };
    if !c.check(o.len() == max + 1, "log_scale_bins: wrong length", || format!("max {max} got {}", o.len())) {
        return;
    }
    let (mut s, mut k, mut ab) = (vec![0.0f64; max + 1], vec![0usize; max + 1], vec![0.0f64; max + 1]);
    for (b, &x) in v.iter().enumerate() {
        s[map[b]] += x as f64;
        ab[map[b]] += x.abs() as f64;
        k[map[b]] += 1;
    }
    for y in 0..=max {
        let w = if k[y] > 0 { s[y] / k[y] as f64 } else { 0.0 };
        let tol = EPS * (k[y] + 4) as f64 * ab[y] / k[y].max(1) as f64;
        if !c.check((o[y] as f64 - w).abs() <= tol, "log_scale_bins: not the mean of its bins", || format!("max {max} values {n} y={y} got {} want {w} of {} bins", o[y], k[y])) {
            return;
        }
    }
}
/// Scales too long to walk: the mapping at chosen bins, and the spread of values over a long scale.
fn long_bins(c: &mut Case) {
    let max = if MIRI { 500 } else { c.rng.logsize(6000, if c.full() { 1 << 23 } else { 1 << 20 }) };
    c.sig(&format!("long bins {max}"));
    let mut at: Vec<usize> = (0..300).map(|_| c.rng.range(0, max)).chain([0, 1, max - 1, max]).collect();
    at.extend([255, 256, 65534, 65535, 65536, 65537, 1 << 17].iter().filter(|b| **b <= max));
    at.sort();
    let mut last = 0;
    for &b in &at {
        let Some(p) = c.call("map_bin_to_pixel", || sp::map_bin_to_pixel(b, max)) else { return };
        c.check(p <= max && p >= last, "map_bin_to_pixel: out of range or not monotone", || format!("bin {b} of {max}: {p} after {last}"));
        let v = max as f64 * (b as f64 + 1.0).ln() / (max as f64 + 1.0).ln();
        let t = 8.0 * EPS * v + 1e-9;
        let (lo, hi) = ((v - t).floor().max(0.0) as usize, ((v + t).floor() as usize).min(max));
        if !c.check((lo..=hi).contains(&p), "map_bin_to_pixel: not logarithmic", || format!("bin {b} of {max}: {p} want {lo}..{hi}")) {
            return;
        }
        last = p;
    }
    c.check(last == max, "map_bin_to_pixel: does not reach both ends", || format!("max {max}: {last}"));
}
fn names(c: &mut Case) {
    for m in MAPS {
        let s = format!("{m:?}");
        let s = if c.rng.chance(1, 2) { s.to_lowercase() } else { s.to_uppercase() };
        let Some(p) = c.call("Colormap::parse", || Colormap::parse(&s)) else { return };
        c.check(p == m, "Colormap::parse: wrong palette", || format!("{s} -> {p:?}"));
    }
}
pub fn p21(x: &mut Ctx) {
    x.run("magnitudes", 300, magnitudes);
    x.run("magnitudes-large", 40, magnitudes_large);
    x.run("decibels", 200, decibels);
    x.run("colors", 300, colors);
    x.run("bins", 200, bins);
    x.run("long-bins", 20, long_bins);
    x.run("names", 4, names);
}
