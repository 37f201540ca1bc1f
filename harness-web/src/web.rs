//! The exported functions against f64 models, and the page's script in node.
use crate::fw::*;
use crate::oracle::*;
use kofft::visual::spectrogram::{self as sp, Colormap as K};
use std::f64::consts::PI;
use web_spectrogram as w;

const EPS: f64 = f32::EPSILON as f64;
const WIN: usize = 1024;
const HOP: usize = 512;
const MAPS: [(K, &str); 7] = [(K::Fire, "fire"), (K::Legacy, "legacy"), (K::Gray, "gray"), (K::Viridis, "viridis"), (K::Plasma, "plasma"), (K::Inferno, "inferno"), (K::Rainbow, "rainbow")];
fn exported(k: K) -> w::Colormap {
    match k {
        K::Fire => w::Colormap::Fire,
        K::Legacy => w::Colormap::Legacy,
        K::Gray => w::Colormap::Gray,
        K::Viridis => w::Colormap::Viridis,
        K::Plasma => w::Colormap::Plasma,
        K::Inferno => w::Colormap::Inferno,
        _ => w::Colormap::Rainbow,
    }
}
/// Amplitudes that survive squaring in f32.
fn sig(rng: &mut Rng, n: usize) -> (&'static str, Vec<f32>) {
    let (p, mut s) = rsignal::<f32>(rng, n);
    let m = s.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    if m > 0.0 && !(1e-9..1e9).contains(&m) {
        s.iter_mut().for_each(|v| *v /= m);
    }
    if m > 0.0 && rng.chance(1, 4) {
        let a = *rng.pick(&[1e-9f32, 1e-5, 1e-3, 128.0, 32768.0]);
        s.iter_mut().for_each(|v| *v *= a / m.min(1e9));
    }
    (p, s)
}

// ------------------------------------------------------------------ streaming rows
/// What the front end is to show: rows of the samples pushed since the last reset.
struct Model {
    all: Vec<f32>,
    rows: usize,
    max: f64,
    max_err: f64,
    map: K,
}
impl Model {
    fn new() -> Self {
        Model { all: vec![], rows: 0, max: 1e-12, max_err: 0.0, map: K::Rainbow }
    }
    /// Checks the answer to one push; `judge` looks at the colours as well.
    fn push(&mut self, c: &mut Case, part: &[f32], got: &[u8], judge: bool) -> bool {
        self.all.extend_from_slice(part);
        let at = self.rows * HOP;
        let due = self.all.len() - at >= WIN;
        let ctx = format!("row {} of {} samples, {} pushed", self.rows, self.all.len(), part.len());
        if !due {
            return c.check(got.is_empty(), "compute_frame: a row before its samples", || ctx);
        }
        if !c.check(got.len() == WIN / 2 * 4, "compute_frame: no full row although its samples are there", || format!("{ctx}: {} bytes", got.len())) {
            return false;
        }
        self.rows += 1;
        if !judge {
            return true;
        }
        let x: Vec<f64> = (0..WIN).map(|i| self.all[at + i] as f64 * (0.5 - 0.5 * (2.0 * PI * i as f64 / WIN as f64).cos())).collect();
        let amp = rnorm(&self.all[at..at + WIN].iter().map(|&v| v as f64).collect::<Vec<_>>());
        let err = EPS * amp * (WIN as f64).sqrt() * 24.0 + 1e-30;
        let f = fft_ref(&rz(&x));
        self.max_err = self.max_err.max(err);
        for k in 0..WIN / 2 {
            c.ev();
            let m = f[k].abs();
            self.max = self.max.max(m);
            let (hi, lo) = ((m + err) / (self.max - self.max_err).max(m + err).max(1e-12), (m - err).max(0.0) / (self.max + self.max_err));
            let p = &got[4 * k..4 * k + 4];
            if !c.check(p[3] == 255, "compute_frame: pixel not opaque", || format!("{ctx} bin {k}: {p:?}")) {
                return false;
            }
            let t = |r: f64| if r <= 0.0 { 0.0 } else { ((20.0 * r.log10()).clamp(-80.0, 0.0) + 80.0) / 80.0 };
            let (a, b) = ((t(lo) - 2e-5).max(0.0), (t(hi) + 2e-5).min(1.0));
            if b - a > 0.02 {
                c.cover("pixels too faint to judge");
                continue;
            }
            // The palettes are continuous: any colour between those of the ends and the stops inside.
            let cols: Vec<[u8; 3]> = (0..=8).map(|i| sp::map_color_u8((a + (b - a) * i as f64 / 8.0) as f32, self.map)).collect();
            let ok = (0..3).all(|j| {
                let (l, h) = cols.iter().fold((255, 0), |(l, h), v| (v[j].min(l), v[j].max(h)));
                (l as i32 - 3..=h as i32 + 3).contains(&(p[j] as i32))
            });
            if !c.check(ok, "compute_frame: wrong colour", || format!("{ctx} bin {k} magnitude {m} maximum {} {:?}: got {p:?} want about {:?}", self.max, self.map, cols[4])) {
                return false;
            }
        }
        true
    }
}
fn chunk(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => *rng.pick(&[1usize, 511, 512, 513, 1023, 1024, 1025, 1536]),
        2 => rng.range(1000, 6000),
        3 | 4 => HOP,
        _ => rng.range(1, 700),
    }
}
/// One stream: samples in chunks of any size, colour changes and resets in between.
fn session(c: &mut Case, steps: usize) {
    c.call("reset_state", w::reset_state);
    let mut m = Model::new();
    let len = c.rng.logsize(500, 40000);
    let (pat, s) = sig(&mut c.rng, len);
    let mut at = 0;
    c.sig(&format!("stream {len}:{pat}:{steps}"));
    let fixed = if c.rng.chance(1, 3) { Some(chunk(&mut c.rng).max(1)) } else { None };
    let mut drain = 0;
    for _ in 0..steps {
        match c.rng.below(40) {
            0 => {
                c.call("reset_state", w::reset_state);
                m = Model::new();
                c.cover("reset within a stream");
            }
            1 | 2 => {
                let (k, n) = *c.rng.pick(&MAPS);
                let n = if c.rng.chance(1, 3) { n.to_uppercase() } else { n.to_string() };
                c.call("set_colormap", || w::set_colormap(&n));
                m.map = k;
                c.cover(format!("map:{k:?}"));
            }
            3 => drain = c.rng.range(1, 12),
            _ => {}
        }
        let n = if drain > 0 {
            drain -= 1;
            0
        } else {
            fixed.unwrap_or_else(|| chunk(&mut c.rng))
        };
        let part: Vec<f32> = (0..n).map(|i| s[(at + i) % len]).collect();
        at += n;
        let Some(got) = c.call("compute_frame", || w::compute_frame(&part)) else { return };
        if !m.push(c, &part, &got, true) {
            return;
        }
        if m.all.len() > 400_000 {
            break;
        }
    }
    c.sample(format!("{pat} {} rows from {} samples", m.rows, m.all.len()));
}
pub fn stream(c: &mut Case) {
    let steps = c.rng.logsize(3, if c.full() { 300 } else { 80 });
    session(c, steps);
    if c.idx % 60 == 7 {
        // a long recording, judged now and then
        c.call("reset_state", w::reset_state);
        let mut m = Model::new();
        let s = sig(&mut c.rng, 5000).1;
        let rows = if c.idx % 120 == 7 { 66_000 } else { c.rng.range(2000, 9000) };
        let mut first = true;
        let mut tail: Vec<f32> = vec![];
        for r in 0..rows {
            let n = if first { WIN } else { HOP };
            first = false;
            let part: Vec<f32> = (0..n).map(|i| s[(r * HOP + i * 3) % s.len()]).collect();
            let Some(got) = c.call("compute_frame", || w::compute_frame(&part)) else { return };
            tail.extend(&part);
            if tail.len() > WIN {
                tail.drain(..tail.len() - WIN);
            }
            // the running maximum needs every early row; the signal repeats, so later rows add nothing
            let judge = r < 700 || r % 997 == 0 || (65530..65540).contains(&r);
            m.all = tail.clone();
            m.rows = 0;
            if !m.push(c, &[], &got, judge) {
                return;
            }
        }
        c.cover("long recordings");
        c.sig(&format!("long {rows}"));
    }
}
/// Streams of several threads do not disturb each other.
pub fn threads(c: &mut Case) {
    let k = c.rng.range(2, 6);
    let seeds: Vec<u64> = (0..k).map(|_| c.rng.u64()).collect();
    let tier = c.tier;
    let done: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = seeds
            .iter()
            .map(|&v| {
                s.spawn(move || {
                    let mut c = Case { rng: Rng::new(v), kind: "thread".into(), idx: 0, tier, evals: 0, sigs: vec![], cover: vec![], worst: vec![], viol: vec![], samples: vec![], quiet: true };
                    session(&mut c, 30);
                    (c.evals, c.sigs, c.viol)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join()).collect()
    });
    for d in done {
        match d {
            Ok((e, s, v)) => {
                c.evals += e;
                c.sigs.extend(s);
                for (a, b) in v {
                    c.fail(format!("{a} (threads)"), b);
                }
            }
            Err(_) => c.fail("panic in a streaming thread", ""),
        }
    }
}

// ------------------------------------------------------------------ exported functions
pub fn exports(c: &mut Case) {
    let vast = c.idx % 60 < 4; // one long input per kind
    let n = if vast { c.rng.range(66_000, 150_000) } else { c.rng.logsize(1, 3000) };
    let (pat, x) = sig(&mut c.rng, n);
    let x64 = r64(&x);
    c.sig(&format!("exports {n}:{pat}"));
    match c.idx % 5 {
        0 => {
            let win = if c.rng.chance(1, 2) { 1usize << c.rng.range(0, 9) } else { c.rng.range(1, 200) };
            let hop = if vast { 1 } else { c.rng.range((n / 400).max(1), win.max(n / 400) + 4) };
            let win = if vast { win.min(16) } else { win };
            let Some(r) = c.call("stft_magnitudes", || w::stft_magnitudes(&x, win, hop).ok()) else { return };
            let Some(r) = r else { return c.fail("stft_magnitudes: refused", format!("n={n} win={win} hop={hop}")) };
            let (h, frames) = (win / 2, n.div_ceil(hop));
            let mags = r.mags();
            if !c.check(r.width() == frames && r.height() == h && mags.len() == frames * h, "stft_magnitudes: wrong shape", || format!("n={n} win={win} hop={hop}: {} x {} with {} values", r.width(), r.height(), mags.len())) {
                return;
            }
            let top = mags.iter().fold(0.0f32, |m, &v| m.max(v));
            c.check((top - r.max_mag()).abs() <= 4.0 * f32::EPSILON * top, "stft_magnitudes: wrong maximum", || format!("{} {top}", r.max_mag()));
            for f in 0..frames {
                let at = |i: usize| x64.get(f * hop + i).copied().unwrap_or(0.0);
                let fr: Vec<f64> = (0..win).map(|i| at(i) * (0.5 - 0.5 * (2.0 * PI * i as f64 / win as f64).cos())).collect();
                let d = fft_ref(&rz(&fr));
                let amp = (0..win).map(|i| at(i).powi(2)).sum::<f64>().sqrt();
                let tol = EPS * amp * (win as f64).sqrt() * (2.0 * ((win as f64).log2() + 2.0)) + 1e-30;
                for k in 0..h {
                    let g = mags[f * h + k] as f64;
                    if !c.check((g - d[k].abs()).abs() <= tol, "stft_magnitudes: wrong magnitude", || format!("n={n} win={win} hop={hop} frame {f} bin {k}: got {g} want {}", d[k].abs())) {
                        return;
                    }
                }
            }
        }
        1 => {
            let (_, y) = sig(&mut c.rng, n);
            let Some(r) = c.call("fft_split", || w::fft_split(&x, &y).ok()) else { return };
            let Some(r) = r else { return c.fail("fft_split: refused", format!("n={n}")) };
            let v: Vec<Z> = x.iter().zip(&y).map(|(&a, &b)| z(a as f64, b as f64)).collect();
            let want = fft_ref(&v);
            let (re, im) = (r.re(), r.im());
            if c.check(re.len() == n && im.len() == n, "fft_split: wrong length", || format!("n={n} {} {}", re.len(), im.len())) {
                let got: Vec<Z> = re.iter().zip(&im).map(|(&a, &b)| z(a as f64, b as f64)).collect();
                judge(c, "fft_split", "fft", &got, &want, EPS, (n as f64).sqrt() * norm(&v), 3.0);
            }
        }
        2 => {
            let x = &x[..n.min(if vast { 3000 } else { 400 })];
            let n = x.len();
            let Some(g) = c.call("dct2", || w::dct2(x)) else { return };
            let s: f64 = x.iter().map(|v| v.abs() as f64).sum();
            // f32 angles up to n*pi carry an error of a few n units
            let tol = EPS * (10.0 * n as f64 + 16.0) * s;
            let bad = (0..n).find(|&k| {
                let want: f64 = (0..n).map(|i| x[i] as f64 * (PI * (((2 * i + 1) * k) % (4 * n)) as f64 / (2 * n) as f64).cos()).sum();
                k >= g.len() || !((g[k] as f64 - want).abs() <= tol)
            });
            c.check(g.len() == n && bad.is_none(), "dct2: wrong value", || format!("n={n} k={bad:?}"));
        }
        3 => {
            let Some(h) = c.call("haar_forward", || w::haar_forward(&x)) else { return };
            let (a, d) = (h.avg(), h.diff());
            let m = x64.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            let ok = a.len() == n / 2
                && d.len() == n / 2
                && (0..n / 2).all(|i| {
                    let (p, q) = (x64[2 * i], x64[2 * i + 1]);
                    (a[i] as f64 - (p + q) / 2.0).abs() <= 4.0 * EPS * m && (d[i] as f64 - (p - q) / 2.0).abs() <= 4.0 * EPS * m
                });
            c.check(ok, "haar_forward: wrong average or detail", || format!("n={n}"));
            let Some(b) = c.call("haar_inverse", || w::haar_inverse(&a, &d)) else { return };
            let ok = b.len() == n / 2 * 2 && (0..b.len()).all(|i| (b[i] as f64 - x64[i]).abs() <= 40.0 * EPS * m);
            c.check(ok, "haar_inverse: signal not reconstructed", || format!("n={n}"));
        }
        _ => {
            for _ in 0..60 {
                let (k, _) = *c.rng.pick(&MAPS);
                let t = if c.rng.chance(1, 6) { *c.rng.pick(&[0.0f32, 1.0, -2.0, 3.0, 0.5]) } else { c.rng.f() as f32 };
                let max = 10f64.powf(c.rng.uni(-4.0, 4.0)) as f32;
                let floor = -(*c.rng.pick(&[20.0f32, 60.0, 80.0, 120.0]));
                let mag = if c.rng.chance(1, 8) { 0.0 } else { max * 10f64.powf(c.rng.uni(floor as f64 / 18.0, 0.1)) as f32 };
                let near = |a: &[u8], b: &[u8]| a.len() == b.len() && a.iter().zip(b).all(|(&p, &q)| p.abs_diff(q) <= 1);
                let Some(g) = c.call("map_color_u8", || w::map_color_u8(t, exported(k))) else { return };
                c.check(near(&g, &sp::map_color_u8(t, k)), "map_color_u8: not the colour of that map", || format!("{k:?} {t}: {g:?}"));
                let Some(g) = c.call("color_from_magnitude_u8", || w::color_from_magnitude_u8(mag, max, floor, exported(k))) else { return };
                c.check(near(&g, &sp::color_from_magnitude_u8(mag, max, floor, k)), "color_from_magnitude_u8: not the colour of that magnitude", || format!("{k:?} {mag} {max} {floor}: {g:?}"));
                let Some(g) = c.call("magnitude_to_db", || w::magnitude_to_db(mag, max, floor)) else { return };
                let want = if mag <= 0.0 { floor as f64 } else { (20.0 * (mag as f64 / max as f64).log10()).max(floor as f64) };
                c.check((g as f64 - want).abs() <= 1e-4 + 16.0 * EPS * want.abs(), "magnitude_to_db: wrong value", || format!("{mag} {max} {floor}: {g} want {want}"));
                let Some(g) = c.call("db_scale", || w::db_scale(mag, max, -floor)) else { return };
                let ws = ((want - floor as f64) / -(floor as f64)).clamp(0.0, 1.0);
                c.check((g as f64 - ws).abs() <= 1e-4, "db_scale: wrong value", || format!("{mag} {max} {floor}: {g} want {ws}"));
            }
        }
    }
}

// ------------------------------------------------------------------ the page's script
pub fn page(c: &mut Case) {
    let seed = c.rng.u64() % 1_000_000_007;
    let script = concat!(env!("CARGO_MANIFEST_DIR"), "/page.mjs");
    let dir = std::env::temp_dir().join(format!("kverif-page-{}-{}", std::process::id(), c.idx));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let out = std::process::Command::new("timeout").args(["60", "node", script, "/repo/web-spectrogram", dir.to_str().unwrap(), &seed.to_string()]).output();
    let _ = std::fs::remove_dir_all(&dir);
    let out = match out {
        Ok(o) => o,
        Err(_) => return c.cover("node is not available: the page's script was not run"),
    };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut done = false;
    for l in text.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "EVALS" => c.evals += v.parse::<u64>().unwrap_or(0),
            "COVER" => c.cover(v),
            "SIG" => c.sig(v),
            "DONE" => done = true,
            "FAIL" => {
                let (a, b) = v.split_once(" | ").unwrap_or((v, ""));
                c.fail(a, format!("seed {seed}: {b}"));
            }
            _ => {}
        }
    }
    c.check(done, "page script: did not run to its end", || format!("seed {seed}: {}", String::from_utf8_lossy(&out.stderr).chars().take(1500).collect::<String>()));
}
