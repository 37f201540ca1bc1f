//! P15 wavelets.
use crate::fw::*;
use crate::oracle::*;
use kofft::wavelet as w;

const EPS: f64 = f32::EPSILON as f64;
type Fwd = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
type Inv = fn(&[f32], &[f32]) -> Vec<f32>;
type FwdM = fn(&[f32], usize) -> (Vec<f32>, Vec<Vec<f32>>);
type InvM = fn(&[f32], &[Vec<f32>]) -> Vec<f32>;
struct Fam {
    name: &'static str,
    taps: usize,
    /// average of a constant 1 (low-pass gain)
    gain: f64,
    fwd: Fwd,
    inv: Inv,
    fwd_m: FwdM,
    inv_m: InvM,
    /// perfect-reconstruction slack of the published filter tables
    slack: f64,
}
fn families() -> Vec<Fam> {
    let s2 = std::f64::consts::SQRT_2;
    vec![
        Fam { name: "haar", taps: 2, gain: 1.0, fwd: w::haar_forward, inv: w::haar_inverse, fwd_m: w::haar_forward_multi, inv_m: w::haar_inverse_multi, slack: 0.0 },
        Fam { name: "db2", taps: 4, gain: s2, fwd: w::db2_forward, inv: w::db2_inverse, fwd_m: w::db2_forward_multi, inv_m: w::db2_inverse_multi, slack: 1e-6 },
        Fam { name: "db4", taps: 8, gain: s2, fwd: w::db4_forward, inv: w::db4_inverse, fwd_m: w::db4_forward_multi, inv_m: w::db4_inverse_multi, slack: 1e-6 },
        Fam { name: "sym4", taps: 8, gain: s2, fwd: w::sym4_forward, inv: w::sym4_inverse, fwd_m: w::sym4_forward_multi, inv_m: w::sym4_inverse_multi, slack: 1e-6 },
        Fam { name: "coif1", taps: 6, gain: s2, fwd: w::coif1_forward, inv: w::coif1_inverse, fwd_m: w::coif1_forward_multi, inv_m: w::coif1_inverse_multi, slack: 1e-6 },
    ]
}
fn wsig(c: &mut Case, n: usize) -> (&'static str, Vec<f32>) {
    let (p, mut s) = rsignal::<f32>(&mut c.rng, n);
    if c.rng.chance(3, 4) {
        let m = s.iter().fold(0.0f32, |m, v| m.max(v.abs()));
        if m > 0.0 {
            s.iter_mut().for_each(|v| *v /= m);
        }
    }
    (p, s)
}
fn amax(x: &[f32]) -> f64 {
    x.iter().fold(0.0, |m: f64, v| m.max(v.abs() as f64))
}
/// Values close, or both outside the finite range.
fn close(a: &[f32], b: &[f32], scale: f64) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(&x, &y)| {
            (!x.is_finite() && !y.is_finite()) || (x as f64 - y as f64).abs() <= 64.0 * EPS * scale + 64.0 * EPS * y.abs() as f64
        })
}
fn single(c: &mut Case, f: &Fam, x: &[f32]) {
    let n = x.len();
    let m = amax(x);
    let Some((a, d)) = c.call(&format!("{}_forward", f.name), || (f.fwd)(x)) else { return };
    if !c.check(a.len() == n / 2 && d.len() == n / 2, &format!("{}_forward: wrong lengths", f.name), || format!("n={n} {} {}", a.len(), d.len())) {
        return;
    }
    if f.name == "haar" {
        for i in 0..n / 2 {
            let (p, q) = (x[2 * i] as f64, x[2 * i + 1] as f64);
            let ok = (a[i] as f64 - (p + q) / 2.0).abs() <= 4.0 * EPS * m && (d[i] as f64 - (p - q) / 2.0).abs() <= 4.0 * EPS * m;
            if !c.check(ok, "haar_forward: wrong average or detail", || format!("n={n} i={i} {p} {q} -> {} {}", a[i], d[i])) {
                break;
            }
        }
    }
    let Some(r) = c.call(&format!("{}_inverse", f.name), || (f.inv)(&a, &d)) else { return };
    if !c.check(r.len() == n / 2 * 2, &format!("{}_inverse: wrong length", f.name), || format!("n={n} got {}", r.len())) {
        return;
    }
    let (lo, hi) = if f.name == "haar" { (0, n / 2 * 2) } else { (f.taps, (n / 2 * 2).saturating_sub(f.taps)) };
    let tol = (40.0 * EPS + f.slack) * m;
    for i in lo..hi {
        c.ev();
        let e = (r[i] as f64 - x[i] as f64).abs();
        if tol > 0.0 {
            c.ratio(&format!("reconstruction {}", f.name), e / tol, || format!("n={n} i={i}"));
        }
        if !(e <= tol) {
            c.fail(format!("{}: signal not reconstructed", f.name), format!("n={n} i={i} got {} want {} tolerance {tol:.2e}", r[i], x[i]));
            break;
        }
    }
}
fn multi(c: &mut Case, f: &Fam, x: &[f32], levels: usize) {
    let n = x.len();
    let what = format!("{}_forward_multi", f.name);
    let Some((a, ds)) = c.call(&what, || (f.fwd_m)(x, levels)) else { return };
    let generic = c.call("multi_level_forward", || w::multi_level_forward(x, levels, f.fwd));
    // reference: repeated single-level transforms, an odd level completed with its last sample
    let mut cur = x.to_vec();
    let mut want = vec![];
    for _ in 0..levels {
        if cur.len() % 2 == 1 {
            cur.push(*cur.last().unwrap());
        }
        let (p, q) = (f.fwd)(&cur);
        want.push(q);
        cur = p;
    }
    let sc = |l: usize| amax(x) * 2f64.powf(0.5 * l as f64 + 2.0);
    let same = |a: &[f32], ds: &[Vec<f32>]| close(a, &cur, sc(levels)) && ds.len() == levels && ds.iter().zip(&want).enumerate().all(|(l, (g, w))| close(g, w, sc(l)));
    c.check(same(&a, &ds), &format!("{what}: differs from repeated single levels"), || format!("n={n} levels={levels} details {:?} approx {}", ds.iter().map(|d| d.len()).take(12).collect::<Vec<_>>(), a.len()));
    if let Some((a, ds)) = generic {
        c.check(same(&a, &ds), "multi_level_forward: differs from repeated single levels", || format!("{} n={n} levels={levels}", f.name));
    }
    // inverse
    let what = format!("{}_inverse_multi", f.name);
    let Some(r) = c.call(&what, || (f.inv_m)(&a, &ds)) else { return };
    let mut cur = a.clone();
    for d in ds.iter().rev() {
        cur.truncate(d.len());
        cur = (f.inv)(&cur, d);
    }
    c.check(close(&r, &cur, sc(levels)), &format!("{what}: differs from repeated single levels"), || format!("n={n} levels={levels} lengths {} {}", r.len(), cur.len()));
    if let Some(g) = c.call("multi_level_inverse", || w::multi_level_inverse(&a, &ds, f.inv)) {
        c.check(close(&g, &cur, sc(levels)), "multi_level_inverse: differs from repeated single levels", || format!("{} n={n} levels={levels}", f.name));
    }
    if levels > 0 {
        c.check(r.len() == n.div_ceil(2) * 2 || n == 0, &format!("{what}: wrong length"), || format!("n={n} levels={levels} got {}", r.len()));
    }
    if f.name == "haar" {
        let tol = EPS * amax(x) * (8 + 4 * levels.min(64)) as f64;
        let bad = (0..n).find(|&i| i >= r.len() || !((r[i] as f64 - x[i] as f64).abs() <= tol));
        c.check(bad.is_none(), "haar multi-level: signal not reconstructed", || format!("n={n} levels={levels} i={bad:?}"));
    } else if levels <= 6 {
        // every level adds a margin of `taps` samples of its own scale at each edge
        let margin = f.taps << levels;
        let tol = (40.0 * EPS + 2.0 * f.slack) * (levels + 1) as f64 * amax(x) * 4.0;
        let odd = (0..levels).any(|l| (n >> l) & 1 == 1);
        if !odd {
            let bad = (margin..n.saturating_sub(margin)).find(|&i| i >= r.len() || !((r[i] as f64 - x[i] as f64).abs() <= tol));
            if n > 2 * margin {
                c.cover("multi-level interior reconstructions");
            }
            c.check(bad.is_none(), &format!("{} multi-level: interior not reconstructed", f.name), || format!("n={n} levels={levels} i={bad:?}"));
        }
    }
}
fn batches(c: &mut Case, f: &Fam) {
    // a few rows, or more than eight or sixteen bits can count
    let k = match c.rng.below(if cfg!(miri) { 1 } else { 150 }) {
        1..=5 => c.rng.logsize(100, 2000),
        6 if c.rng.chance(1, 10) => c.rng.range(65535, 66000),
        _ => c.rng.range(0, 4),
    };
    let mut xs: Vec<Vec<f32>> = vec![];
    for _ in 0..k {
        let n = c.rng.range(0, if k > 4 { 6 } else { 40 });
        let fresh = wsig(c, n).1;
        let r = related_row(&mut c.rng, &xs, fresh, |v, s| v * s as f32).1;
        xs.push(r);
    }
    let b: Option<(Vec<Vec<f32>>, Vec<Vec<f32>>)> = match f.name {
        "haar" => c.call("batch_forward", || w::batch_forward(&xs)),
        "db2" => c.call("db2_forward_batch", || w::db2_forward_batch(&xs)),
        _ => None,
    };
    if let Some((a, d)) = b {
        let ok = a.len() == k && d.len() == k && xs.iter().enumerate().all(|(i, x)| {
            let (p, q) = (f.fwd)(x);
            close(&a[i], &p, amax(x)) && close(&d[i], &q, amax(x))
        });
        c.check(ok, &format!("{} batch forward: differs from single", f.name), || format!("lengths {:?}", xs.iter().map(|x| x.len()).collect::<Vec<_>>()));
        let r = if f.name == "haar" { c.call("batch_inverse", || w::batch_inverse(&a, &d)) } else { c.call("db2_inverse_batch", || w::db2_inverse_batch(&a, &d)) };
        if let Some(r) = r {
            let ok = r.len() == k && (0..k).all(|i| close(&r[i], &(f.inv)(&a[i], &d[i]), amax(&xs[i])));
            c.check(ok, &format!("{} batch inverse: differs from single", f.name), || format!("k={k}"));
        }
    }
    let levels = c.rng.range(0, 6);
    if let Some((a, d)) = c.call("multi_level_forward_batch", || w::multi_level_forward_batch(&xs, levels, f.fwd)) {
        let ok = a.len() == k && d.len() == k && xs.iter().enumerate().all(|(i, x)| {
            let (p, q) = (f.fwd_m)(x, levels);
            let s = amax(x) * 16.0;
            close(&a[i], &p, s) && d[i].len() == q.len() && d[i].iter().zip(&q).all(|(g, w)| close(g, w, s))
        });
        c.check(ok, "multi_level_forward_batch: differs from single", || format!("{} levels={levels}", f.name));
        if let Some(r) = c.call("multi_level_inverse_batch", || w::multi_level_inverse_batch(&a, &d, f.inv)) {
            let ok = r.len() == k && (0..k).all(|i| close(&r[i], &(f.inv_m)(&a[i], &d[i]), amax(&xs[i]) * 16.0));
            c.check(ok, "multi_level_inverse_batch: differs from single", || format!("{} levels={levels}", f.name));
        }
    }
    // rows decomposed to different depths
    let own: Vec<usize> = (0..k).map(|_| c.rng.range(0, 6)).collect();
    let mut a = vec![];
    let mut d = vec![];
    for (x, &l) in xs.iter().zip(&own) {
        let Some((p, q)) = c.call(&format!("{}_forward_multi", f.name), || (f.fwd_m)(x, l)) else { return };
        a.push(p);
        d.push(q);
    }
    if let Some(r) = c.call("multi_level_inverse_batch", || w::multi_level_inverse_batch(&a, &d, f.inv)) {
        let ok = r.len() == k && (0..k).all(|i| close(&r[i], &(f.inv_m)(&a[i], &d[i]), amax(&xs[i]) * 16.0));
        c.check(ok, "multi_level_inverse_batch: rows of different depth", || format!("{} levels={own:?}", f.name));
    }
}
/// A constant signal: averages carry the low-pass gain, interior details vanish.
fn constant(c: &mut Case, f: &Fam) {
    let n = c.rng.range(2 * f.taps, 80);
    let v = c.rng.uni(-5.0, 5.0) as f32;
    let x = vec![v; n];
    let Some((a, d)) = c.call(&format!("{}_forward", f.name), || (f.fwd)(&x)) else { return };
    let tol = 2e-5 * v.abs() as f64;
    let ok = (0..(n / 2).saturating_sub(f.taps / 2)).all(|i| (a[i] as f64 - f.gain * v as f64).abs() <= tol && (d[i] as f64).abs() <= tol);
    c.check(ok, &format!("{}_forward: average and detail of a constant", f.name), || format!("n={n} v={v} avg {:?} detail {:?}", a.first(), d.first()));
}
pub fn p15(x: &mut Ctx) {
    for f in families() {
        let top = if cfg!(miri) { 12 } else { 150 };
        x.run(&format!("small-{}", f.name), top, |c| {
            let n = (c.idx % top) as usize;
            let (pat, s) = wsig(c, n);
            c.sig(&format!("{}:{n}:{pat}", f.name));
            c.sample(format!("{} n={n} {pat}", f.name));
            single(c, &f, &s);
            let l = c.rng.range(0, 9);
            c.cover(format!("levels:{l}"));
            multi(c, &f, &s, l);
        });
        x.run(&format!("rand-{}", f.name), 60, |c| {
            let n = c.rng.logsize(1, if cfg!(miri) { 40 } else { 6000 });
            let (pat, s) = wsig(c, n);
            let l = c.rng.range(0, if cfg!(miri) { 4 } else { 40 });
            c.sig(&format!("{}:{n}:{pat}:{l}", f.name));
            single(c, &f, &s);
            multi(c, &f, &s, l);
        });
        x.run(&format!("long-{}", f.name), 1, |c| {
            let n = if cfg!(miri) { 30 } else if c.rng.chance(1, 2) { c.rng.range(65530, 140_000) } else { *c.rng.pick(&[65536usize, 65537, 131_072, 131_074, 262_144, 262_146]) };
            let (pat, s) = wsig(c, n);
            let l = c.rng.range(0, 20);
            c.sig(&format!("{}:{n}:{pat}:{l}", f.name));
            single(c, &f, &s);
            multi(c, &f, &s, l);
        });
        x.run(&format!("deep-{}", f.name), 30, |c| {
            // powers of two reconstruct their interior over several levels
            let n = 1usize << c.rng.range(4, if cfg!(miri) { 5 } else { 11 });
            let (_, s) = wsig(c, n);
            let l = c.rng.range(1, 6);
            multi(c, &f, &s, l);
            c.sig(&format!("deep {} {n} {l}", f.name));
        });
        x.run(&format!("levels-{}", f.name), 12, |c| {
            // far more levels than the signal has: lengths stay consistent, no panic
            let n = c.rng.range(0, 20);
            let (_, s) = wsig(c, n);
            let l = c.rng.range(20, if cfg!(miri) { 30 } else { 3000 });
            c.sig(&format!("levels {} {n} {l}", f.name));
            if let Some((a, d)) = c.call("many levels", || (f.fwd_m)(&s, l)) {
                c.check(a.len() == n.min(1) && d.len() == l, "many levels: wrong lengths", || format!("n={n} l={l} {} {}", a.len(), d.len()));
                c.call("many levels inverse", || (f.inv_m)(&a, &d));
            }
        });
        x.run(&format!("batch-{}", f.name), 30, |c| batches(c, &f));
        x.run(&format!("const-{}", f.name), 20, |c| constant(c, &f));
    }
}
