//! P12 DCT I-IV, P13 DST I-IV, P14 Hartley.
use crate::engines::*;
use crate::fw::*;
use crate::oracle::*;
use kofft::{dct, dst, hartley};

const EPS: f64 = f32::EPSILON as f64;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tr {
    C1,
    C2,
    C3,
    C4,
    S1,
    S2,
    S3,
    S4,
    H,
}
use Tr::*;
/// cos and sin of 2*pi*m/p with exact index reduction.
fn cs(m: u128, p: u128) -> (f64, f64) {
    let r = root((m % p) as u64, p as u64);
    (r.re, -r.im)
}
pub fn reference(t: Tr, x: &[f64]) -> Vec<f64> {
    let n = x.len() as u64;
    if n == 0 {
        return vec![];
    }
    if t == C1 && n == 1 {
        return vec![2.0 * x[0]];
    }
    // the circle the type works on, each point evaluated once from its exact index
    let p = match t {
        C1 => 2 * (n - 1),
        S1 => 2 * (n + 1),
        C2 | C3 | S2 | S3 => 4 * n,
        C4 | S4 => 8 * n,
        H => n,
    };
    let circle: Vec<(f64, f64)> = (0..p).map(|m| cs(m as u128, p as u128)).collect();
    let (last, sine) = (n - 1, matches!(t, S1 | S2 | S3 | S4));
    (0..n)
        .map(|k| {
            // index = start + i * step
            let (start, step) = match t {
                C1 | H => (0, k),
                C2 => (k, 2 * k),
                C3 => (0, 2 * k + 1),
                C4 | S4 => (2 * k + 1, 2 * (2 * k + 1)),
                S1 => (k + 1, k + 1),
                S2 => (k + 1, 2 * (k + 1)),
                S3 => (2 * k + 1, 2 * k + 1),
            };
            let (mut m, step) = (start % p, step % p);
            let mut s = 0.0f64;
            for (i, &v) in x.iter().enumerate() {
                let (c, sn) = circle[m as usize];
                let e = match t {
                    C1 if i == 0 || i as u64 == last => 1.0,
                    C1 => 2.0,
                    C3 if i == 0 => 0.5,
                    S3 if i as u64 == last => 0.5,
                    _ => 1.0,
                };
                s += v * e * if t == H { c + sn } else if sine { sn } else { c };
                m += step;
                if m >= p {
                    m -= p;
                }
            }
            s
        })
        .collect()
}
fn unit(n: usize) -> f64 {
    EPS * (10 * n + 16) as f64
}
pub fn judge_r(c: &mut Case, what: &str, got: &[f32], x: &[f64], want: &[f64]) -> bool {
    c.ev();
    if got.len() != want.len() {
        c.fail(format!("{what}: wrong length"), format!("{} for {}", got.len(), want.len()));
        return false;
    }
    let tol = unit(x.len()) * x.iter().map(|v| v.abs()).sum::<f64>();
    for (k, (&g, &w)) in got.iter().zip(want).enumerate() {
        let d = (g as f64 - w).abs();
        if tol > 0.0 {
            c.ratio("definition", d / tol, || format!("{what} n={} k={k}", x.len()));
        }
        if !(d <= tol) {
            c.fail(format!("{what}: wrong values"), format!("n={} k={k}: got {g} want {w} tolerance {tol:.2e}", x.len()));
            return false;
        }
    }
    true
}
pub fn heap(t: Tr, x: &[f32]) -> Vec<f32> {
    match t {
        C1 => dct::dct1(x),
        C2 => dct::dct2(x),
        C3 => dct::dct3(x),
        C4 => dct::dct4(x),
        S1 => dst::dst1(x),
        S2 => dst::dst2(x),
        S3 => dst::dst3(x),
        S4 => dst::dst4(x),
        H => hartley::dht(x),
    }
}
fn batched(t: Tr, mc: bool, b: &mut [Vec<f32>]) {
    match (t, mc) {
        (C1, false) => dct::batch_i(b),
        (C2, false) => dct::batch_ii(b),
        (C3, false) => dct::batch_iii(b),
        (C4, false) => dct::batch_iv(b),
        (S1, false) => dst::batch_i(b),
        (S2, false) => dst::batch_ii(b),
        (S3, false) => dst::batch_iii(b),
        (S4, false) => dst::batch_iv(b),
        (H, false) => hartley::batch(b),
        (C1, true) => dct::multi_channel_i(b),
        (C2, true) => dct::multi_channel_ii(b),
        (C3, true) => dct::multi_channel_iii(b),
        (C4, true) => dct::multi_channel_iv(b),
        (S1, true) => dst::multi_channel_i(b),
        (S2, true) => dst::multi_channel_ii(b),
        (S3, true) => dst::multi_channel_iii(b),
        (S4, true) => dst::multi_channel_iv(b),
        (H, true) => hartley::multi_channel(b),
    }
}
/// (inverse, scale): inverse(transform(x)) = scale * x.
fn partner(t: Tr, n: usize) -> (Tr, f64) {
    let f = n as f64;
    match t {
        C1 => (C1, if n == 1 { 4.0 } else { 2.0 * (f - 1.0) }),
        C2 => (C3, f / 2.0),
        C3 => (C2, f / 2.0),
        C4 => (C4, f / 2.0),
        S1 => (S1, (f + 1.0) / 2.0),
        S2 => (S3, f / 2.0),
        S3 => (S2, f / 2.0),
        S4 => (S4, f / 2.0),
        H => (H, f),
    }
}
/// Scaling keeps amplitudes inside f32 after summation and round trips.
fn sig(c: &mut Case, n: usize) -> (&'static str, Vec<f32>) {
    let (p, s) = rsignal::<f32>(&mut c.rng, n);
    let m = s.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    if m > 1e10 || (m > 0.0 && m < 1e-13) {
        (p, s.iter().map(|v| v / m).collect())
    } else {
        (p, s)
    }
}
fn one(c: &mut Case, t: Tr, n: usize) {
    let (pat, x) = sig(c, n);
    let x64 = r64(&x);
    let want = reference(t, &x64);
    c.sig(&format!("{t:?}:{n}:{pat}"));
    c.cover(format!("type:{t:?}"));
    c.sample(format!("{t:?} n={n} {pat} expected={:?}", &want[..want.len().min(3)]));
    let what = format!("{t:?} heap");
    let Some(got) = c.call(&what, || heap(t, &x)) else { return };
    judge_r(c, &what, &got, &x64, &want);
    // inverse relation between the library's own transforms
    if n > 0 && got.iter().all(|v| v.is_finite()) {
        let (p, s) = partner(t, n);
        let what = format!("{p:?} inverts {t:?}");
        if let Some(back) = c.call(&what, || heap(p, &got)) {
            c.ev();
            let e = rnorm(&back.iter().zip(&x64).map(|(&b, &x)| b as f64 - s * x).collect::<Vec<_>>());
            let f = n as f64;
            // The first transform's error passes through the second one, whose norm is sqrt(|s|).
            let tol = unit(n) * (2.0 * s.sqrt() * f.sqrt() * x64.iter().map(|v| v.abs()).sum::<f64>() + 2.0 * f.sqrt() * want.iter().map(|v| v.abs()).sum::<f64>());
            c.ratio("inverse relation", if tol > 0.0 { e / tol } else { e }, || format!("{what} n={n}"));
            if back.len() != n || !(e <= tol) {
                c.fail(format!("{what}: not inverted"), format!("n={n} error norm {e:.3e} tolerance {tol:.3e}"));
            }
        }
    }
    // batches of several lengths, including empty members
    let k = c.rng.range(1, 4);
    let mut others: Vec<Vec<f32>> = (1..k)
        .map(|_| {
            let m = c.rng.range(0, 12);
            sig(c, m).1
        })
        .collect();
    let (_, orig) = related_rows(&mut c.rng, x.clone(), k, |_| others.pop().unwrap_or_default(), |v, s| v * s as f32);
    let mc = c.rng.chance(1, 2);
    let mut b = orig.clone();
    let what = format!("{t:?} {}", if mc { "multi-channel" } else { "batch" });
    if c.call(&what, || batched(t, mc, &mut b)).is_some() {
        for (o, g) in orig.iter().zip(&b) {
            let o = r64(o);
            let w = reference(t, &o);
            judge_r(c, &what, g, &o, &w);
        }
    }
    if t == C2 {
        let used = c.rng.below(3);
        let mut p = dct::DctPlanner::new();
        for _ in 0..used {
            let m = if c.rng.chance(1, 2) && n > 0 { kin(&mut c.rng, n, 2048) } else if STD { c.rng.range(1, 60) } else { 8 };
            let (mut i, mut o) = (vec![0.5; m], vec![0.0; m]);
            let _ = c.call("DctPlanner", || p.plan_dct2(m)(&mut i, &mut o));
        }
        if n > 0 && (STD || n.is_power_of_two()) {
            let mut o = vec![f32::NAN; n];
            let mut xi = x.clone();
            match c.call("DctPlanner::plan_dct2", || p.plan_dct2(n)(&mut xi, &mut o)) {
                Some(Ok(())) => {
                    judge_r(c, "DctPlanner::plan_dct2", &o, &x64, &want);
                }
                Some(Err(e)) => c.fail("DctPlanner::plan_dct2: refused", format!("n={n} {e:?}")),
                None => {}
            }
        }
    }
    #[cfg(feature = "slow")]
    if let C2 | C3 | C4 = t {
        let what = format!("slow {t:?}");
        if let Some(g) = c.call(&what, || match t {
            C2 => dct::slow::dct2(&x),
            C3 => dct::slow::dct3(&x),
            _ => dct::slow::dct4(&x),
        }) {
            judge_r(c, &what, &g, &x64, &want);
        }
    }
    stack(c, t, &x, &x64, &want);
}
macro_rules! st {
    ($c:ident, $x:ident, $x64:ident, $want:ident, $f:path, $name:literal, $($n:literal)*) => {
        match $x.len() {
            $($n => {
                let a: &[f32; $n] = $x.try_into().unwrap();
                let mut o = [f32::NAN; $n];
                match $c.call($name, || $f(a, &mut o)) {
                    Some(Ok(())) => { judge_r($c, $name, &o, $x64, $want); }
                    Some(Err(e)) => $c.fail(concat!($name, ": refused"), format!("n={} {e:?}", $n)),
                    None => {}
                }
            })*
            _ => {}
        }
    };
}
fn stack(c: &mut Case, t: Tr, x: &[f32], x64: &[f64], want: &[f64]) {
    match t {
        C1 => st!(c, x, x64, want, dct::dct1_inplace_stack, "dct1_inplace_stack", 2 4 8 16 32 64 128 256 512 1024),
        C2 => st!(c, x, x64, want, dct::dct2_inplace_stack, "dct2_inplace_stack", 2 4 8 16 32 64 128 256 512 1024),
        S2 => {
            st!(c, x, x64, want, dst::dst2_inplace_stack, "dst2_inplace_stack", 2 4 8 16 32 64 128 256 512 1024);
            st!(c, x, x64, want, dst::dst2_inplace_stack_fft, "dst2_inplace_stack_fft", 2 4 8 16 32 64 128 256 512 1024);
        }
        S3 => st!(c, x, x64, want, dst::dst3_inplace_stack_fft, "dst3_inplace_stack_fft", 2 4 8 16 32 64 128 256 512 1024),
        S4 => st!(c, x, x64, want, dst::dst4_inplace_stack, "dst4_inplace_stack", 2 4 8 16 32 64 128 256 512 1024),
        _ => {}
    }
}
fn tlen(c: &mut Case) -> usize {
    let m = if cfg!(miri) { 12 } else if c.full() { 700 } else { 260 };
    match c.rng.below(4) {
        0 => 1 << c.rng.range(1, (m as f64).log2() as usize),
        1 => c.rng.range(0, 20),
        _ => c.rng.logsize(1, m),
    }
}
fn family(x: &mut Ctx, ts: &[Tr]) {
    for &t in ts {
        x.run(&format!("small-{t:?}"), 70, |c| {
            let n = (c.idx % 70) as usize;
            one(c, t, n)
        });
        x.run(&format!("rand-{t:?}"), 60, |c| {
            let n = tlen(c);
            one(c, t, n)
        });
        x.run(&format!("large-{t:?}"), 3, |c| large(c, t));
        x.run(&format!("rows-{t:?}"), 1, |c| rows(c, t));
    }
}
/// Long rows, alone and beside short ones whose length is related to theirs.
fn large(c: &mut Case, t: Tr) {
    let n = match c.rng.below(4) {
        _ if cfg!(miri) => 14,
        0 => c.rng.range(4097, 4400),
        1 => 1 << c.rng.range(9, 12),
        _ => c.rng.logsize(500, if c.full() { 9000 } else { 4200 }),
    };
    let mut rows = vec![sig(c, n).1];
    for _ in 0..c.rng.range(1, 4) {
        let m = match c.rng.below(4) {
            0 => 1 << c.rng.range(1, 8),
            1 => n / c.rng.range(2, 40),
            2 => c.rng.range(1, 300),
            _ => n % 256,
        };
        let r = sig(c, m.min(600)).1;
        let at = c.rng.below(rows.len() + 1);
        rows.insert(at, r);
    }
    let mc = c.rng.chance(1, 2);
    let what = format!("{t:?} {}", if mc { "multi-channel" } else { "batch" });
    c.sig(&format!("large {t:?} {:?}", rows.iter().map(|r| r.len()).collect::<Vec<_>>()));
    let mut b = rows.clone();
    if c.call(&what, || batched(t, mc, &mut b)).is_some() {
        for (o, g) in rows.iter().zip(&b) {
            let o = r64(o);
            let w = reference(t, &o);
            judge_r(c, &what, g, &o, &w);
        }
    }
}
/// Many short rows: more than eight bits, now and then more than sixteen bits, can count.
fn rows(c: &mut Case, t: Tr) {
    let k = if cfg!(miri) { 5 } else if c.idx % 10 == 0 { *c.rng.pick(&[65535usize, 65536, 65537, 66_001, 131_073]) } else { c.rng.logsize(100, 3000) };
    let top = if k > 60_000 { 3 } else { 12 };
    let rows: Vec<Vec<f32>> = (0..k)
        .map(|_| {
            let n = c.rng.range(0, top);
            (0..n).map(|_| c.rng.uni(-2.0, 2.0) as f32).collect()
        })
        .collect();
    c.sig(&format!("rows {t:?} {k}"));
    let mc = c.rng.chance(1, 2);
    let what = format!("{t:?} {}", if mc { "multi-channel" } else { "batch" });
    let mut b = rows.clone();
    if c.call(&what, || batched(t, mc, &mut b)).is_some() {
        for (o, g) in rows.iter().zip(&b) {
            let o = r64(o);
            let w = reference(t, &o);
            if !judge_r(c, &what, g, &o, &w) {
                return;
            }
        }
    }
}
/// DCT-II through a long double-precision FFT of the even extension.
fn dct2_ref(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let e: Vec<Z> = (0..2 * n).map(|i| z(x[if i < n { i } else { 2 * n - 1 - i }], 0.0)).collect();
    let f = fft_ref(&e);
    (0..n).map(|k| (f[k] * root(k as u64, 4 * n as u64)).re / 2.0).collect()
}
pub fn p12(x: &mut Ctx) {
    family(x, &[C1, C2, C3, C4]);
    // one planner serving many lengths, and long transforms
    x.run("planner-many", 12, |c| {
        let mut p = dct::DctPlanner::new();
        let mut seen: Vec<usize> = vec![];
        for _ in 0..c.rng.range(1, if cfg!(miri) { 4 } else { 80 }) {
            let n = if !seen.is_empty() && c.rng.chance(1, 4) {
                *c.rng.pick(&seen)
            } else if !seen.is_empty() && c.rng.chance(1, 3) {
                let near = *c.rng.pick(&seen);
                kin(&mut c.rng, near, if cfg!(miri) { 16 } else { 1024 })
            } else if STD {
                c.rng.logsize(1, if cfg!(miri) { 12 } else { 1500 })
            } else {
                1 << c.rng.range(0, 10)
            };
            planned(c, &mut p, n);
            seen.push(n);
        }
        c.sig(&format!("many {seen:?}"));
    });
    x.run("planner-large", 3, |c| {
        let mut p = dct::DctPlanner::new();
        for _ in 0..3 {
            let n = if cfg!(miri) { 16 } else if STD { c.rng.logsize(2000, 80000) } else { 1 << c.rng.range(10, 16) };
            planned(c, &mut p, n);
            c.sig(&format!("large {n}"));
        }
    });
}
fn planned(c: &mut Case, p: &mut dct::DctPlanner, n: usize) {
    let (_, x) = sig(c, n);
    let x64 = r64(&x);
    let want = dct2_ref(&x64);
    let mut o = vec![f32::NAN; n];
    let mut xi = x.clone();
    match c.call("DctPlanner::plan_dct2", || p.plan_dct2(n)(&mut xi, &mut o)) {
        Some(Ok(())) => {
            judge_r(c, "DctPlanner::plan_dct2", &o, &x64, &want);
        }
        Some(Err(e)) => c.fail("DctPlanner::plan_dct2: refused", format!("n={n} {e:?}")),
        None => {}
    }
}
pub fn p13(x: &mut Ctx) {
    family(x, &[S1, S2, S3, S4]);
    fn tables<T: Sc>(c: &mut Case) {
        let mut p = dst::DstPlanner::<T>::new();
        let mut last = 0;
        for _ in 0..6 {
            let n = if last > 0 && c.rng.chance(1, 2) { kin(&mut c.rng, last, 4096) } else { tlen(c) };
            last = n;
            let k = c.rng.below(3);
            let what = format!("DstPlanner::plan_dst{}<{}>", k + 2, T::NAME);
            let Some(tab) = c.call(&what, || {
                match k {
                    0 => p.plan_dst2(n),
                    1 => p.plan_dst3(n),
                    _ => p.plan_dst4(n),
                }
                .to_vec()
            }) else {
                return;
            };
            c.sig(&format!("{what}:{n}"));
            let ok = tab.len() == n
                && tab.iter().enumerate().all(|(i, v)| {
                    let m = if k == 1 { 2 * i } else { 2 * i + 1 } as u128;
                    (v.f() - cs(m, 4 * n as u128).1).abs() <= 16.0 * T::EPS
                });
            c.check(ok, &format!("{what}: wrong table"), || format!("n={n} {} entries", tab.len()));
            let s = c.call("DstPlanner::scratch", || p.scratch(n).len());
            c.check(s == Some(n), "DstPlanner::scratch: wrong length", || format!("{n} {s:?}"));
        }
    }
    x.run("tables32", 40, tables::<f32>);
    x.run("tables64", 40, tables::<f64>);
}
pub fn p14(x: &mut Ctx) {
    family(x, &[H]);
    x.run("more", 150, |c| {
        let n = tlen(c);
        one(c, H, n)
    });
}
