//! P06 real forward FFT, P07 real inverse FFT, P08 multi-dimensional FFT.
use crate::engines::*;
use crate::fw::*;
use crate::oracle::*;
use crate::p_fft::B_FFT;
use kofft::fft::*;
use kofft::rfft::*;
use kofft::Complex;

fn rlen(c: &mut Case) -> usize {
    let m = if cfg!(miri) { 16 } else if c.full() { 8192 } else { 1500 };
    if STD {
        2 * match c.rng.below(4) {
            0 => c.rng.range(1, 24),
            1 => length(&mut c.rng, u64::MAX, 0, m),
            2 => 1 << c.rng.range(0, (m as f64).log2() as usize),
            _ => c.rng.logsize(1, m),
        }
    } else {
        1 << c.rng.range(1, 10)
    }
}
fn half<T: Sc>(x: &[T]) -> Vec<Z> {
    let n = x.len();
    fft_ref(&x.iter().map(|v| z(v.f(), 0.0)).collect::<Vec<_>>())[..n / 2 + 1].to_vec()
}
/// Engines a real transform can be run with.
fn with_engine<T: Sc, R>(k: usize, f: impl FnOnce(&dyn FftImpl<T>) -> R) -> R {
    if is32::<T>() && k > 0 {
        let b: Box<dyn std::any::Any> = Box::new(new_fft_impl());
        let e = *b.downcast::<Box<dyn FftImpl<T>>>().expect("f32 engine");
        f(e.as_ref())
    } else {
        f(&ScalarFftImpl::<T>::default())
    }
}
macro_rules! rstack_sizes {
    ($call:ident, $n:expr, $($k:literal $m:literal)*) => { match $n { $($k => $call!($k, $m),)* _ => false } };
}
fn rfft_st(c: &mut Case, x: &[f32], want: &[Z]) {
    macro_rules! go {
        ($k:literal, $m:literal) => {{
            let a: &[f32; $k] = x.try_into().unwrap();
            let mut o = [Complex32::new(9.0, 9.0); $m];
            if let Some(r) = c.call("rfft_stack", || rfft_stack::<$k, $m>(a, &mut o)) {
                match r {
                    Ok(()) => {
                        judge(c, "rfft_stack", "rfft stack", &toz(&o), want, f32::EPSILON as f64, norm(want), B_FFT);
                    }
                    Err(e) => c.fail("rfft_stack: refused", format!("n={} {e:?}", $k)),
                }
            }
            true
        }};
    }
    rstack_sizes!(go, x.len(), 2 2 4 3 8 5 16 9 32 17 64 33 128 65 256 129 512 257 1024 513 2048 1025);
}
fn irfft_st(c: &mut Case, n: usize, s: &[Complex32], want: &[Z]) {
    macro_rules! go {
        ($k:literal, $m:literal) => {{
            let a: &[Complex32; $m] = s.try_into().unwrap();
            let mut o = [9.0f32; $k];
            if let Some(r) = c.call("irfft_stack", || irfft_stack::<$k, $m>(a, &mut o)) {
                match r {
                    Ok(()) => {
                        let g: Vec<Z> = o.iter().map(|&v| z(v as f64, 0.0)).collect();
                        judge(c, "irfft_stack", "irfft stack", &g, want, f32::EPSILON as f64, norm(want), B_FFT);
                    }
                    Err(e) => c.fail("irfft_stack: refused", format!("n={} {e:?}", $k)),
                }
            }
            true
        }};
    }
    rstack_sizes!(go, n, 2 2 4 3 8 5 16 9 32 17 64 33 128 65 256 129 512 257 1024 513 2048 1025);
}
/// Run one real-forward form.
fn forward_form<T: Sc>(op: usize, p: &mut RfftPlanner<T>, k: usize, x: &[T], junk: Complex<T>, extra: usize) -> Result<Vec<Complex<T>>, FftError> {
    let n = x.len();
    let m = n / 2;
    let mut xi = x.to_vec();
    let mut out = vec![junk; m + 1];
    let mut scr = vec![junk; m + extra];
    let sc = ScalarFftImpl::<T>::default();
    match op {
        0 => with_engine(k, |e| p.rfft(e, &mut xi, &mut out))?,
        1 => with_engine(k, |e| p.rfft_with_scratch(e, &mut xi, &mut out, &mut scr))?,
        2 => rfft_packed(p, &sc, &mut xi, &mut out, &mut scr)?,
        3 => RealFftImpl::rfft(&sc, &mut xi, &mut out)?,
        _ => RealFftImpl::rfft_with_scratch(&sc, &mut xi, &mut out, &mut scr)?,
    }
    Ok(out)
}
fn inverse_form<T: Sc>(op: usize, p: &mut RfftPlanner<T>, k: usize, s: &[Complex<T>], n: usize, junk: Complex<T>, extra: usize) -> Result<Vec<T>, FftError> {
    let m = n / 2;
    let mut si = s.to_vec();
    let mut out = vec![junk.re; n];
    let mut scr = vec![junk; m + extra];
    let sc = ScalarFftImpl::<T>::default();
    match op {
        0 => with_engine(k, |e| p.irfft(e, &mut si, &mut out))?,
        1 => with_engine(k, |e| p.irfft_with_scratch(e, &mut si, &mut out, &mut scr))?,
        2 => irfft_packed(p, &sc, &mut si, &mut out, &mut scr)?,
        3 => RealFftImpl::irfft(&sc, &mut si, &mut out)?,
        _ => RealFftImpl::irfft_with_scratch(&sc, &mut si, &mut out, &mut scr)?,
    }
    Ok(out)
}
const FN: [&str; 5] = ["RfftPlanner::rfft", "RfftPlanner::rfft_with_scratch", "rfft_packed", "RealFftImpl::rfft", "RealFftImpl::rfft_with_scratch"];
const IN: [&str; 5] = ["RfftPlanner::irfft", "RfftPlanner::irfft_with_scratch", "irfft_packed", "RealFftImpl::irfft", "RealFftImpl::irfft_with_scratch"];

fn fwd<T: Sc>(c: &mut Case, n: usize) {
    let (pat, x) = rsignal::<T>(&mut c.rng, n);
    let want = half(&x);
    // the norm of the full spectrum, so that empty half spectra are judged fairly
    let nref = (n as f64).sqrt() * rnorm(&x.iter().map(|v| v.f()).collect::<Vec<_>>());
    c.sig(&format!("{}:{n}:{pat}", T::NAME));
    c.sample(format!("{} n={n} {pat} expected={}", T::NAME, brief(&want)));
    let mut p = RfftPlanner::<T>::new();
    earlier(c, &mut p, n);
    for op in 0..5 {
        let what = format!("{}<{}>", FN[op], T::NAME);
        let (k, extra) = (c.rng.below(2), if c.rng.chance(1, 4) { 3 } else { 0 });
        let junk = cx::<T>(c.rng.uni(-9.0, 9.0), 1e3);
        let Some(r) = c.call(&what, || forward_form(op, &mut p, k, &x, junk, extra)) else { continue };
        c.cover(format!("form:{}", FN[op]));
        match r {
            Ok(o) => {
                let g = toz(&o);
                if judge(c, &what, &format!("rfft {}", T::NAME), &g, &want, T::EPS, nref, B_FFT) {
                    let tol = B_FFT * T::EPS * ((n as f64).log2() + 3.0) * nref;
                    c.check(g[0].im.abs() <= tol && g[n / 2].im.abs() <= tol, &format!("{what}: DC or Nyquist bin is not real"), || format!("n={n} {} {}", g[0].im, g[n / 2].im));
                }
            }
            Err(e) => c.fail(format!("{what}: refused"), format!("n={n} {e:?}")),
        }
    }
    if is32::<T>() && n <= 2048 && n.is_power_of_two() {
        let xf: Vec<f32> = x.iter().map(|v| v.f() as f32).collect();
        rfft_st(c, &xf, &want);
    }
}
/// Uses the planner for other lengths, often related ones, before the judged transform.
fn earlier<T: Sc>(c: &mut Case, p: &mut RfftPlanner<T>, n: usize) {
    for _ in 0..c.rng.below(4) {
        let m = if c.rng.chance(1, 2) { rlen(c).min(600) } else { 2 * kin(&mut c.rng, n / 2, if cfg!(miri) { 32 } else { 16384 }) };
        let op = c.rng.below(5);
        if c.rng.chance(1, 2) {
            let y = vec![T::of(1.5); m];
            let _ = c.call("earlier transform", || forward_form(op, p, 0, &y, cx(1.0, 1.0), 0));
        } else {
            let s = vec![cx::<T>(0.5, 0.0); m / 2 + 1];
            let _ = c.call("earlier transform", || inverse_form(op, p, 0, &s, m, cx(1.0, 1.0), 0));
        }
    }
}
fn inv<T: Sc>(c: &mut Case, n: usize) {
    let (pat, x) = rsignal::<T>(&mut c.rng, n);
    let s: Vec<Complex<T>> = half(&x).iter().map(|v| cx(v.re, v.im)).collect();
    let want: Vec<Z> = x.iter().map(|v| z(v.f(), 0.0)).collect();
    let nref = norm(&want);
    if s.iter().any(|v| !v.re.f().is_finite() || !v.im.f().is_finite()) {
        return;
    }
    c.sig(&format!("{}:{n}:{pat}", T::NAME));
    // a planner that has been used for other sizes before
    let mut p = RfftPlanner::<T>::new();
    earlier(c, &mut p, n);
    for op in 0..5 {
        let what = format!("{}<{}>", IN[op], T::NAME);
        let (k, extra) = (c.rng.below(2), if c.rng.chance(1, 4) { 3 } else { 0 });
        let junk = match c.rng.below(3) {
            0 => cx::<T>(f64::NAN, f64::NAN),
            1 => cx::<T>(f64::INFINITY, -1e30),
            _ => cx::<T>(c.rng.uni(-9.0, 9.0), 1e3),
        };
        let Some(r) = c.call(&what, || inverse_form(op, &mut p, k, &s, n, junk, extra)) else { continue };
        c.cover(format!("form:{}", IN[op]));
        match r {
            Ok(o) => {
                let g: Vec<Z> = o.iter().map(|v| z(v.f(), 0.0)).collect();
                judge(c, &what, &format!("irfft {}", T::NAME), &g, &want, T::EPS, nref, B_FFT);
            }
            Err(e) => c.fail(format!("{what}: refused"), format!("n={n} {e:?}")),
        }
    }
    // forward by one form, inverse by another, planner shared
    for _ in 0..2 {
        let (a, b) = (c.rng.below(5), c.rng.below(5));
        let what = format!("{} then {} <{}>", FN[a], IN[b], T::NAME);
        let Some(r) = c.call(&what, || {
            let s = forward_form(a, &mut p, 0, &x, cx(2.0, 2.0), 0)?;
            inverse_form(b, &mut p, 0, &s, n, cx(3.0, 3.0), 0)
        }) else {
            continue;
        };
        match r {
            Ok(o) => {
                let g: Vec<Z> = o.iter().map(|v| z(v.f(), 0.0)).collect();
                judge(c, &what, "real round trip", &g, &want, T::EPS, nref, 2.0 * B_FFT);
            }
            Err(e) => c.fail(format!("{what}: refused"), format!("n={n} {e:?}")),
        }
    }
    if is32::<T>() && n <= 2048 && n.is_power_of_two() {
        let sf: Vec<Complex32> = s.iter().map(|v| Complex32::new(v.re.f() as f32, v.im.f() as f32)).collect();
        irfft_st(c, n, &sf, &want);
    }
}
fn small(c: &Case) -> usize {
    let k = (c.idx % 120) as usize + 1;
    if STD {
        2 * k
    } else {
        1 << (k % 11 + 1)
    }
}
pub fn p06(x: &mut Ctx) {
    x.run("small32", 120, |c| fwd::<f32>(c, small(c)));
    x.run("small64", 120, |c| fwd::<f64>(c, small(c)));
    x.run("rand32", 400, |c| {
        let n = rlen(c);
        fwd::<f32>(c, n)
    });
    x.run("rand64", 300, |c| {
        let n = rlen(c);
        fwd::<f64>(c, n)
    });
    x.run("big", 8, |c| {
        let m = if c.full() { 1 << 18 } else if c.idx % 16 == 3 { 1 << 17 } else { 1 << 15 };
        let n = if STD { 2 * c.rng.logsize(m / 4, m) } else { m };
        if c.idx % 2 == 0 {
            fwd::<f32>(c, n)
        } else {
            fwd::<f64>(c, n)
        }
    });
}
pub fn p07(x: &mut Ctx) {
    x.run("small32", 120, |c| inv::<f32>(c, small(c)));
    x.run("small64", 120, |c| inv::<f64>(c, small(c)));
    x.run("rand32", 400, |c| {
        let n = rlen(c);
        inv::<f32>(c, n)
    });
    x.run("rand64", 300, |c| {
        let n = rlen(c);
        inv::<f64>(c, n)
    });
    x.run("big", 8, |c| {
        let m = if c.full() { 1 << 18 } else if c.idx % 16 == 3 { 1 << 17 } else { 1 << 15 };
        let n = if STD { 2 * c.rng.logsize(m / 4, m) } else { m };
        if c.idx % 2 == 0 {
            inv::<f32>(c, n)
        } else {
            inv::<f64>(c, n)
        }
    });
}

// ------------------------------------------------------------------ P08
/// Transform along one axis of a row-major array.
fn axis(data: &mut [Z], dims: &[usize], ax: usize) {
    let n = dims[ax];
    let inner: usize = dims[ax + 1..].iter().product();
    let outer: usize = dims[..ax].iter().product();
    for o in 0..outer {
        for i in 0..inner {
            let line: Vec<Z> = (0..n).map(|k| data[(o * n + k) * inner + i]).collect();
            for (k, v) in fft_ref(&line).into_iter().enumerate() {
                data[(o * n + k) * inner + i] = v;
            }
        }
    }
}
fn dims(c: &mut Case, k: usize) -> Vec<usize> {
    let cap = if cfg!(miri) { 64 } else if c.full() { 60000 } else { 12000 };
    loop {
        let d: Vec<usize> = (0..k)
            .map(|_| {
                if !STD || c.rng.chance(1, 3) {
                    1 << c.rng.range(0, 6)
                } else if c.rng.chance(1, 6) {
                    1
                } else if c.rng.chance(1, 3) {
                    c.rng.range(1, 13)
                } else {
                    c.rng.logsize(1, 130)
                }
            })
            .collect();
        if d.iter().product::<usize>() <= cap {
            return d;
        }
    }
}
fn nd<T: Sc>(c: &mut Case) {
    let k = c.rng.range(2, 3);
    let d = dims(c, k);
    nd_of::<T>(c, d)
}
/// Shapes whose axes or whose element counts do not fit in sixteen bits.
fn vast<T: Sc>(c: &mut Case) {
    let k = c.rng.range(2, 3);
    let mut d = vec![1usize; k];
    let (i, j) = (c.rng.below(k), c.rng.below(k));
    if c.rng.chance(1, 2) {
        d[i] = if STD { *c.rng.pick(&[65537usize, 65600, 70_000, 131_072, 1 << 16]) } else { 1 << c.rng.range(16, 17) };
        if j != i {
            d[j] = if STD { c.rng.range(1, 3) } else { 2 };
        }
    } else {
        for v in d.iter_mut() {
            *v = if STD { c.rng.range(if k == 2 { 257 } else { 41 }, if k == 2 { 400 } else { 60 }) } else if k == 2 { 512 } else { 64 };
        }
    }
    if cfg!(miri) {
        d = vec![2, 4];
    }
    nd_of::<T>(c, d)
}
fn nd_of<T: Sc>(c: &mut Case, d: Vec<usize>) {
    use kofft::ndfft::*;
    let k = d.len();
    let n: usize = d.iter().product();
    let (pat, x) = csignal::<T>(&mut c.rng, n);
    let mut want = toz(&x);
    for a in 0..k {
        axis(&mut want, &d, a);
    }
    let nref = norm(&want);
    c.sig(&format!("{}:{d:?}:{pat}", T::NAME));
    c.cover(format!("rank:{k}"));
    c.sample(format!("{} shape {d:?} {pat} expected={}", T::NAME, brief(&want)));
    let e = if c.rng.chance(1, 2) { ScalarFftImpl::<T>::default() } else { ScalarFftImpl::with_planner(FftPlanner::new()) };
    if c.rng.chance(1, 2) {
        // an engine with history
        let m = if STD { c.rng.range(1, 100) } else { 16 };
        let mut y = csignal::<T>(&mut c.rng, m).1;
        let _ = c.call("earlier", || e.fft_strided_alloc(&mut y, 1));
    }
    let what = format!("fft{k}d_inplace<{}>", T::NAME);
    let mut v = x.clone();
    // through the nested-vector helpers half of the time
    if c.rng.chance(1, 2) {
        let r = if k == 2 {
            let rows: Vec<Vec<_>> = x.chunks(d[1]).map(|r| r.to_vec()).collect();
            c.call("flatten_2d", || flatten_2d(rows)).map(|r| r.map(|(f, a, b)| (f, vec![a, b])))
        } else {
            let p: Vec<Vec<Vec<_>>> = x.chunks(d[1] * d[2]).map(|p| p.chunks(d[2]).map(|r| r.to_vec()).collect()).collect();
            c.call("flatten_3d", || flatten_3d(p)).map(|r| r.map(|(f, a, b, g)| (f, vec![a, b, g])))
        };
        match r {
            Some(Ok((f, g))) => {
                c.check(g == d && same_bits(&f, &x), &format!("flatten_{k}d: wrong data or shape"), || format!("{d:?} -> {g:?}"));
                v = f;
            }
            Some(Err(e)) => c.fail(format!("flatten_{k}d: refused"), format!("{d:?} {e:?}")),
            None => {}
        }
        if v.len() != n {
            return;
        }
    }
    let junk = cx::<T>(c.rng.uni(-9.0, 9.0), f64::NAN);
    let r = if k == 2 {
        let mut s = vec![junk; d[0]];
        c.call(&what, || fft2d_inplace(&mut v, d[0], d[1], &e, &mut s))
    } else {
        let (mut a, mut b, mut g) = (vec![junk; d[0]], vec![junk; d[1]], vec![junk; d[2]]);
        c.call(&what, || fft3d_inplace(&mut v, d[0], d[1], d[2], &e, &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut g }))
    };
    match r {
        Some(Ok(())) => {
            judge(c, &what, &format!("nd {}", T::NAME), &toz(&v), &want, T::EPS, nref, B_FFT);
        }
        Some(Err(e)) => c.fail(format!("{what}: refused"), format!("{d:?} {e:?}")),
        None => {}
    }
    // inconsistent shapes and scratch buffers are refused and change nothing
    let (_, y) = csignal::<T>(&mut c.rng, n);
    let bad = c.rng.below(k + 1);
    let mut dd = d.clone();
    let mut sl = d.clone();
    if bad < k {
        dd[bad] += 1;
        if c.rng.chance(1, 2) {
            sl[bad] += 1;
        }
    } else {
        let q = if k == 2 { 0 } else { c.rng.below(3) };
        sl[q] += 1;
    }
    let mut v = y.clone();
    let r = if k == 2 {
        let mut s = vec![junk; sl[0]];
        c.call(&what, || fft2d_inplace(&mut v, dd[0], dd[1], &e, &mut s))
    } else {
        let (mut a, mut b, mut g) = (vec![junk; sl[0]], vec![junk; sl[1]], vec![junk; sl[2]]);
        c.call(&what, || fft3d_inplace(&mut v, dd[0], dd[1], dd[2], &e, &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut g }))
    };
    if let Some(r) = r {
        c.check(r.is_err() && same_bits(&v, &y), &format!("{what}: inconsistent shape accepted or data modified"), || format!("data {d:?} asked {dd:?} scratch {sl:?}: {r:?}"));
    }
}
pub fn p08(x: &mut Ctx) {
    x.run("nd32", 500, nd::<f32>);
    x.run("nd64", 400, nd::<f64>);
    x.run("vast", 1, |c| match c.idx % 12 {
        0 => vast::<f32>(c),
        6 => vast::<f64>(c),
        _ => {}
    });
}
