//! P01 forward DFT, P02 inverse, P03 no history, P04 layouts, P27 tables, P28 arithmetic.
use crate::engines::*;
use crate::fw::*;
use crate::oracle::*;
use kofft::fft::*;
use kofft::{Complex, Float};
use std::sync::Arc;

/// Bound, in units of eps*(log2 n + 3) relative to the norm of the reference.
pub const B_FFT: f64 = 4.0;
/// Table entries: a direct evaluation of an angle in [0, 2 pi) loses several ulps.
pub const B_TAB: f64 = 16.0;
fn maxlen(c: &Case, full: usize, quick: usize) -> usize {
    if cfg!(miri) {
        32
    } else if c.full() {
        full
    } else {
        quick
    }
}

fn run_entries<T: Sc>(c: &mut Case, list: &[Entry<T>], n: usize, inv: bool, subset: usize) {
    let (pat, x) = csignal::<T>(&mut c.rng, n);
    let xz = toz(&x);
    let want = if inv { ifft_ref(&xz) } else { fft_ref(&xz) };
    let nref = norm(&want);
    c.sig(&format!("{}:{inv}:{n}:{pat}", T::NAME));
    c.cover(format!("pattern:{pat}"));
    c.sample(format!("{} n={n} {pat} x={} expected={}", T::NAME, brief(&xz), brief(&want)));
    let start = c.rng.below(list.len());
    let mut used = 0;
    for off in 0..list.len() {
        if used >= subset {
            break;
        }
        let e = &list[(start + off) % list.len()];
        if !(e.offer)(n) {
            continue;
        }
        used += 1;
        let what = format!("{}<{}>", e.name, T::NAME);
        let mut d = x.clone();
        let Some(r) = c.call(&what, || (e.f)(&mut d)) else { continue };
        c.cover(format!("entry:{}", e.name));
        match (r, (e.ok)(n)) {
            (Ok(()), true) => {
                judge(c, &what, &format!("{}{}", if inv { "inv " } else { "fwd " }, if e.name.contains("stack") { "stack" } else { T::NAME }), &toz(&d), &want, T::EPS, nref, B_FFT);
            }
            (Ok(()), false) => {
                // Not documented as supported: a success must still be right.
                judge(c, &what, "unsupported-but-ok", &toz(&d), &want, T::EPS, nref, B_FFT);
            }
            (Err(er), true) => c.fail(format!("{what}: refused a supported length"), format!("n={n}: {er:?}")),
            (Err(_), false) => {
                c.check(same_bits(&d, &x), &format!("{what}: refused but changed the data"), || format!("n={n}"));
            }
        }
    }
}

pub fn p01(x: &mut Ctx) {
    fwd_inv(x, false)
}
pub fn fwd_inv(x: &mut Ctx, inv: bool) {
    let (l32, l64) = if inv { (inverse::<f32>(), inverse::<f64>()) } else { (forward::<f32>(), forward::<f64>()) };
    // every small length with every entry point
    x.run("small32", 130, |c| {
        let n = (c.idx % 130) as usize + 1;
        run_entries(c, &l32, n, inv, usize::MAX)
    });
    x.run("small64", 130, |c| {
        let n = (c.idx % 130) as usize + 1;
        run_entries(c, &l64, n, inv, usize::MAX)
    });
    // powers of two with every entry point
    x.run("pow2-32", 12, |c| {
        let n = 1usize << (c.idx % 12 + 1);
        run_entries(c, &l32, n, inv, usize::MAX)
    });
    x.run("pow2-64", 12, |c| {
        let n = 1usize << (c.idx % 12 + 1);
        run_entries(c, &l64, n, inv, usize::MAX)
    });
    x.run("rand32", 220, |c| {
        let m = maxlen(c, 20000, 5000);
        let n = length(&mut c.rng, u64::MAX, 0, m);
        run_entries(c, &l32, n, inv, 10)
    });
    x.run("rand64", 160, |c| {
        let m = maxlen(c, 20000, 5000);
        let n = length(&mut c.rng, u64::MAX, 0, m);
        run_entries(c, &l64, n, inv, 10)
    });
    x.run("big", if cfg!(miri) { 1 } else { 24 }, |c| {
        let m = maxlen(c, 1 << 20, 1 << 17);
        let n = if c.idx % 3 == 0 {
            let hi = (m as f64).log2() as usize;
            1usize << c.rng.range(hi - 3, hi)
        } else {
            c.rng.logsize(m / 8, m)
        };
        if c.idx % 2 == 0 {
            run_entries(c, &l32, n, inv, 3)
        } else {
            run_entries(c, &l64, n, inv, 3)
        }
    });
}

pub fn p02(x: &mut Ctx) {
    fwd_inv(x, true);
    // any forward followed by any inverse restores the data
    fn pair<T: Sc>(c: &mut Case) {
        let (f, g) = (forward::<T>(), inverse::<T>());
        let m = maxlen(c, 8192, 3000);
        let mut n = length(&mut c.rng, u64::MAX, 0, m);
        if c.rng.chance(1, 4) {
            n = c.rng.range(1, 40);
        }
        let (pat, x) = csignal::<T>(&mut c.rng, n);
        let want = toz(&x);
        for _ in 0..6 {
            let a = &f[c.rng.below(f.len())];
            let b = &g[c.rng.below(g.len())];
            if !((a.offer)(n) && (b.offer)(n) && (a.ok)(n) && (b.ok)(n)) {
                continue;
            }
            let what = format!("{} then {} <{}>", a.name, b.name, T::NAME);
            c.sig(&format!("{what}:{n}:{pat}"));
            let mut d = x.clone();
            let Some(r) = c.call(&what, || (a.f)(&mut d).and_then(|_| (b.f)(&mut d))) else { continue };
            if let Err(e) = r {
                c.fail(format!("{what}: refused"), format!("n={n} {e:?}"));
                continue;
            }
            let bd = B_FFT * 2.0;
            judge(c, &what, "roundtrip", &toz(&d), &want, T::EPS, norm(&want), bd);
        }
    }
    x.run("pair32", 300, pair::<f32>);
    x.run("pair64", 200, pair::<f64>);
}

// ------------------------------------------------------------------ P03
/// A reusable object: engine, boxed engine, plan or planner-backed engine.
/// Longest related length in a history.
const KIN: usize = if cfg!(miri) { 32 } else { 4096 };
fn hist_len(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => rng.range(1, 6),
        1 => *rng.pick(&[2usize, 4, 8, 16, 32]),
        2..=4 => 1 << rng.range(1, if cfg!(miri) { 5 } else { 11 }),
        _ => rng.logsize(2, if cfg!(miri) { 20 } else { 1500 }),
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Fft,
    Ifft,
    Oop,
    IOop,
    Split,
    ISplit,
    Strided(usize),
    IStrided(usize),
    StridedAlloc(usize),
    IStridedAlloc(usize),
    OopStrided(usize, usize),
    IOopStrided(usize, usize),
    Strat(usize),
    Stockham,
    Radix4,
    Vec,
    BadStrided,
    BadOop,
    BadSplit,
    Empty,
}
fn random_op(rng: &mut Rng) -> Op {
    let s = |r: &mut Rng| r.range(1, 5);
    match rng.below(24) {
        0..=2 => Op::Fft,
        3..=4 => Op::Ifft,
        5 => Op::Oop,
        6 => Op::IOop,
        7 => Op::Split,
        8 => Op::ISplit,
        9 => Op::Strided(s(rng)),
        10 => Op::IStrided(s(rng)),
        11 => Op::StridedAlloc(s(rng)),
        12 => Op::IStridedAlloc(s(rng)),
        13 => Op::OopStrided(s(rng), s(rng)),
        14 => Op::IOopStrided(s(rng), s(rng)),
        15..=16 => Op::Strat(rng.below(4)),
        17 => Op::Stockham,
        18 => Op::Radix4,
        19 => Op::Vec,
        20 => Op::BadStrided,
        21 => Op::BadOop,
        22 => Op::BadSplit,
        _ => Op::Empty,
    }
}
/// Apply one operation to logical data `x` with an engine; returns the logical result.
fn apply<T: Sc>(e: &dyn FftImpl<T>, sc: Option<&ScalarFftImpl<T>>, op: Op, x: &[Complex<T>]) -> Result<Vec<Complex<T>>, FftError> {
    let n = x.len();
    let mut d = x.to_vec();
    let spread = |s: usize| {
        let mut v = vec![cx::<T>(0.5, -0.25); n * s];
        for i in 0..n {
            v[i * s] = x[i];
        }
        v
    };
    let gather = |v: &[Complex<T>], s: usize| (0..n).map(|i| v[i * s]).collect::<Vec<_>>();
    match op {
        Op::Fft => e.fft(&mut d).map(|_| d),
        Op::Ifft => e.ifft(&mut d).map(|_| d),
        Op::Oop => {
            let mut o = d.clone();
            e.fft_out_of_place(&d, &mut o).map(|_| o)
        }
        Op::IOop => {
            let mut o = d.clone();
            e.ifft_out_of_place(&d, &mut o).map(|_| o)
        }
        Op::Split | Op::ISplit => {
            let mut re: Vec<T> = d.iter().map(|c| c.re).collect();
            let mut im: Vec<T> = d.iter().map(|c| c.im).collect();
            if matches!(op, Op::Split) {
                e.fft_split(&mut re, &mut im)?
            } else {
                e.ifft_split(&mut re, &mut im)?
            }
            Ok(re.into_iter().zip(im).map(|(re, im)| Complex { re, im }).collect())
        }
        Op::Strided(s) | Op::IStrided(s) => {
            let mut v = spread(s);
            let mut scr = vec![cx::<T>(3.0, 3.0); n];
            if matches!(op, Op::Strided(_)) {
                e.fft_strided(&mut v, s, &mut scr)?
            } else {
                e.ifft_strided(&mut v, s, &mut scr)?
            }
            Ok(gather(&v, s))
        }
        Op::StridedAlloc(s) => {
            let mut v = spread(s);
            e.fft_strided_alloc(&mut v, s)?;
            Ok(gather(&v, s))
        }
        Op::IStridedAlloc(s) => {
            let mut v = spread(s);
            e.ifft_strided_alloc(&mut v, s)?;
            Ok(gather(&v, s))
        }
        Op::OopStrided(a, b) | Op::IOopStrided(a, b) => {
            let v = spread(a);
            let mut o = vec![cx::<T>(1.0, 1.0); n * b];
            if matches!(op, Op::OopStrided(..)) {
                e.fft_out_of_place_strided(&v, a, &mut o, b)?
            } else {
                e.ifft_out_of_place_strided(&v, a, &mut o, b)?
            }
            Ok(gather(&o, b))
        }
        Op::Strat(k) => e.fft_with_strategy(&mut d, STRATS[k].0).map(|_| d),
        Op::Stockham => match sc {
            Some(s) => s.stockham_fft(&mut d).map(|_| d),
            None => e.fft(&mut d).map(|_| d),
        },
        #[cfg(feature = "std")]
        Op::Radix4 => match sc {
            Some(s) => s.fft_radix4(&mut d).map(|_| d),
            None => e.fft(&mut d).map(|_| d),
        },
        #[cfg(feature = "std")]
        Op::Vec => match sc {
            Some(s) => s.fft_vec(&d),
            None => e.fft(&mut d).map(|_| d),
        },
        #[cfg(not(feature = "std"))]
        Op::Radix4 | Op::Vec => e.fft(&mut d).map(|_| d),
        Op::BadStrided => {
            let mut scr = vec![cx::<T>(0.0, 0.0); n + 1];
            e.fft_strided(&mut d, 2, &mut scr).map(|_| d)
        }
        Op::BadOop => {
            let mut o = vec![cx::<T>(0.0, 0.0); n + 1];
            e.fft_out_of_place_strided(&d, 1, &mut o, 1).map(|_| o)
        }
        Op::BadSplit => {
            let mut re: Vec<T> = d.iter().map(|c| c.re).collect();
            let mut im = re[..n - 1].to_vec();
            e.fft_split(&mut re, &mut im).map(|_| d)
        }
        Op::Empty => {
            let mut o: Vec<Complex<T>> = vec![];
            e.ifft(&mut o).map(|_| o)
        }
    }
}
fn cscale<T: Sc>(v: Complex<T>, s: f64) -> Complex<T> {
    Complex { re: v.re * T::of(s), im: v.im * T::of(s) }
}
fn compare<T: Sc>(c: &mut Case, what: &str, hist: &str, a: Result<Vec<Complex<T>>, FftError>, b: Result<Vec<Complex<T>>, FftError>) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let w = toz(&b);
            if !judge(c, what, "reused vs fresh", &toz(&a), &w, T::EPS, norm(&w), B_FFT) {
                if let Some(l) = c.viol.last_mut() {
                    l.1 += &format!(" after history {hist}");
                }
            }
        }
        (Err(a), Err(b)) => {
            c.check(a == b, &format!("{what}: different error than a fresh object"), || format!("{a:?} vs {b:?} after {hist}"));
        }
        (a, b) => c.fail(
            format!("{what}: outcome depends on history"),
            format!("reused {:?} fresh {:?} after {hist}", a.map(|_| ()), b.map(|_| ())),
        ),
    }
}
pub fn p03(x: &mut Ctx) {
    fn engine<T: Sc>(c: &mut Case) {
        let e = match c.rng.below(3) {
            0 => {
                // a planner that was already used by its owner
                let mut p = FftPlanner::<T>::new();
                for _ in 0..c.rng.below(4) {
                    let n = hist_len(&mut c.rng);
                    p.get_twiddles(n);
                    #[cfg(feature = "std")]
                    p.get_bluestein(n);
                }
                ScalarFftImpl::<T>::with_planner(p)
            }
            _ => ScalarFftImpl::<T>::default(),
        };
        let steps = if cfg!(miri) { 6 } else { c.rng.range(3, 25) };
        let mut hist = String::new();
        let mut past: Vec<Vec<Complex<T>>> = vec![];
        let mut sizes: Vec<usize> = vec![hist_len(&mut c.rng)];
        for _ in 0..c.rng.below(5) {
            let near = *c.rng.pick(&sizes);
            sizes.push(if near > 1 && c.rng.chance(1, 2) { kin(&mut c.rng, near, KIN) } else { hist_len(&mut c.rng) });
        }
        for _ in 0..steps {
            let n = if c.rng.chance(2, 3) { *c.rng.pick(&sizes) } else { hist_len(&mut c.rng) };
            let op = random_op(&mut c.rng);
            let (_, x) = csignal::<T>(&mut c.rng, n);
            let x = related_same(&mut c.rng, &past, x, cscale);
            past.push(x.clone());
            let what = format!("engine<{}> {}", T::NAME, format!("{op:?}").split('(').next().unwrap());
            let Some(a) = c.call(&what, || apply(&e, Some(&e), op, &x)) else { return };
            let away = c.rng.chance(1, 3);
            let Some(b) = c.call("fresh engine", || {
                elsewhere(away, || {
                    let fresh = ScalarFftImpl::<T>::default();
                    apply(&fresh, Some(&fresh), op, &x)
                })
            }) else { return };
            compare(c, &what, &hist, a, b);
            hist += &format!("{op:?}/{n} ");
        }
        c.sig(&hist);
        c.sample(format!("{} history: {hist}", T::NAME));
    }
    x.run("engine32", 260, engine::<f32>);
    x.run("engine64", 200, engine::<f64>);
    x.run("boxed", 100, |c| {
        let e = new_fft_impl();
        let mut hist = String::new();
        let mut past: Vec<Vec<Complex32>> = vec![];
        for _ in 0..c.rng.range(3, 15) {
            let n = match past.is_empty() || c.rng.chance(1, 2) {
                true => hist_len(&mut c.rng),
                _ => c.rng.pick(&past).len(),
            };
            let op = random_op(&mut c.rng);
            let (_, x) = csignal::<f32>(&mut c.rng, n);
            let x = related_same(&mut c.rng, &past, x, cscale);
            past.push(x.clone());
            let what = format!("new_fft_impl {}", format!("{op:?}").split('(').next().unwrap());
            let Some(a) = c.call(&what, || apply(e.as_ref(), None, op, &x)) else { return };
            let away = c.rng.chance(1, 3);
            let Some(b) = c.call("fresh engine", || {
                elsewhere(away, || {
                    let fr = new_fft_impl();
                    apply(fr.as_ref(), None, op, &x)
                })
            }) else { return };
            compare(c, &what, &hist, a, b);
            hist += &format!("{op:?}/{n} ");
        }
        c.sig(&hist);
    });
    #[cfg(feature = "std")]
    {
        fn plan<T: Sc>(c: &mut Case) {
            let n = hist_len(&mut c.rng);
            let k = c.rng.below(4);
            let p = FftPlan::<T>::new(n, STRATS[k].0);
            let mut hist = format!("plan {n} {}: ", STRATS[k].1);
            let mut past: Vec<Vec<Complex<T>>> = vec![];
            for _ in 0..c.rng.range(3, 15) {
                let op = c.rng.below(8);
                let len = if c.rng.chance(1, 6) { n + 1 } else { n };
                let (_, x) = csignal::<T>(&mut c.rng, len);
                let x = related_same(&mut c.rng, &past, x, cscale);
                past.push(x.clone());
                let go = |p: &FftPlan<T>| -> Result<Vec<Complex<T>>, FftError> {
                    let mut d = x.clone();
                    let mut o = x.clone();
                    let mut re: Vec<T> = x.iter().map(|c| c.re).collect();
                    let mut im: Vec<T> = x.iter().map(|c| c.im).collect();
                    match op {
                        0 | 6 => p.fft(&mut d)?,
                        1 | 7 => p.ifft(&mut d)?,
                        2 => p.fft_out_of_place(&x, &mut o)?,
                        3 => p.ifft_out_of_place(&x, &mut o)?,
                        4 => p.fft_split(&mut re, &mut im)?,
                        _ => p.ifft_split(&mut re, &mut im)?,
                    }
                    Ok(match op {
                        2 | 3 => o,
                        4 | 5 => re.into_iter().zip(im).map(|(re, im)| Complex { re, im }).collect(),
                        _ => d,
                    })
                };
                let what = format!("FftPlan<{}> op{op}", T::NAME);
                let Some(a) = c.call(&what, || go(&p)) else { return };
                let away = c.rng.chance(1, 3);
                let Some(b) = c.call("fresh plan", || elsewhere(away, || go(&FftPlan::<T>::new(n, STRATS[k].0)))) else { return };
                compare(c, &what, &hist, a, b);
                hist += &format!("{op}/{len} ");
            }
            c.sig(&hist);
        }
        x.run("plan32", 120, plan::<f32>);
        x.run("plan64", 80, plan::<f64>);
    }
    fn rplanner<T: Sc>(c: &mut Case) {
        use kofft::rfft::*;
        let mut p = RfftPlanner::<T>::new();
        let e = ScalarFftImpl::<T>::default();
        let mut hist = String::new();
        let (mut past, mut spast): (Vec<Vec<T>>, Vec<Vec<Complex<T>>>) = (vec![], vec![]);
        for _ in 0..c.rng.range(3, 20) {
            let n = if !past.is_empty() && c.rng.chance(1, 2) {
                c.rng.pick(&past).len()
            } else if !past.is_empty() && STD && c.rng.chance(1, 2) {
                let near = c.rng.pick(&past).len() / 2;
                2 * kin(&mut c.rng, near, KIN)
            } else if STD {
                2 * hist_len(&mut c.rng)
            } else {
                1 << c.rng.range(1, 9)
            };
            let op = c.rng.below(8);
            let bad = c.rng.chance(1, 8);
            let (_, x) = rsignal::<T>(&mut c.rng, n);
            let (_, s) = csignal::<T>(&mut c.rng, n / 2 + 1);
            let x = related_same(&mut c.rng, &past, x, |v, s| v * T::of(s));
            let s = related_same(&mut c.rng, &spast, s, cscale);
            past.push(x.clone());
            spast.push(s.clone());
            let go = |p: &mut RfftPlanner<T>, e: &ScalarFftImpl<T>| -> Result<Vec<Complex<T>>, FftError> {
                let mut xi = x.clone();
                let mut si = s.clone();
                si[0].im = T::of(0.0);
                let m = n / 2;
                si[m].im = T::of(0.0);
                let mut so = vec![cx::<T>(2.0, 2.0); m + 1 + bad as usize];
                let mut xo = vec![T::of(4.0); n];
                if bad && op % 2 == 1 {
                    si.push(cx(1.0, 1.0));
                }
                let mut scr = vec![cx::<T>(5.0, -5.0); m];
                let pack = |v: Vec<T>| v.into_iter().map(|re| Complex { re, im: T::of(0.0) }).collect::<Vec<_>>();
                Ok(match op {
                    0 => p.rfft(e, &mut xi, &mut so).map(|_| so)?,
                    1 => pack(p.irfft(e, &mut si, &mut xo).map(|_| xo)?),
                    2 => p.rfft_with_scratch(e, &mut xi, &mut so, &mut scr).map(|_| so)?,
                    3 => pack(p.irfft_with_scratch(e, &mut si, &mut xo, &mut scr).map(|_| xo)?),
                    4 => rfft_packed(p, e, &mut xi, &mut so, &mut scr).map(|_| so)?,
                    5 => pack(irfft_packed(p, e, &mut si, &mut xo, &mut scr).map(|_| xo)?),
                    6 => RealFftImpl::rfft(e, &mut xi, &mut so).map(|_| so)?,
                    _ => pack(RealFftImpl::irfft(e, &mut si, &mut xo).map(|_| xo)?),
                })
            };
            let what = format!("RfftPlanner<{}> op{op}", T::NAME);
            let Some(a) = c.call(&what, || go(&mut p, &e)) else { return };
            let away = c.rng.chance(1, 3);
            let Some(b) = c.call("fresh planner", || elsewhere(away, || go(&mut RfftPlanner::<T>::new(), &ScalarFftImpl::<T>::default()))) else { return };
            compare(c, &what, &hist, a, b);
            hist += &format!("{op}/{n}{} ", if bad { "!" } else { "" });
        }
        c.sig(&hist);
    }
    x.run("rplanner32", 120, rplanner::<f32>);
    x.run("rplanner64", 100, rplanner::<f64>);
    // planners of the other transforms and "global" state: a stateless call repeated after
    // arbitrary other work must give the same result
    x.run("global", 80, |c| {
        let n = 1usize << c.rng.range(1, 8);
        let (_, x) = rsignal::<f32>(&mut c.rng, n);
        let probe = |x: &[f32]| -> Vec<Z> {
            let mut o: Vec<Z> = vec![];
            if let Ok(h) = kofft::hilbert::hilbert_analytic(x) {
                o.extend(toz(&h));
            }
            o.extend(kofft::dct::dct2(x).iter().map(|&v| z(v as f64, 0.0)));
            o.extend(kofft::dst::dst2(x).iter().map(|&v| z(v as f64, 0.0)));
            o.extend(kofft::hartley::dht(x).iter().map(|&v| z(v as f64, 0.0)));
            let th = -2.0 * std::f32::consts::PI / x.len() as f32;
            o.extend(kofft::czt::czt_f32(x, x.len(), (th.cos(), th.sin()), (1.0, 0.0)).iter().map(|v| z(v.0 as f64, v.1 as f64)));
            let mut d: Vec<Complex32> = x.iter().map(|&v| Complex32::new(v, 0.0)).collect();
            let _ = fft_parallel(&mut d);
            o.extend(toz(&d));
            o
        };
        let away = c.rng.chance(1, 2);
        let Some(a) = c.call("probe", || elsewhere(away, || probe(&x))) else { return };
        for _ in 0..c.rng.range(1, 12) {
            let m = if c.rng.chance(1, 2) { n } else { hist_len(&mut c.rng) };
            let (_, y) = rsignal::<f32>(&mut c.rng, m);
            let y = related_same(&mut c.rng, &[x.clone()], y, |v, s| v * s as f32);
            c.call("other work", || probe(&y));
        }
        let Some(b) = c.call("probe again", || probe(&x)) else { return };
        let nr = norm(&a);
        judge(c, "stateless functions repeated", "repeat", &b, &a, f32::EPSILON as f64, nr, 2.0);
    });
    // DctPlanner reuse
    x.run("dctplanner", 60, |c| {
        let mut p = kofft::dct::DctPlanner::new();
        let mut hist = String::new();
        let mut last = 0;
        for _ in 0..c.rng.range(2, 10) {
            let n = match last {
                0 if STD => c.rng.range(1, 200),
                0 => 1 << c.rng.range(0, 7),
                _ => kin(&mut c.rng, last, 256),
            };
            last = if c.rng.chance(1, 2) { n } else { 0 };
            let (_, x) = rsignal::<f32>(&mut c.rng, n);
            let reps = c.rng.range(1, 3);
            let go = |p: &mut kofft::dct::DctPlanner, reps: usize| -> Result<Vec<Complex32>, FftError> {
                let mut plan = p.plan_dct2(n);
                let mut o = vec![3.0; n];
                for _ in 0..reps {
                    let mut xi = x.clone();
                    plan(&mut xi, &mut o)?;
                }
                Ok(o.into_iter().map(|v| Complex32::new(v, 0.0)).collect())
            };
            let Some(a) = c.call("DctPlanner", || go(&mut p, reps)) else { return };
            let mut f = kofft::dct::DctPlanner::new();
            let Some(b) = c.call("fresh DctPlanner", || go(&mut f, 1)) else { return };
            compare(c, "DctPlanner", &hist, a, b);
            hist += &format!("{n}x{reps} ");
        }
        c.sig(&hist);
    });
}

// ------------------------------------------------------------------ P04
pub fn p04(x: &mut Ctx) {
    fn lay<T: Sc>(c: &mut Case) {
        let n = if STD {
            match c.rng.below(3) {
                0 => c.rng.range(1, 40),
                1 => 1 << c.rng.range(0, 10),
                _ => c.rng.logsize(1, 900),
            }
        } else {
            1 << c.rng.range(0, 10)
        };
        let inv = c.rng.chance(1, 2);
        let (pat, x) = csignal::<T>(&mut c.rng, n);
        let (en, e) = pick_engine::<T>(&mut c.rng);
        let mut base = x.clone();
        let Some(r) = c.call("plain in-place", || if inv { e.ifft(&mut base) } else { e.fft(&mut base) }) else { return };
        if r.is_err() {
            return c.fail("plain in-place refused", format!("n={n}"));
        }
        let want = toz(&base);
        let nref = norm(&want);
        c.sig(&format!("{en}:{}:{inv}:{n}:{pat}", T::NAME));
        c.cover(format!("engine:{en}"));
        let t = T::NAME;
        let dir = if inv { "inverse" } else { "forward" };
        let fill = cx::<T>(1234.5, -4321.25);
        macro_rules! ok {
            ($what:expr, $r:expr, $got:expr) => {{
                let what = format!("{en}: {} {dir}<{t}>", $what);
                c.cover(format!("layout:{}", $what));
                match $r {
                    Ok(()) => {
                        judge(c, &what, "layout", &toz(&$got), &want, T::EPS, nref, B_FFT);
                    }
                    Err(er) => c.fail(format!("{what}: refused"), format!("n={n}: {er:?}")),
                }
            }};
        }
        // out of place: input untouched
        {
            let input = x.clone();
            let mut out = vec![fill; n];
            let Some(r) = c.call("out_of_place", || if inv { e.ifft_out_of_place(&input, &mut out) } else { e.fft_out_of_place(&input, &mut out) }) else { return };
            ok!("out-of-place", r, out);
            c.check(same_bits(&input, &x), &format!("{en}: out-of-place modified its input"), || format!("n={n}"));
        }
        // in place with an explicit strategy (forward only)
        if !inv {
            let k = c.rng.below(4);
            let mut d = x.clone();
            let Some(r) = c.call("strategy", || e.fft_with_strategy(&mut d, STRATS[k].0)) else { return };
            ok!("strategy", r, d);
        }
        // strided with gaps and a tail
        {
            let s = c.rng.range(1, 7);
            let tail = c.rng.below(2 * s + 1);
            let len = (n - 1) * s + 1 + tail;
            let mut v = vec![fill; len];
            for (i, q) in v.iter_mut().enumerate() {
                q.re = T::of(1000.0 + i as f64);
            }
            for i in 0..n {
                v[i * s] = x[i];
            }
            let orig = v.clone();
            let mut scr = vec![fill; n];
            let Some(r) = c.call("strided", || if inv { e.ifft_strided(&mut v, s, &mut scr) } else { e.fft_strided(&mut v, s, &mut scr) }) else { return };
            ok!("strided", r, (0..n).map(|i| v[i * s]).collect::<Vec<_>>());
            let touched = (0..len).find(|&i| !(i % s == 0 && i / s < n) && !same_bits(&v[i..=i], &orig[i..=i]));
            c.check(touched.is_none(), &format!("{en}: strided transform modified elements outside its stride"), || format!("n={n} stride={s} len={len} index {touched:?}"));
            // allocating form on a buffer of n*stride + remainder
            let rem = c.rng.below(s);
            let len = n * s + rem;
            let mut v = vec![fill; len];
            for i in 0..n {
                v[i * s] = x[i];
            }
            let orig = v.clone();
            let Some(r) = c.call("strided_alloc", || if inv { e.ifft_strided_alloc(&mut v, s) } else { e.fft_strided_alloc(&mut v, s) }) else { return };
            ok!("strided-alloc", r, (0..n).map(|i| v[i * s]).collect::<Vec<_>>());
            let touched = (0..len).find(|&i| !(i % s == 0 && i / s < n) && !same_bits(&v[i..=i], &orig[i..=i]));
            c.check(touched.is_none(), &format!("{en}: allocating strided transform modified elements outside its stride"), || format!("n={n} stride={s} len={len} index {touched:?}"));
        }
        // out-of-place strided
        {
            let (a, b) = (c.rng.range(1, 6), c.rng.range(1, 6));
            let mut input = vec![fill; n * a];
            for i in 0..n {
                input[i * a] = x[i];
            }
            let io = input.clone();
            let b = if c.rng.chance(1, 4) { a } else { b };
            let mut out: Vec<_> = (0..n * b).map(|i| cx::<T>(-7.0 - i as f64, 0.5)).collect();
            let oo = out.clone();
            let Some(r) = c.call("out_of_place_strided", || if inv { e.ifft_out_of_place_strided(&input, a, &mut out, b) } else { e.fft_out_of_place_strided(&input, a, &mut out, b) }) else { return };
            ok!("out-of-place strided", r, (0..n).map(|i| out[i * b]).collect::<Vec<_>>());
            c.check(same_bits(&input, &io), &format!("{en}: out-of-place strided modified its input"), || format!("n={n} strides {a},{b}"));
            let touched = (0..out.len()).find(|&i| i % b != 0 && !same_bits(&out[i..=i], &oo[i..=i]));
            c.check(touched.is_none(), &format!("{en}: out-of-place strided wrote outside its stride"), || format!("n={n} strides {a},{b} index {touched:?}"));
        }
        // split
        {
            let mut re: Vec<T> = x.iter().map(|c| c.re).collect();
            let mut im: Vec<T> = x.iter().map(|c| c.im).collect();
            let Some(r) = c.call("split", || if inv { e.ifft_split(&mut re, &mut im) } else { e.fft_split(&mut re, &mut im) }) else { return };
            ok!("split", r, re.iter().zip(&im).map(|(&re, &im)| Complex { re, im }).collect::<Vec<_>>());
            let (mut re, mut im) = (vec![T::of(0.0); n], vec![T::of(0.0); n]);
            let mut back = vec![fill; n];
            let Some(r) = c.call("split_complex", || {
                let sp = SplitComplex::copy_from_complex(&x, &mut re, &mut im);
                if inv {
                    ifft_split_complex(sp)?
                } else {
                    fft_split_complex(sp)?
                }
                SplitComplex::new(&mut re, &mut im).copy_to_complex(&mut back);
                Ok::<(), FftError>(())
            }) else { return };
            ok!("split-complex", r, back);
        }
        // batch / multi-channel of different lengths
        {
            let k = c.rng.range(1, 4);
            let (pos, mut batch_data) = related_rows(
                &mut c.rng,
                x.clone(),
                k,
                |rng| {
                    let m = if STD { rng.range(1, 50) } else { 8 };
                    csignal::<T>(rng, m).1
                },
                cscale,
            );
            // without std, and for empty rows, only lengths the engine supports
            batch_data.retain(|r| !r.is_empty() && (STD || r.len().is_power_of_two()));
            let pos = if batch_data.get(pos).is_some_and(|r| same_bits(r, &x)) { pos } else { batch_data.iter().position(|r| same_bits(r, &x)).unwrap() };
            let k = batch_data.len();
            let origs = batch_data.clone();
            let mc = c.rng.chance(1, 2);
            let Some(r) = c.call("batch", || match (mc, inv) {
                (false, false) => batch(&e, &mut batch_data),
                (false, true) => batch_inverse(&e, &mut batch_data),
                (true, false) => multi_channel(&e, &mut batch_data),
                (true, true) => multi_channel_inverse(&e, &mut batch_data),
            }) else { return };
            ok!(if mc { "multi-channel" } else { "batch" }, r, batch_data[pos]);
            for i in 0..k {
                let mut d = origs[i].clone();
                if c.call("plain", || if inv { e.ifft(&mut d) } else { e.fft(&mut d) }).is_some_and(|r| r.is_ok()) {
                    let w = toz(&d);
                    judge(c, &format!("batch element {dir}<{t}>"), "layout", &toz(&batch_data[i]), &w, T::EPS, norm(&w), B_FFT);
                }
            }
        }
        #[cfg(feature = "std")]
        {
            let v = ScalarFftImpl::<T>::default();
            let Some(r) = c.call("vec", || if inv { v.ifft_vec(&x) } else { v.fft_vec(&x) }) else { return };
            match r {
                Ok(v) => ok!("allocating", Ok::<(), FftError>(()), v),
                Err(er) => c.fail(format!("allocating {dir}<{t}>: refused"), format!("{er:?}")),
            }
            // plans
            let k = c.rng.below(4);
            let p = FftPlan::<T>::new(n, STRATS[k].0);
            let mut out = vec![fill; n];
            let Some(r) = c.call("plan out_of_place", || if inv { p.ifft_out_of_place(&x, &mut out) } else { p.fft_out_of_place(&x, &mut out) }) else { return };
            ok!("plan out-of-place", r, out);
            let mut re: Vec<T> = x.iter().map(|c| c.re).collect();
            let mut im: Vec<T> = x.iter().map(|c| c.im).collect();
            let Some(r) = c.call("plan split", || if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) }) else { return };
            ok!("plan split", r, re.iter().zip(&im).map(|(&re, &im)| Complex { re, im }).collect::<Vec<_>>());
        }
    }
    x.run("layout32", 420, lay::<f32>);
    x.run("layout64", 260, lay::<f64>);
    // the SIMD and boxed engines' layouts, including the trait's default methods
    x.run("boxed", 260, |c| {
        let n = if STD { c.rng.logsize(1, 600) } else { 1 << c.rng.range(0, 9) };
        let (pat, x) = csignal::<f32>(&mut c.rng, n);
        let e = new_fft_impl();
        c.sig(&format!("boxed:{n}:{pat}"));
        let mut base = x.clone();
        let mut ibase = x.clone();
        if !c.call("boxed fft", || e.fft(&mut base)).is_some_and(|r| r.is_ok()) || !c.call("boxed ifft", || e.ifft(&mut ibase)).is_some_and(|r| r.is_ok()) {
            return c.fail("boxed engine refused", format!("n={n}"));
        }
        let (s, s2) = (c.rng.range(1, 5), c.rng.range(1, 5));
        for op in [Op::Oop, Op::IOop, Op::Split, Op::ISplit, Op::Strided(s), Op::IStrided(s), Op::StridedAlloc(s), Op::IStridedAlloc(s), Op::OopStrided(s, s2), Op::IOopStrided(s, s2)] {
            let what = format!("boxed {}", format!("{op:?}").split('(').next().unwrap());
            let Some(r) = c.call(&what, || apply(e.as_ref(), None, op, &x)) else { continue };
            let w = toz(if format!("{op:?}").starts_with('I') { &ibase } else { &base });
            match r {
                Ok(g) => {
                    judge(c, &what, "layout boxed", &toz(&g), &w, f32::EPSILON as f64, norm(&w), B_FFT);
                }
                Err(er) => c.fail(format!("{what}: refused"), format!("n={n} {er:?}")),
            }
        }
    });
    #[cfg(any(feature = "simd", feature = "soa"))]
    x.run("complexvec", 150, |c| {
        use kofft::num::ComplexVec;
        let n = if STD { c.rng.logsize(1, 2000) } else { 1 << c.rng.range(0, 10) };
        let (pat, x) = csignal::<f32>(&mut c.rng, n);
        c.sig(&format!("cv:{n}:{pat}"));
        let inv = c.rng.chance(1, 2);
        let e = ScalarFftImpl::<f32>::default();
        let mut base = x.clone();
        if !c.call("plain", || if inv { e.ifft(&mut base) } else { e.fft(&mut base) }).is_some_and(|r| r.is_ok()) {
            return c.fail("plain refused", format!("n={n}"));
        }
        let mut cv = ComplexVec::from_complex_vec(&x);
        let r = c.call("complex_vec", || if inv { ifft_complex_vec(&mut cv) } else { fft_complex_vec(&mut cv) });
        let w = toz(&base);
        if let Some(Ok(())) = r {
            judge(c, "complex vector", "layout cv", &toz(&cv.to_complex_vec()), &w, f32::EPSILON as f64, norm(&w), B_FFT);
        } else {
            c.fail("complex vector refused", format!("n={n} {r:?}"));
        }
    });
    // large strided / split layouts
    x.run("large", if cfg!(miri) { 1 } else { 10 }, |c| {
        let n = match c.rng.below(16) {
            0 => 1usize << c.rng.range(16, 17),
            1 => c.rng.range(65535, 140_000),
            k if k % 2 == 0 => 1usize << c.rng.range(12, 15),
            _ => c.rng.logsize(4000, 30000),
        };
        let n = if STD { n } else { n.next_power_of_two() };
        let (_, x) = csignal::<f32>(&mut c.rng, n);
        let e = ScalarFftImpl::<f32>::default();
        let mut base = x.clone();
        if !c.call("plain", || e.fft(&mut base)).is_some_and(|r| r.is_ok()) {
            return c.fail("plain refused", format!("n={n}"));
        }
        let w = toz(&base);
        for op in [Op::Split, Op::Strided(3), Op::OopStrided(2, 3), Op::Oop] {
            let what = format!("large {}", format!("{op:?}").split('(').next().unwrap());
            if let Some(Ok(g)) = c.call(&what, || apply(&e, Some(&e), op, &x)) {
                judge(c, &what, "layout", &toz(&g), &w, f32::EPSILON as f64, norm(&w), B_FFT);
            } else {
                c.fail(format!("{what}: refused"), format!("n={n}"));
            }
        }
    });
}

// ------------------------------------------------------------------ P27
fn table_check<T: Sc>(c: &mut Case, what: &str, got: &[Complex<T>], len: usize, want: impl Fn(usize) -> Z, tol: f64) {
    c.ev();
    if got.len() != len {
        return c.fail(format!("{what}: wrong table length"), format!("{} instead of {len}", got.len()));
    }
    let mut worst = (0.0, 0);
    for (k, g) in got.iter().enumerate() {
        let w = want(k);
        let e = (z(g.re.f(), g.im.f()) - w).abs() / T::EPS;
        if !(e <= worst.0) {
            worst = (if e.is_nan() { f64::INFINITY } else { e }, k);
        }
    }
    c.ratio("table", worst.0 / tol, || format!("{what} len={len} index {}", worst.1));
    if worst.0 > tol {
        c.fail(format!("{what}: wrong root of unity"), format!("len={len} index {} error {:.2} eps", worst.1, worst.0));
    }
}
pub fn p27(x: &mut Ctx) {
    fn planner<T: Sc>(c: &mut Case) {
        let mut p = FftPlanner::<T>::new();
        let mut seen: Vec<(usize, Arc<[Complex<T>]>)> = vec![];
        let max = maxlen(c, 1 << 18, 1 << 14);
        for step in 0..c.rng.range(2, 12) {
            let n = if step > 0 && c.rng.chance(1, 3) {
                c.rng.pick(&seen).0
            } else if step > 0 && c.rng.chance(1, 2) {
                let near = c.rng.pick(&seen).0;
                kin(&mut c.rng, near, max)
            } else if c.rng.chance(1, 3) {
                c.rng.range(1, 1100)
            } else {
                length(&mut c.rng, u64::MAX, 0, max)
            };
            let Some(t) = c.call("get_twiddles", || p.get_twiddles(n)) else { return };
            c.sig(&format!("tw:{}:{n}", T::NAME));
            table_check(c, &format!("get_twiddles<{}>", T::NAME), &t, n / 2, |k| root(k as u64, n as u64), B_TAB);
            if let Some((_, old)) = seen.iter().find(|s| s.0 == n) {
                let same = Arc::ptr_eq(old, &t);
                c.check(same, "get_twiddles: repeated request returned another table", || format!("n={n}"));
            }
            seen.push((n, t));
            if c.rng.chance(1, 3) {
                let e = ScalarFftImpl::<T>::default();
                let mut d = csignal::<T>(&mut c.rng, 64).1;
                c.call("fft", || e.fft(&mut d));
            }
        }
        // a planner that transforms between the requests for its tables
        {
            use kofft::rfft::*;
            let mut r = RfftPlanner::<T>::new();
            let e = ScalarFftImpl::<T>::default();
            let mut held: Vec<(usize, bool, Arc<[Complex<T>]>)> = vec![];
            let sizes: Vec<usize> = (0..3).map(|_| if STD && c.rng.chance(1, 2) { c.rng.range(1, 700) } else { 1 << c.rng.range(0, 10) }).collect();
            for _ in 0..c.rng.range(2, 10) {
                let m = *c.rng.pick(&sizes);
                match c.rng.below(5) {
                    k @ (0 | 1) => {
                        let Some(t) = c.call("table", || if k == 0 { r.get_twiddles(m) } else { r.get_pack_twiddles(m) }) else { return };
                        table_check(c, if k == 0 { "RfftPlanner::get_twiddles (in use)" } else { "RfftPlanner::get_pack_twiddles (in use)" }, &t, m, |k| root(k as u64, 2 * m as u64), B_TAB);
                        if let Some(h) = held.iter().find(|h| h.0 == m && h.1 == (k == 0)) {
                            c.check(Arc::ptr_eq(&h.2, &t), "RfftPlanner: repeated request returned another table", || format!("m={m}"));
                        }
                        held.push((m, k == 0, t));
                    }
                    k => {
                        let mut x = rsignal::<T>(&mut c.rng, 2 * m).1;
                        let mut s = vec![Complex { re: T::of(1.0), im: T::of(0.0) }; m + 1];
                        let mut scr = s.clone();
                        c.call("transform", || match k {
                            2 => r.rfft(&e, &mut x, &mut s),
                            3 => r.irfft(&e, &mut s, &mut x),
                            _ if m % 2 == 0 => rfft_packed(&mut r, &e, &mut x, &mut s, &mut scr),
                            _ => irfft_packed(&mut r, &e, &mut s, &mut x, &mut scr),
                        });
                    }
                }
            }
            for (m, k, t) in &held {
                table_check(c, if *k { "RfftPlanner::get_twiddles (held)" } else { "RfftPlanner::get_pack_twiddles (held)" }, t, *m, |k| root(k as u64, 2 * *m as u64), B_TAB);
            }
        }
        // tables handed out earlier still hold their values
        for (n, t) in &seen {
            let n = *n as u64;
            table_check(c, &format!("get_twiddles<{}> (held)", T::NAME), t, n as usize / 2, |k| root(k as u64, n), B_TAB);
        }
    }
    /// One long-lived planner serving many lengths: every table stays shared and exact.
    fn crowd<T: Sc>(c: &mut Case) {
        let mut p = FftPlanner::<T>::new();
        let mut r = kofft::rfft::RfftPlanner::<T>::new();
        let count = c.rng.logsize(4, if c.full() { 3000 } else { 500 });
        let top = c.rng.logsize(count, 4000.max(2 * count));
        // [get_twiddles, rfft twiddles, pack twiddles, chirp]
        let mut seen: Vec<(usize, usize, Arc<[Complex<T>]>)> = vec![];
        let mut ask = |c: &mut Case, what: usize, n: usize| -> Option<Arc<[Complex<T>]>> {
            c.call("table", || match what {
                0 => p.get_twiddles(n),
                1 => r.get_twiddles(n),
                2 => r.get_pack_twiddles(n),
                #[cfg(feature = "std")]
                3 if n <= 700 => p.get_bluestein(n).0,
                _ => p.get_twiddles(n),
            })
        };
        let kinds = c.rng.range(1, 4);
        for _ in 0..count {
            let what = c.rng.below(kinds);
            let near = if seen.is_empty() { 2 } else { c.rng.pick(&seen).1 };
            let n = if c.rng.chance(1, 3) { kin(&mut c.rng, near, top).max(2) } else { c.rng.range(2, top) };
            let Some(t) = ask(c, what, n) else { return };
            seen.push((what, n, t));
        }
        c.sig(&format!("crowd:{}:{}", T::NAME, count.ilog2()));
        let mut first: std::collections::HashMap<(usize, usize), usize> = Default::default();
        for (i, (what, n, t)) in seen.iter().enumerate() {
            let what = if *what == 3 && !(*n <= 700 && STD) { 0 } else { *what };
            let j = *first.entry((what, *n)).or_insert(i);
            c.ev();
            if !Arc::ptr_eq(&seen[j].2, t) {
                return c.fail("a planner with many tables returned another table for a repeated request", format!("kind {what} n={n} after {count} requests"));
            }
        }
        for _ in 0..count.min(200) {
            let (what, n, old) = c.rng.pick(&seen).clone();
            let Some(t) = ask(c, what, n) else { return };
            c.ev();
            if !Arc::ptr_eq(&old, &t) {
                return c.fail("a planner with many tables returned another table for a repeated request", format!("kind {what} n={n} after {count} requests"));
            }
            match what {
                1 | 2 => table_check(c, "RfftPlanner table (crowded)", &t, n, |k| root(k as u64, 2 * n as u64), B_TAB),
                3 if n <= 700 && STD => table_check(c, "chirp (crowded)", &t, n, |i| root((i as u64 * i as u64) % (2 * n as u64), 2 * n as u64), B_TAB),
                _ => table_check(c, "get_twiddles (crowded)", &t, n / 2, |k| root(k as u64, n as u64), B_TAB),
            }
        }
    }
    x.run("crowd32", 60, crowd::<f32>);
    x.run("crowd64", 60, crowd::<f64>);
    // indices and lengths that single precision cannot represent
    x.run("huge", 2, |c| {
        if !c.full() || c.idx > 1 || cfg!(miri) {
            return;
        }
        if c.idx == 0 {
            let n = (1 << 24) + 1 + 2 * c.rng.below(5000);
            let mut p = FftPlanner::<f64>::new();
            let Some(t) = c.call("get_twiddles", || p.get_twiddles(n)) else { return };
            table_check(c, "get_twiddles<f64> (huge)", &t, n / 2, |k| root(k as u64, n as u64), B_TAB);
            c.sig(&format!("huge:{n}"));
        } else {
            let m = (1 << 24) + 3 + c.rng.below(5000);
            let mut p = kofft::rfft::RfftPlanner::<f64>::new();
            let Some(t) = c.call("get_twiddles", || p.get_twiddles(m)) else { return };
            table_check(c, "RfftPlanner::get_twiddles<f64> (huge)", &t, m, |k| root(k as u64, 2 * m as u64), B_TAB);
            c.sig(&format!("huge r:{m}"));
        }
    });
    x.run("planner32", 120, planner::<f32>);
    x.run("planner64", 100, planner::<f64>);
    x.run("small", 1100, |c| {
        let n = (c.idx % 1100) as usize + 1;
        let (mut p, mut d) = (FftPlanner::<f32>::new(), FftPlanner::<f64>::new());
        let Some((a, b)) = c.call("get_twiddles", || (p.get_twiddles(n), d.get_twiddles(n))) else { return };
        table_check(c, "get_twiddles<f32>", &a, n / 2, |k| root(k as u64, n as u64), B_TAB);
        table_check(c, "get_twiddles<f64>", &b, n / 2, |k| root(k as u64, n as u64), B_TAB);
        let (mut rp, mut rd) = (kofft::rfft::RfftPlanner::<f32>::new(), kofft::rfft::RfftPlanner::<f64>::new());
        let Some((a, b)) = c.call("rfft get_twiddles", || (rp.get_twiddles(n), rd.get_pack_twiddles(n))) else { return };
        table_check(c, "RfftPlanner::get_twiddles<f32>", &a, n, |k| root(k as u64, 2 * n as u64), B_TAB);
        table_check(c, "RfftPlanner::get_pack_twiddles<f64>", &b, n, |k| root(k as u64, 2 * n as u64), B_TAB);
        c.sig(&format!("small:{n}"));
    });
    #[cfg(feature = "std")]
    {
        fn blue<T: Sc>(c: &mut Case) {
            let mut p = FftPlanner::<T>::new();
            let max = maxlen(c, 1 << 16, 6000);
            let mut seen = vec![];
            for _ in 0..3 {
                let near = seen.last().map_or(0, |s: &(usize, _)| s.0);
                let n = if near > 0 && c.rng.chance(1, 2) {
                    kin(&mut c.rng, near, max)
                } else if c.rng.chance(1, 2) {
                    c.rng.range(1, 300)
                } else {
                    length(&mut c.rng, u64::MAX, 0, max)
                };
                let Some((ch, bf)) = c.call("get_bluestein", || p.get_bluestein(n)) else { return };
                c.sig(&format!("bl:{}:{n}", T::NAME));
                let per = 2 * n as u64;
                let what = format!("get_bluestein<{}> chirp", T::NAME);
                table_check(c, &what, &ch, n, |i| root((i as u64 * i as u64) % per, per), B_TAB);
                // second element: DFT of the wrapped conjugate chirp
                let m = bf.len();
                c.check(m.is_power_of_two() && m >= 2 * n - 1, "get_bluestein: convolution length", || format!("n={n} m={m}"));
                let mut b = vec![Z::default(); m.max(n)];
                for i in 0..n {
                    let w = root((i as u64 * i as u64) % per, per).conj();
                    b[i] = w;
                    if i > 0 {
                        b[m - i] = w;
                    }
                }
                let w = fft_ref(&b[..m]);
                judge(c, &format!("get_bluestein<{}> spectrum", T::NAME), "bluestein", &toz(&bf), &w, T::EPS, norm(&w), B_FFT);
                let Some((c2, b2)) = c.call("get_bluestein", || p.get_bluestein(n)) else { return };
                c.check(Arc::ptr_eq(&ch, &c2) && Arc::ptr_eq(&bf, &b2), "get_bluestein: repeated request returned other tables", || format!("n={n}"));
                seen.push((n, ch));
            }
        }
        x.run("bluestein32", 120, blue::<f32>);
        x.run("bluestein64", 100, blue::<f64>);
        x.run("buffer", 150, |c| {
            let n = if c.rng.chance(1, 2) { c.rng.range(2, 600) } else { c.rng.logsize(2, 1 << 17) };
            let Some(b) = c.call("TwiddleFactorBuffer::new", || TwiddleFactorBuffer::new(n)) else { return };
            c.sig(&format!("buf:{n}"));
            c.check(b.n == n, "TwiddleFactorBuffer.n", || format!("{} for {n}", b.n));
            table_check(c, "TwiddleFactorBuffer", &b.twiddles, n / 2, |k| root(k as u64, n as u64), B_TAB);
            for _ in 0..20 {
                let k = c.rng.below(n / 2);
                let g = b.get(k);
                let e = (z(g.re as f64, g.im as f64) - root(k as u64, n as u64)).abs();
                c.check(e <= B_TAB * f32::EPSILON as f64, "TwiddleFactorBuffer::get", || format!("n={n} k={k} err {e}"));
            }
        });
    }
    fn rp<T: Sc>(c: &mut Case) {
        use kofft::rfft::RfftPlanner;
        let mut p = RfftPlanner::<T>::new();
        let mut seen: Vec<(bool, usize, Arc<[Complex<T>]>)> = vec![];
        let max = maxlen(c, 1 << 18, 1 << 14);
        for step in 0..c.rng.range(2, 10) {
            let m = if step > 0 && c.rng.chance(2, 3) {
                let near = c.rng.pick(&seen).1;
                if c.rng.chance(1, 2) { near } else { kin(&mut c.rng, near, max) }
            } else {
                length(&mut c.rng, u64::MAX, 0, max)
            };
            let pack = c.rng.chance(1, 2);
            let Some(t) = c.call("tables", || if pack { p.get_pack_twiddles(m) } else { p.get_twiddles(m) }) else { return };
            c.sig(&format!("rt:{}:{m}", T::NAME));
            table_check(c, &format!("RfftPlanner tables<{}>", T::NAME), &t, m, |k| root(k as u64, 2 * m as u64), B_TAB);
            if let Some(s) = seen.iter().find(|s| s.1 == m && s.0 == pack) {
                let same = Arc::ptr_eq(&s.2, &t);
                c.check(same, "RfftPlanner: repeated request returned another table", || format!("m={m}"));
            }
            seen.push((pack, m, t));
            if c.rng.chance(1, 2) && (STD || m.is_power_of_two()) && m < 4096 {
                let mut xr = vec![T::of(1.0); 2 * m];
                let mut o = vec![cx::<T>(0.0, 0.0); m + 1];
                c.call("rfft", || p.rfft(&ScalarFftImpl::<T>::default(), &mut xr, &mut o));
            }
        }
    }
    x.run("rfft32", 100, rp::<f32>);
    x.run("rfft64", 80, rp::<f64>);
    // sine tables of the DST planner
    x.run("dsttables", 60, |c| {
        let n = c.rng.range(1, 2000);
        let mut p = kofft::dst::DstPlanner::<f64>::new();
        for _ in 0..c.rng.below(3) {
            let m = if c.rng.chance(1, 2) { kin(&mut c.rng, n, 4096) } else { c.rng.range(1, 300) };
            c.call("plan_dst", || {
                p.plan_dst2(m);
                p.plan_dst3(m);
                p.plan_dst4(m);
                p.scratch(m);
            });
        }
        let (nn, pi) = (n as f64, std::f64::consts::PI);
        for (k, off) in [(2, 0.5), (3, 0.0), (4, 0.5)] {
            let Some(t) = c.call("plan_dst", || match k {
                2 => p.plan_dst2(n).to_vec(),
                3 => p.plan_dst3(n).to_vec(),
                _ => p.plan_dst4(n).to_vec(),
            }) else { return };
            let ok = t.len() == n && t.iter().enumerate().all(|(i, &v)| (v - (pi / nn * (i as f64 + off)).sin()).abs() < 1e-14);
            c.check(ok, "DstPlanner sine table", || format!("type {k} n={n}"));
        }
        c.sig(&format!("dst:{n}"));
    });
}

// ------------------------------------------------------------------ P28
/// Mostly short containers, now and then one that sixteen bits cannot count.
fn container_len(c: &mut Case) -> usize {
    if cfg!(miri) {
        c.rng.range(0, 40)
    } else if c.rng.chance(1, 60) {
        *c.rng.pick(&[65535usize, 65536, 65537, 100_003, 131_072, 131_073, 262_145])
    } else {
        c.rng.logsize(1, 5000) - c.rng.below(2)
    }
}
pub fn p28(x: &mut Ctx) {
    fn arith<T: Sc>(c: &mut Case) {
        for _ in 0..if cfg!(miri) { 8 } else { 200 } {
            let mut g = |big: f64| {
                let m = 10f64.powf(c.rng.uni(-big, big));
                T::of(match c.rng.below(12) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => 1.0,
                    3 => -1.0,
                    4 => c.rng.below(1000) as f64,
                    _ => m * c.rng.uni(-1.0, 1.0),
                })
            };
            let big = T::big();
            let a = Complex { re: g(big), im: g(big) };
            let b = Complex { re: g(big), im: g(big) };
            let (za, zb) = (z(a.re.f(), a.im.f()), z(b.re.f(), b.im.f()));
            let eps = T::EPS;
            let d = || format!("a={za:?} b={zb:?}");
            c.evals += 8;
            let near = |g: T, w: f64, scale: f64| (g.f() - w).abs() <= 2.0 * eps * scale + f64::MIN_POSITIVE;
            // one rounding per component
            for (nm, s) in [("Complex::add", Complex::add(a, b)), ("operator +", a + b)] {
                if !(near(s.re, za.re + zb.re, (za.re + zb.re).abs()) && near(s.im, za.im + zb.im, (za.im + zb.im).abs())) {
                    c.fail(format!("{nm}<{}>", T::NAME), d());
                }
            }
            for (nm, s) in [("Complex::sub", Complex::sub(a, b)), ("operator -", a - b)] {
                if !(near(s.re, za.re - zb.re, (za.re - zb.re).abs()) && near(s.im, za.im - zb.im, (za.im - zb.im).abs())) {
                    c.fail(format!("{nm}<{}>", T::NAME), d());
                }
            }
            // each component: two products and one sum, error relative to the products
            for (nm, s) in [("Complex::mul", Complex::mul(a, b)), ("operator *", a * b)] {
                let w = za * zb;
                let tiny = if is32::<T>() { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
                let sr = (za.re * zb.re).abs() + (za.im * zb.im).abs() + tiny / eps;
                let si = (za.re * zb.im).abs() + (za.im * zb.re).abs() + tiny / eps;
                if !(near(s.re, w.re, sr) && near(s.im, w.im, si)) {
                    c.fail(format!("{nm}<{}>", T::NAME), format!("{} got {:?}", d(), (s.re.f(), s.im.f())));
                }
            }
            let s = -a;
            if s.re.f() != -za.re || s.im.f() != -za.im {
                c.fail(format!("negation<{}>", T::NAME), d());
            }
            let s = Complex::<T>::new(a.re, b.im);
            if s.re.bits() != a.re.bits() || s.im.bits() != b.im.bits() {
                c.fail(format!("Complex::new<{}>", T::NAME), d());
            }
            let zz = Complex::<T>::zero();
            if zz.re.f() != 0.0 || zz.im.f() != 0.0 {
                c.fail(format!("Complex::zero<{}>", T::NAME), d());
            }
            // exp(i theta), angles of the size the transforms use
            let th = T::of(c.rng.uni(-60.0, 60.0));
            let s = Complex::<T>::expi(th);
            let (w, tol) = (z(th.f().cos(), th.f().sin()), 3.0 * eps);
            if !((s.re.f() - w.re).abs() <= tol && (s.im.f() - w.im).abs() <= tol) {
                c.fail(format!("Complex::expi<{}>", T::NAME), format!("theta={} got {:?}", th.f(), (s.re.f(), s.im.f())));
            }
            // Float helpers the transforms are built from
            let v = T::of(c.rng.uni(-40.0, 40.0));
            let (sn, cs) = v.sin_cos();
            let ok = (v.sin().f() - v.f().sin()).abs() <= tol
                && (v.cos().f() - v.f().cos()).abs() <= tol
                && (sn.f() - v.f().sin()).abs() <= tol
                && (cs.f() - v.f().cos()).abs() <= tol
                && T::zero().f() == 0.0
                && T::one().f() == 1.0
                && (T::pi().f() - std::f64::consts::PI).abs() <= eps * 2.0
                && T::from_f32(1.5).f() == 1.5;
            if !ok {
                c.fail(format!("Float functions<{}>", T::NAME), format!("v={}", v.f()));
            }
            let (p, q) = (T::of(c.rng.uni(-9.0, 9.0)), T::of(c.rng.uni(-9.0, 9.0)));
            let w = v.f() * p.f() + q.f();
            let sc = (v.f() * p.f()).abs() + q.f().abs();
            let m = Float::mul_add(v, p, q);
            if (m.f() - w).abs() > 2.0 * eps * sc {
                c.fail(format!("Float::mul_add<{}>", T::NAME), format!("{} * {} + {}", v.f(), p.f(), q.f()));
            }
        }
    }
    x.run("arith32", 60, arith::<f32>);
    x.run("arith64", 60, arith::<f64>);
    fn conv<T: Sc>(c: &mut Case) {
        let n = container_len(c);
        let (_, x) = csignal::<T>(&mut c.rng, n);
        c.sig(&format!("conv:{}:{n}", T::NAME));
        let (mut re, mut im) = (vec![T::of(7.0); n], vec![T::of(8.0); n]);
        c.call("copy_from_complex", || copy_from_complex(&x, &mut re, &mut im));
        let ok = (0..n).all(|i| re[i].bits() == x[i].re.bits() && im[i].bits() == x[i].im.bits());
        c.check(ok, "copy_from_complex", || format!("n={n}"));
        let mut out = vec![cx::<T>(1.0, 2.0); n];
        c.call("copy_to_complex", || copy_to_complex(&re, &im, &mut out));
        c.check(same_bits(&out, &x), "copy_to_complex", || format!("n={n}"));
        let (mut r2, mut i2) = (vec![T::of(7.0); n], vec![T::of(8.0); n]);
        let mut out = vec![cx::<T>(1.0, 2.0); n];
        let l = c.call("SplitComplex", || {
            let s = SplitComplex::copy_from_complex(&x, &mut r2, &mut i2);
            s.copy_to_complex(&mut out);
            (s.len(), s.is_empty())
        });
        c.check(l == Some((n, n == 0)) && same_bits(&out, &x), "SplitComplex round trip", || format!("n={n} {l:?}"));
        c.check((0..n).all(|i| r2[i].bits() == x[i].re.bits() && i2[i].bits() == x[i].im.bits()), "SplitComplex parts", || format!("n={n}"));
    }
    x.run("conv32", 120, conv::<f32>);
    x.run("conv64", 120, conv::<f64>);
    x.run("complexvec", 120, |c| {
        use kofft::num::ComplexVec;
        let n = container_len(c);
        let (_, x) = csignal::<f32>(&mut c.rng, n);
        c.sig(&format!("cv:{n}"));
        let Some(mut v) = c.call("ComplexVec::from_complex_vec", || ComplexVec::from_complex_vec(&x)) else { return };
        c.check(v.len() == n && v.is_empty() == (n == 0), "ComplexVec::len", || format!("n={n}"));
        let ok = {
            let (re, im) = v.as_slices();
            re.len() == n && im.len() == n && (0..n).all(|i| re[i].to_bits() == x[i].re.to_bits() && im[i].to_bits() == x[i].im.to_bits())
        };
        c.check(ok, "ComplexVec::as_slices", || format!("n={n}"));
        c.check(same_bits(&v.to_complex_vec(), &x), "ComplexVec::to_complex_vec", || format!("n={n}"));
        if n > 0 {
            let k = c.rng.below(n);
            {
                let (re, im) = v.as_mut_slices();
                re[k] = 42.0;
                im[k] = -43.0;
            }
            let w = v.to_complex_vec();
            c.check(w[k].re == 42.0 && w[k].im == -43.0, "ComplexVec::as_mut_slices", || format!("n={n} k={k}"));
        }
        let v2: ComplexVec = x.clone().into();
        let back: Vec<Complex32> = v2.into();
        c.check(same_bits(&back, &x), "ComplexVec From/Into", || format!("n={n}"));
        let v3 = ComplexVec::new(x.iter().map(|c| c.re).collect(), x.iter().map(|c| c.im).collect());
        c.check(same_bits(&v3.to_complex_vec(), &x), "ComplexVec::new", || format!("n={n}"));
        let (mut re, mut im) = (vec![0.0f32; n], vec![0.0f32; n]);
        let mut out = vec![Complex32::new(9.0, 9.0); n];
        c.call("complex32_to_split", || {
            let s = complex32_to_split(&x, &mut re, &mut im);
            split_to_complex32(&s, &mut out);
        });
        c.check(same_bits(&out, &x), "complex32_to_split round trip", || format!("n={n}"));
    });
}
