//! P05: every invalid request is refused with the documented error and changes nothing.
use crate::engines::*;
use crate::fw::*;
use crate::oracle::*;
use kofft::fft::*;
use kofft::Complex;
use FftError::*;

/// What a request may return.
#[derive(Debug, Clone)]
pub enum Exp {
    Ok,
    Err(Vec<FftError>),
    /// Both readings of the documentation are acceptable, success or these errors.
    Either(Vec<FftError>),
}
fn err(e: &[FftError]) -> Exp {
    Exp::Err(e.to_vec())
}
/// Returns true when the request was refused (so nothing may have changed).
pub fn verdict(c: &mut Case, what: &str, args: &str, exp: Exp, got: Option<Result<(), FftError>>) -> bool {
    let Some(got) = got else { return false };
    c.ev();
    c.cover(format!(
        "{}:{}",
        what.split('<').next().unwrap_or(what),
        match &got {
            Ok(()) => "Ok".to_string(),
            Err(e) => format!("{e:?}"),
        }
    ));
    c.sig(&format!("{what} {args} {got:?}"));
    match (&exp, &got) {
        (Exp::Ok, Ok(())) => {}
        (Exp::Err(l), Err(e)) if l.contains(e) => {}
        (Exp::Either(_), Ok(())) => {}
        (Exp::Either(l), Err(e)) if l.contains(e) => {}
        (Exp::Ok, Err(e)) => c.fail(format!("{what}: valid request refused"), format!("{args}: {e:?}")),
        (Exp::Err(l), Ok(())) => c.fail(format!("{what}: invalid request reported success"), format!("{args}: expected {l:?}")),
        (Exp::Err(l) | Exp::Either(l), Err(e)) => c.fail(format!("{what}: wrong error kind"), format!("{args}: got {e:?}, expected one of {l:?}")),
    }
    got.is_err()
}
fn keep<T: Sc>(c: &mut Case, what: &str, args: &str, a: &[Complex<T>], b: &[Complex<T>]) {
    c.check(same_bits(a, b), &format!("{what}: refused but changed the data"), || args.to_string());
}
fn keep_r<T: Sc>(c: &mut Case, what: &str, args: &str, a: &[T], b: &[T]) {
    c.check(same_bits_r(a, b), &format!("{what}: refused but changed the data"), || args.to_string());
}
fn len(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => r.range(0, 9),
        7..=8 => 1 << r.range(0, if cfg!(miri) { 5 } else { 9 }),
        _ => r.range(0, if cfg!(miri) { 20 } else { 130 }),
    }
}
fn stride(r: &mut Rng) -> usize {
    match r.below(12) {
        0 | 1 => 0,
        2 => usize::MAX,
        3 => usize::MAX / 2 + 1,
        4 => 1 << r.range(30, 63),
        5 => usize::MAX / r.range(2, 9) + r.below(3),
        6 => r.range(100, 5000),
        _ => r.range(1, 8),
    }
}
/// Outcome of transforming `n` elements with an any-length algorithm.
fn of_len(n: usize) -> Exp {
    if n == 0 {
        err(&[EmptyInput])
    } else if any_len(n) {
        Exp::Ok
    } else {
        err(&[NonPowerOfTwoNoStd])
    }
}
fn fft_requests<T: Sc>(c: &mut Case) {
    let (en, e) = pick_engine::<T>(&mut c.rng);
    let t = T::NAME;
    for _ in 0..12 {
        let inv = c.rng.chance(1, 2);
        let d = if inv { "i" } else { "" };
        let n = len(&mut c.rng);
        let (_, x) = csignal::<T>(&mut c.rng, n);
        match c.rng.below(8) {
            0 => {
                let what = format!("{en}.{d}fft<{t}>");
                let mut v = x.clone();
                let args = format!("n={n}");
                let r = c.call(&what, || if inv { e.ifft(&mut v) } else { e.fft(&mut v) });
                if verdict(c, &what, &args, of_len(n), r) {
                    keep(c, &what, &args, &v, &x);
                }
            }
            1 => {
                let k = c.rng.below(4);
                let what = format!("{en}.fft_with_strategy({})<{t}>", STRATS[k].1);
                let mut v = x.clone();
                let args = format!("n={n}");
                let r = c.call(&what, || e.fft_with_strategy(&mut v, STRATS[k].0));
                if verdict(c, &what, &args, of_len(n), r) {
                    keep(c, &what, &args, &v, &x);
                }
            }
            2 => {
                let m = if c.rng.chance(1, 2) { n } else { len(&mut c.rng) };
                let what = format!("{en}.{d}fft_out_of_place<{t}>");
                let out0 = csignal::<T>(&mut c.rng, m).1;
                let (i, mut o) = (x.clone(), out0.clone());
                let args = format!("in={n} out={m}");
                let exp = if n != m { err(&[MismatchedLengths]) } else { of_len(n) };
                let r = c.call(&what, || if inv { e.ifft_out_of_place(&i, &mut o) } else { e.fft_out_of_place(&i, &mut o) });
                verdict(c, &what, &args, exp, r);
                keep(c, &format!("{what} input"), &args, &i, &x);
            }
            3 => {
                let (s, m) = (stride(&mut c.rng), len(&mut c.rng));
                let what = format!("{en}.{d}fft_strided<{t}>");
                let mut v = x.clone();
                let mut scr = vec![cx::<T>(1.0, 2.0); m];
                let args = format!("len={n} stride={s} scratch={m}");
                let need = m.checked_sub(1).map(|k| (k as u128) * (s as u128));
                let exp = if s == 0 {
                    if m == 0 {
                        err(&[InvalidStride, EmptyInput])
                    } else {
                        err(&[InvalidStride])
                    }
                } else if m == 0 {
                    Exp::Either(vec![EmptyInput])
                } else if need.unwrap() >= n as u128 {
                    err(if n == 0 { &[MismatchedLengths, EmptyInput] } else { &[MismatchedLengths] })
                } else {
                    of_len(m)
                };
                let r = c.call(&what, || if inv { e.ifft_strided(&mut v, s, &mut scr) } else { e.fft_strided(&mut v, s, &mut scr) });
                if verdict(c, &what, &args, exp, r) {
                    keep(c, &what, &args, &v, &x);
                }
            }
            4 => {
                let s = stride(&mut c.rng);
                let what = format!("{en}.{d}fft_strided_alloc<{t}>");
                let mut v = x.clone();
                let args = format!("len={n} stride={s}");
                let exp = if s == 0 {
                    err(&[InvalidStride])
                } else if n / s == 0 {
                    Exp::Either(vec![EmptyInput, MismatchedLengths, InvalidStride])
                } else {
                    of_len(n / s)
                };
                let r = c.call(&what, || if inv { e.ifft_strided_alloc(&mut v, s) } else { e.fft_strided_alloc(&mut v, s) });
                if verdict(c, &what, &args, exp, r) {
                    keep(c, &what, &args, &v, &x);
                }
            }
            5 => {
                let (s1, s2) = (stride(&mut c.rng), stride(&mut c.rng));
                let small = s1 < 100 && s2 < 100;
                let k = c.rng.range(0, 20);
                let (n, m) = if small && c.rng.chance(2, 3) { (k * s1, k * s2) } else { (n, len(&mut c.rng)) };
                let what = format!("{en}.{d}fft_out_of_place_strided<{t}>");
                let x = csignal::<T>(&mut c.rng, n).1;
                let out0 = csignal::<T>(&mut c.rng, m).1;
                let (i, mut o) = (x.clone(), out0.clone());
                let args = format!("in={n}/{s1} out={m}/{s2}");
                let exp = if s1 == 0 || s2 == 0 || n % s1 != 0 || m % s2 != 0 {
                    err(&[InvalidStride])
                } else if n / s1 != m / s2 {
                    err(&[MismatchedLengths])
                } else if n == 0 {
                    err(&[EmptyInput])
                } else {
                    of_len(n / s1)
                };
                let r = c.call(&what, || {
                    if inv {
                        e.ifft_out_of_place_strided(&i, s1, &mut o, s2)
                    } else {
                        e.fft_out_of_place_strided(&i, s1, &mut o, s2)
                    }
                });
                if verdict(c, &what, &args, exp, r) {
                    keep(c, &what, &args, &o, &out0);
                }
                keep(c, &format!("{what} input"), &args, &i, &x);
            }
            6 => {
                let m = if c.rng.chance(1, 2) { n } else { len(&mut c.rng) };
                let what = format!("{en}.{d}fft_split<{t}>");
                let (_, re0) = rsignal::<T>(&mut c.rng, n);
                let (_, im0) = rsignal::<T>(&mut c.rng, m);
                let (mut re, mut im) = (re0.clone(), im0.clone());
                let args = format!("re={n} im={m}");
                let exp = if n != m { err(&[MismatchedLengths]) } else { of_len(n) };
                let free = c.rng.chance(1, 2);
                let r = c.call(&what, || match (free, inv) {
                    (false, false) => e.fft_split(&mut re, &mut im),
                    (false, true) => e.ifft_split(&mut re, &mut im),
                    (true, false) => fft_split(&mut re, &mut im),
                    (true, true) => ifft_split(&mut re, &mut im),
                });
                if verdict(c, &what, &args, exp, r) {
                    keep_r(c, &what, &args, &re, &re0);
                    keep_r(c, &what, &args, &im, &im0);
                }
            }
            _ => {
                // batches stop at the first rejected element
                let k = c.rng.range(0, 4);
                let b0: Vec<Vec<Complex<T>>> = (0..k)
                    .map(|_| {
                        let n = len(&mut c.rng);
                        csignal::<T>(&mut c.rng, n).1
                    })
                    .collect();
                let mut b = b0.clone();
                let bad = b0.iter().position(|v| !matches!(of_len(v.len()), Exp::Ok));
                let exp = bad.map_or(Exp::Ok, |i| of_len(b0[i].len()));
                let what = format!("batch<{t}>");
                let args = format!("{:?}", b0.iter().map(|v| v.len()).collect::<Vec<_>>());
                let eng = ScalarFftImpl::<T>::default();
                let r = c.call(&what, || if inv { batch_inverse(&eng, &mut b) } else { batch(&eng, &mut b) });
                if verdict(c, &what, &args, exp, r) {
                    for i in bad.unwrap_or(0)..k {
                        keep(c, &what, &args, &b[i], &b0[i]);
                    }
                }
            }
        }
    }
}
/// Every in-place entry point on empty and unsupported lengths; length 1 succeeds.
fn entry_lengths<T: Sc>(c: &mut Case, inv: bool) {
    let list = if inv { inverse::<T>() } else { forward::<T>() };
    let n = [0usize, 1, 2, 3, 5, 6, 7, 9, 12, 0, 15, 24, 31, 33, 49, 100, 127, 250][c.rng.below(18)];
    let (_, x) = csignal::<T>(&mut c.rng, n);
    for e in &list {
        if !(e.offer)(n) && !(n == 0 && (e.offer)(2)) {
            continue;
        }
        if n == 0 && e.name.contains("stack") {
            continue;
        }
        let what = format!("{}<{}>", e.name, T::NAME);
        let mut v = x.clone();
        let r = c.call(&what, || (e.f)(&mut v));
        let strided = e.name.contains("strided");
        let exp = if n == 0 {
            if strided {
                Exp::Either(vec![EmptyInput])
            } else {
                err(&[EmptyInput])
            }
        } else if (e.ok)(n) {
            Exp::Ok
        } else {
            err(&[NonPowerOfTwoNoStd])
        };
        let args = format!("n={n}");
        if verdict(c, &what, &args, exp, r) {
            keep(c, &what, &args, &v, &x);
        }
    }
}
#[cfg(feature = "std")]
fn plans<T: Sc>(c: &mut Case) {
    let n = len(&mut c.rng);
    let m = if c.rng.chance(1, 3) { n } else { len(&mut c.rng) };
    let o_len = if c.rng.chance(1, 2) { m } else { len(&mut c.rng) };
    let k = c.rng.below(4);
    let t = T::NAME;
    let Some(p) = c.call("FftPlan::new", || FftPlan::<T>::new(n, STRATS[k].0)) else { return };
    let (_, x) = csignal::<T>(&mut c.rng, m);
    let args = format!("plan={n} {} data={m} other={o_len}", STRATS[k].1);
    let fits = |l: usize| {
        if l != n {
            if l == 0 {
                err(&[MismatchedLengths, EmptyInput])
            } else {
                err(&[MismatchedLengths])
            }
        } else {
            of_len(n)
        }
    };
    for inv in [false, true] {
        let d = if inv { "i" } else { "" };
        let what = format!("FftPlan::{d}fft<{t}>");
        let mut v = x.clone();
        let r = c.call(&what, || if inv { p.ifft(&mut v) } else { p.fft(&mut v) });
        if verdict(c, &what, &args, fits(m), r) {
            keep(c, &what, &args, &v, &x);
        }
        let what = format!("FftPlan::{d}fft_out_of_place<{t}>");
        let out0 = csignal::<T>(&mut c.rng, o_len).1;
        let (i, mut o) = (x.clone(), out0.clone());
        let exp = if m != o_len { err(&[MismatchedLengths]) } else { fits(m) };
        let r = c.call(&what, || if inv { p.ifft_out_of_place(&i, &mut o) } else { p.fft_out_of_place(&i, &mut o) });
        verdict(c, &what, &args, exp, r);
        keep(c, &format!("{what} input"), &args, &i, &x);
        let what = format!("FftPlan::{d}fft_split<{t}>");
        let (_, re0) = rsignal::<T>(&mut c.rng, m);
        let (_, im0) = rsignal::<T>(&mut c.rng, o_len);
        let (mut re, mut im) = (re0.clone(), im0.clone());
        let exp = if m != o_len { err(&[MismatchedLengths]) } else { fits(m) };
        let r = c.call(&what, || if inv { p.ifft_split(&mut re, &mut im) } else { p.fft_split(&mut re, &mut im) });
        if verdict(c, &what, &args, exp, r) {
            keep_r(c, &what, &args, &re, &re0);
            keep_r(c, &what, &args, &im, &im0);
        }
    }
}
fn real_requests<T: Sc>(c: &mut Case) {
    use kofft::rfft::*;
    let t = T::NAME;
    let n = len(&mut c.rng);
    let m = n / 2;
    let ol = if c.rng.chance(2, 3) { m + 1 } else { len(&mut c.rng) };
    let sl = if c.rng.chance(1, 2) { m } else { len(&mut c.rng) };
    let mut p = RfftPlanner::<T>::new();
    let e = ScalarFftImpl::<T>::default();
    let args = format!("n={n} spectrum={ol} scratch={sl}");
    let exp = |scr: bool| {
        let mut l = vec![];
        if n == 0 {
            l.push(EmptyInput)
        }
        if n % 2 == 1 {
            l.push(InvalidValue)
        }
        if ol != m + 1 || (scr && sl < m) {
            l.push(MismatchedLengths)
        }
        // reported in this order of precedence
        l.truncate(1);
        if l.is_empty() {
            match of_len(m) {
                Exp::Ok => Exp::Ok,
                x => x,
            }
        } else {
            Exp::Err(l)
        }
    };
    for op in 0..5 {
        let (_, x) = rsignal::<T>(&mut c.rng, n);
        let mut xi = x.clone();
        let mut so = vec![cx::<T>(3.0, 4.0); ol];
        let mut scr = vec![cx::<T>(5.0, 6.0); sl];
        let what = format!("{}<{t}>", ["RfftPlanner::rfft", "RfftPlanner::rfft_with_scratch", "rfft_packed", "RealFftImpl::rfft", "RealFftImpl::rfft_with_scratch"][op]);
        let r = c.call(&what, || match op {
            0 => p.rfft(&e, &mut xi, &mut so),
            1 => p.rfft_with_scratch(&e, &mut xi, &mut so, &mut scr),
            2 => rfft_packed(&mut p, &e, &mut xi, &mut so, &mut scr),
            3 => RealFftImpl::rfft(&e, &mut xi, &mut so),
            _ => RealFftImpl::rfft_with_scratch(&e, &mut xi, &mut so, &mut scr),
        });
        if verdict(c, &what, &args, exp(matches!(op, 1 | 2 | 4)), r) {
            keep_r(c, &format!("{what} input"), &args, &xi, &x);
        }
        let (_, s) = csignal::<T>(&mut c.rng, ol);
        let mut si = s.clone();
        let mut xo = vec![T::of(9.0); n];
        let what = format!("{}<{t}>", ["RfftPlanner::irfft", "RfftPlanner::irfft_with_scratch", "irfft_packed", "RealFftImpl::irfft", "RealFftImpl::irfft_with_scratch"][op]);
        let r = c.call(&what, || match op {
            0 => p.irfft(&e, &mut si, &mut xo),
            1 => p.irfft_with_scratch(&e, &mut si, &mut xo, &mut scr),
            2 => irfft_packed(&mut p, &e, &mut si, &mut xo, &mut scr),
            3 => RealFftImpl::irfft(&e, &mut si, &mut xo),
            _ => RealFftImpl::irfft_with_scratch(&e, &mut si, &mut xo, &mut scr),
        });
        if verdict(c, &what, &args, exp(matches!(op, 1 | 2 | 4)), r) {
            keep(c, &format!("{what} input"), &args, &si, &s);
        }
    }
    if is32::<T>() {
        macro_rules! st {
            ($n:literal, $m:literal) => {{
                let x = [0.5f32; $n];
                let mut o = [Complex32::new(0.0, 0.0); $m];
                let exp = if $n == 0 {
                    err(&[EmptyInput])
                } else if $n % 2 == 1 {
                    err(&[InvalidValue])
                } else if $m != $n / 2 + 1 {
                    err(&[MismatchedLengths])
                } else if ($n as usize).is_power_of_two() {
                    Exp::Ok
                } else {
                    Exp::Either(vec![NonPowerOfTwoNoStd, InvalidValue])
                };
                let r = c.call("rfft_stack", || rfft_stack::<$n, $m>(&x, &mut o));
                let lax = match &exp {
                    Exp::Err(_) => err(&[EmptyInput, InvalidValue, MismatchedLengths, NonPowerOfTwoNoStd]),
                    x => x.clone(),
                };
                verdict(c, "rfft_stack", concat!($n, ",", $m), lax.clone(), r);
                let s = [Complex32::new(1.0, 0.0); $m];
                let mut y = [0.0f32; $n];
                let r = c.call("irfft_stack", || irfft_stack::<$n, $m>(&s, &mut y));
                verdict(c, "irfft_stack", concat!($n, ",", $m), lax, r);
            }};
        }
        st!(8, 5);
        st!(8, 4);
        st!(8, 8);
        st!(2, 2);
        st!(16, 10);
        st!(5, 3);
        st!(12, 7);
        st!(4, 1);
    }
}
fn nd<T: Sc>(c: &mut Case) {
    use kofft::ndfft::*;
    let t = T::NAME;
    let e = ScalarFftImpl::<T>::default();
    let dim = |r: &mut Rng| match r.below(10) {
        0 => 0,
        1 => 1 << r.range(30, 63),
        2 => usize::MAX / r.range(1, 5),
        _ => r.range(1, if STD { 7 } else { 4 }),
    };
    for _ in 0..6 {
        let (d, r_, k) = (dim(&mut c.rng), dim(&mut c.rng), dim(&mut c.rng));
        let pr = |a: usize, b: usize| if a.min(b) == 0 { Some(0) } else { a.checked_mul(b) };
        let small = |v: Option<usize>| v.filter(|&v| v < 2000);
        let nlen = |c: &mut Case, v: Option<usize>| match v {
            Some(v) if c.rng.chance(3, 4) => v,
            // also the product modulo 2^64
            _ if c.rng.chance(1, 2) => 0,
            _ => len(&mut c.rng),
        };
        // 2-D
        let n = nlen(c, small(pr(r_, k)));
        let sl = if r_ < 2000 && c.rng.chance(3, 4) { r_ } else { len(&mut c.rng) };
        let (_, x) = csignal::<T>(&mut c.rng, n);
        let mut v = x.clone();
        let mut s = vec![cx::<T>(1.0, 1.0); sl];
        let args = format!("data={n} rows={r_} cols={k} scratch={sl}");
        let what = format!("fft2d_inplace<{t}>");
        let exact = (r_ as u128) * (k as u128) == n as u128;
        let exp = if !exact {
            err(&[MismatchedLengths])
        } else if n == 0 {
            Exp::Either(vec![EmptyInput, MismatchedLengths])
        } else if sl != r_ {
            err(&[MismatchedLengths])
        } else if any_len(r_) && any_len(k) {
            Exp::Ok
        } else {
            err(&[NonPowerOfTwoNoStd])
        };
        let std_fail = matches!(&exp, Exp::Err(l) if l.contains(&NonPowerOfTwoNoStd));
        let r = c.call(&what, || fft2d_inplace(&mut v, r_, k, &e, &mut s));
        if verdict(c, &what, &args, exp, r) && !std_fail {
            keep(c, &what, &args, &v, &x);
        }
        // 3-D
        let n = nlen(c, small(pr(r_, k).and_then(|v| pr(v, d))));
        let (mut tl, mut rl, mut cl) = (d.min(64), r_.min(64), k.min(64));
        if c.rng.chance(1, 4) {
            match c.rng.below(3) {
                0 => tl = len(&mut c.rng),
                1 => rl = len(&mut c.rng),
                _ => cl = len(&mut c.rng),
            }
        }
        let (_, x) = csignal::<T>(&mut c.rng, n);
        let mut v = x.clone();
        let (mut a, mut b, mut g) = (vec![cx::<T>(0.0, 0.0); tl], vec![cx::<T>(0.0, 0.0); rl], vec![cx::<T>(0.0, 0.0); cl]);
        let args = format!("data={n} depth={d} rows={r_} cols={k} scratch={tl},{rl},{cl}");
        let what = format!("fft3d_inplace<{t}>");
        let exact = (r_ as u128).checked_mul(k as u128).and_then(|v| v.checked_mul(d as u128)) == Some(n as u128);
        let exp = if !exact {
            err(&[MismatchedLengths])
        } else if n == 0 {
            Exp::Either(vec![EmptyInput, MismatchedLengths])
        } else if (tl, rl, cl) != (d, r_, k) {
            err(&[MismatchedLengths])
        } else if any_len(d) && any_len(r_) && any_len(k) {
            Exp::Ok
        } else {
            err(&[NonPowerOfTwoNoStd])
        };
        let std_fail = matches!(&exp, Exp::Err(l) if l.contains(&NonPowerOfTwoNoStd));
        let r = c.call(&what, || fft3d_inplace(&mut v, d, r_, k, &e, &mut Fft3dScratch { tube: &mut a, row: &mut b, col: &mut g }));
        if verdict(c, &what, &args, exp, r) && !std_fail {
            keep(c, &what, &args, &v, &x);
        }
        // flatten
        let rows: Vec<Vec<Complex<T>>> = (0..c.rng.below(4))
            .map(|_| {
                let l = c.rng.range(1, 2);
                csignal::<T>(&mut c.rng, l).1
            })
            .collect();
        let even = rows.windows(2).all(|w| w[0].len() == w[1].len());
        let args = format!("{:?}", rows.iter().map(|r| r.len()).collect::<Vec<_>>());
        let r = c.call("flatten_2d", || flatten_2d(rows.clone()).map(|_| ()));
        verdict(c, "flatten_2d", &args, if even { Exp::Ok } else { err(&[MismatchedLengths]) }, r);
        let r = c.call("flatten_3d", || flatten_3d(vec![rows.clone(), rows.clone()]).map(|_| ()));
        verdict(c, "flatten_3d", &args, if even { Exp::Ok } else { err(&[MismatchedLengths]) }, r);
        if rows.len() > 1 {
            let r = c.call("flatten_3d", || flatten_3d(vec![rows.clone(), rows[1..].to_vec()]).map(|_| ()));
            verdict(c, "flatten_3d", "uneven planes", err(&[MismatchedLengths]), r);
        }
    }
}
fn stft_requests(c: &mut Case) {
    use kofft::stft::*;
    let e = ScalarFftImpl::<f32>::default();
    let sl = len(&mut c.rng);
    let wl = if STD { len(&mut c.rng).min(70) } else { *c.rng.pick(&[0, 1, 2, 4, 8, 16]) };
    let hop = stride(&mut c.rng);
    let (_, sig) = rsignal::<f32>(&mut c.rng, sl);
    let (_, win) = rsignal::<f32>(&mut c.rng, wl);
    let need = if hop == 0 { 0 } else { sl.div_ceil(hop) };
    let frames = match c.rng.below(4) {
        0 => len(&mut c.rng),
        1 => need.saturating_sub(1),
        2 => need + 1,
        _ => need,
    };
    let args = format!("signal={sl} window={wl} hop={hop} frames={frames}");
    let exp = |n_needed: bool| {
        if hop == 0 {
            err(&[InvalidHopSize])
        } else if n_needed && frames < need {
            err(&[MismatchedLengths])
        } else if wl == 0 && frames > 0 {
            err(&[EmptyInput])
        } else if wl == 0 {
            Exp::Either(vec![EmptyInput])
        } else {
            Exp::Ok
        }
    };
    let init = vec![vec![Complex32::new(1.0, 2.0); 3]; frames];
    let mut out = init.clone();
    let r = c.call("stft", || stft(&sig, &win, hop, &mut out, &e));
    verdict(c, "stft", &args, exp(true), r);
    #[cfg(feature = "parallel")]
    {
        let mut out = init.clone();
        let r = c.call("stft::parallel", || parallel(&sig, &win, hop, &mut out, &e));
        verdict(c, "stft::parallel", &args, exp(true), r);
    }
    let r = c.call("StftStream::new", || StftStream::new(&sig, &win, hop, &e).map(|_| ()));
    verdict(c, "StftStream::new", &args, if hop == 0 { err(&[InvalidHopSize]) } else { Exp::Ok }, r);
    if hop > 0 {
        if let Ok(mut s) = StftStream::new(&sig, &win, hop, &e) {
            let fl = if c.rng.chance(1, 2) { wl } else { len(&mut c.rng) };
            let mut f = vec![Complex32::new(7.0, 7.0); fl];
            let r = c.call("StftStream::next_frame", || s.next_frame(&mut f).map(|_| ()));
            let exp = if fl != wl {
                err(&[MismatchedLengths])
            } else if wl == 0 && sl > 0 {
                err(&[EmptyInput])
            } else {
                Exp::Ok
            };
            verdict(c, "StftStream::next_frame", &format!("{args} out={fl}"), exp, r);
        }
    }
    // single frames at any start
    let start = match c.rng.below(4) {
        0 => usize::MAX - c.rng.below(3),
        1 => c.rng.range(0, 1000),
        _ => c.rng.range(0, sl + 1),
    };
    let fl = if c.rng.chance(2, 3) { wl } else { len(&mut c.rng) };
    let mut f = vec![Complex32::new(7.0, 7.0); fl];
    let args2 = format!("signal={sl} window={wl} start={start} frame={fl}");
    let fexp = if fl != wl {
        err(&[MismatchedLengths])
    } else if wl == 0 {
        err(&[EmptyInput])
    } else {
        Exp::Ok
    };
    let r = c.call("stft::frame", || frame(&sig, &win, start, &mut f, &e));
    verdict(c, "stft::frame", &args2, fexp.clone(), r);
    let f0 = csignal::<f32>(&mut c.rng, fl).1;
    let mut f = f0.clone();
    let mut o = sig.clone();
    let r = c.call("stft::inverse_frame", || inverse_frame(&mut f, &win, start, &mut o, &e));
    if verdict(c, "stft::inverse_frame", &args2, fexp, r) {
        keep(c, "stft::inverse_frame", &args2, &f, &f0);
        keep_r(c, "stft::inverse_frame", &args2, &o, &sig);
    }
    // inverse
    let bad = if frames > 0 && c.rng.chance(1, 3) { Some(c.rng.below(frames)) } else { None };
    let fr0: Vec<Vec<Complex32>> = (0..frames)
        .map(|i| {
            let l = if Some(i) == bad { wl + 1 } else { wl };
            csignal::<f32>(&mut c.rng, l).1
        })
        .collect();
    let scl = if c.rng.chance(2, 3) { sl } else { len(&mut c.rng) };
    let mut fr = fr0.clone();
    let mut o = sig.clone();
    let mut scr = vec![3.0f32; scl];
    let args3 = format!("{args} scratch={scl} bad frame={bad:?}");
    let base = |scr: bool| {
        if hop == 0 {
            err(&[InvalidHopSize])
        } else if (scr && scl != sl) || bad.is_some() {
            err(&[MismatchedLengths])
        } else if wl == 0 && frames > 0 {
            err(&[EmptyInput])
        } else if wl == 0 {
            Exp::Either(vec![EmptyInput])
        } else {
            Exp::Ok
        }
    };
    let r = c.call("istft", || istft(&mut fr, &win, hop, &mut o, &mut scr, &e));
    if verdict(c, "istft", &args3, base(true), r) {
        for (a, b) in fr.iter().zip(&fr0) {
            keep(c, "istft frames", &args3, a, b);
        }
    }
    #[cfg(feature = "parallel")]
    {
        let fr = fr0.clone();
        let r = c.call("stft::inverse_parallel", || inverse_parallel(&fr, &win, hop, &mut o, &e));
        verdict(c, "stft::inverse_parallel", &args3, base(false), r);
    }
    let wl2 = if c.rng.chance(2, 3) { wl } else { len(&mut c.rng) };
    let hop2 = hop.min(4000);
    let args4 = format!("win_len={wl2} hop={hop2} window={wl}");
    let r = c.call("IstftStream::new", || IstftStream::new(wl2, hop2, win.clone(), &e).map(|_| ()));
    let exp = if hop2 == 0 {
        err(&[InvalidHopSize])
    } else if wl2 != wl {
        err(&[MismatchedLengths])
    } else if wl == 0 {
        Exp::Either(vec![EmptyInput, MismatchedLengths, InvalidValue])
    } else {
        Exp::Ok
    };
    verdict(c, "IstftStream::new", &args4, exp, r);
    if wl > 0 && hop2 > 0 {
        if let Ok(mut s) = IstftStream::new(wl, hop2, win.clone(), &e) {
            let f = vec![Complex32::new(1.0, 0.0); fl];
            let r = c.call("IstftStream::push_frame", || s.push_frame(&f).map(|_| ()));
            verdict(c, "IstftStream::push_frame", &format!("{args4} frame={fl}"), if fl == wl { Exp::Ok } else { err(&[MismatchedLengths]) }, r);
        }
    }
}
fn misc(c: &mut Case) {
    let n = len(&mut c.rng);
    let (_, x) = rsignal::<f32>(&mut c.rng, n);
    let args = format!("n={n}");
    // Goertzel
    let rate = *c.rng.pick(&[0.0f32, -1.0, 8000.0, 44100.0, 1.0, -0.0]);
    let fr = c.rng.uni(0.0, 1.0) as f32 * rate.abs();
    let exp = match (n == 0, rate <= 0.0) {
        (true, true) => err(&[EmptyInput, InvalidValue]),
        (true, false) => err(&[EmptyInput]),
        (false, true) => err(&[InvalidValue]),
        _ => Exp::Ok,
    };
    let r = c.call("goertzel_f32", || kofft::goertzel::goertzel_f32(&x, rate, fr).map(|_| ()));
    verdict(c, "goertzel_f32", &format!("{args} rate={rate}"), exp, r);
    // Hilbert, cepstrum
    let exp = if n == 0 {
        err(&[EmptyInput])
    } else if n.is_power_of_two() {
        Exp::Ok
    } else {
        err(&[NonPowerOfTwoNoStd])
    };
    let r = c.call("hilbert_analytic", || kofft::hilbert::hilbert_analytic(&x).map(|_| ()));
    verdict(c, "hilbert_analytic", &args, exp.clone(), r);
    let r = c.call("real_cepstrum", || kofft::cepstrum::real_cepstrum(&x).map(|_| ()));
    verdict(c, "real_cepstrum", &args, exp, r);
    // MFCC
    let (mels, co) = (c.rng.range(0, 12), c.rng.range(0, 14));
    let mags: Vec<f32> = x.iter().map(|v| v.abs()).collect();
    let r = c.call("mfcc", || kofft::cepstrum::mfcc(&mags, 8000.0, mels, co).map(|_| ()));
    verdict(c, "mfcc", &format!("{args} mels={mels} coeffs={co}"), if co > mels { err(&[InvalidValue, MismatchedLengths]) } else { Exp::Either(vec![EmptyInput, InvalidValue]) }, r);
    // planned DCT-II
    let (a, b, l) = (n, if c.rng.chance(1, 2) { n } else { len(&mut c.rng) }, if c.rng.chance(1, 2) { n } else { len(&mut c.rng) });
    let mut p = kofft::dct::DctPlanner::new();
    let (mut i, mut o) = (x.clone(), vec![5.0f32; b]);
    let r = c.call("DctPlanner::plan_dct2", || {
        let mut f = p.plan_dct2(l);
        f(&mut i, &mut o)
    });
    let args = format!("plan={l} in={a} out={b}");
    let exp = if a != b || a != l {
        if a == 0 || l == 0 {
            err(&[MismatchedLengths, EmptyInput])
        } else {
            err(&[MismatchedLengths])
        }
    } else if a == 0 {
        Exp::Either(vec![EmptyInput])
    } else if !STD && !a.is_power_of_two() {
        Exp::Either(vec![NonPowerOfTwoNoStd])
    } else {
        Exp::Ok
    };
    if verdict(c, "DctPlanner::plan_dct2", &args, exp, r) {
        keep_r(c, "DctPlanner::plan_dct2", &args, &i, &x);
    }
    // fixed-size trigonometric transforms
    macro_rules! st {
        ($m:ident :: $f:ident, $($n:literal)*) => { $({
            let x = [0.25f32; $n];
            let mut o = [7.0f32; $n];
            let r = c.call(stringify!($f), || kofft::$m::$f::<$n>(&x, &mut o));
            let pow2 = ($n as usize).is_power_of_two() && $n > 1;
            let exp = if pow2 { Exp::Ok } else if $n == 1 { Exp::Either(vec![NonPowerOfTwoNoStd, InvalidValue]) } else if $n == 0 { Exp::Either(vec![EmptyInput, NonPowerOfTwoNoStd]) } else { err(&[NonPowerOfTwoNoStd]) };
            verdict(c, stringify!($f), concat!("n=", $n), exp, r);
        })* };
    }
    if c.idx % 8 == 0 {
        st!(dct::dct1_inplace_stack, 2 4 8 16 32 3 5 6 7 12);
        st!(dct::dct2_inplace_stack, 2 4 8 16 32 3 5 6 7 12);
        st!(dst::dst2_inplace_stack, 2 4 8 16 32 3 5 6 7 12);
        st!(dst::dst4_inplace_stack, 2 4 8 16 32 3 5 6 7 12);
        st!(dst::dst2_inplace_stack_fft, 2 4 8 16 32 3 5 6 7 12);
        st!(dst::dst3_inplace_stack_fft, 2 4 8 16 32 3 5 6 7 12);
    }
}

pub fn p05(x: &mut Ctx) {
    x.run("fft32", 700, fft_requests::<f32>);
    x.run("fft64", 500, fft_requests::<f64>);
    x.run("entry32", 80, |c| entry_lengths::<f32>(c, false));
    x.run("entry64", 80, |c| entry_lengths::<f64>(c, false));
    x.run("ientry32", 80, |c| entry_lengths::<f32>(c, true));
    x.run("ientry64", 80, |c| entry_lengths::<f64>(c, true));
    #[cfg(feature = "std")]
    {
        x.run("plan32", 400, plans::<f32>);
        x.run("plan64", 300, plans::<f64>);
    }
    x.run("real32", 500, real_requests::<f32>);
    x.run("real64", 400, real_requests::<f64>);
    x.run("nd32", 300, nd::<f32>);
    x.run("nd64", 200, nd::<f64>);
    x.run("stft", 1200, stft_requests);
    x.run("misc", 600, misc);
}
