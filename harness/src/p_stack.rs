//! P26: fixed-size entry points allocate nothing and equal the heap forms.
//! Oracle: per-thread allocation counter of the instrumented global allocator, read directly
//! before and after every call; values against the heap counterpart and an f64 reference.
use crate::fw::*;
use crate::oracle::*;
use crate::p_fft::B_FFT;
use crate::p_trig::{heap, judge_r, reference, Tr, Tr::*};
use kofft::fft::*;
use kofft::rfft::*;
use kofft::{dct, dst, stft, wavelet, window};

type R = Result<(), FftError>;
/// Run one call under both monitors (panic, allocation).
fn watch<X>(c: &mut Case, what: &str, n: usize, f: impl FnOnce() -> X) -> Option<X> {
    c.ev();
    let mut a = (0, 0);
    let r = guard(|| {
        let b = thread_allocs();
        let x = f();
        a = (b, thread_allocs());
        x
    });
    match r {
        Ok(x) => {
            if a.1 != a.0 {
                c.fail(format!("{what}: heap allocation"), format!("{} allocations for N={n}", a.1 - a.0));
            }
            c.cover("calls with the allocation counter unchanged");
            Some(x)
        }
        Err(m) => {
            c.fail(format!("panic in {what}"), format!("N={n} {m}"));
            None
        }
    }
}
fn rejected(c: &mut Case, what: &str, n: usize, r: &R) {
    c.check(r.is_err(), &format!("{what}: unsupported size accepted"), || format!("N={n}"));
    c.cover("unsupported sizes refused");
}
fn accepted(c: &mut Case, what: &str, n: usize, r: &R) -> bool {
    c.check(r.is_ok(), &format!("{what}: supported size refused"), || format!("N={n} {r:?}"))
}
macro_rules! each {
    ($go:ident, $n:expr, $($k:literal)*) => { match $n { $($k => { $go!($k); })* _ => unreachable!("size {}", $n) } };
}
macro_rules! sizes_list {
    ($name:ident, $go:ident, $($k:literal)*) => {
        const $name: &[usize] = &[$($k),*];
    };
}
macro_rules! cfft_sizes { ($go:ident, $n:expr) => { each!($go, $n, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 24 31 32 33 48 63 64 65 96 100 127 128 129 192 255 256 257 384 500 512 513 768 1000 1024 1025 1536 2047 2048 2049 3072 4096 4097 6144 8192 16384); } }
sizes_list!(CFFT, go, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 24 31 32 33 48 63 64 65 96 100 127 128 129 192 255 256 257 384 500 512 513 768 1000 1024 1025 1536 2047 2048 2049 3072 4096 4097 6144 8192 16384);

fn complex_fft(c: &mut Case) {
    let n = CFFT[c.idx as usize % CFFT.len()];
    let (pat, x) = csignal::<f32>(&mut c.rng, n);
    for inv in [false, true] {
        let what = if inv { "ifft_inplace_stack" } else { "fft_inplace_stack" };
        macro_rules! go {
            ($k:literal) => {{
                let mut b: [Complex32; $k] = x.clone().try_into().unwrap();
                let Some(r) = watch(c, what, n, || if inv { ifft_inplace_stack(&mut b) } else { fft_inplace_stack(&mut b) }) else { continue };
                if !n.is_power_of_two() {
                    rejected(c, what, n, &r);
                    continue;
                }
                if !accepted(c, what, n, &r) {
                    continue;
                }
                let xz = toz(&x);
                let want = if inv { ifft_ref(&xz) } else { fft_ref(&xz) };
                judge(c, what, "fft", &toz(&b), &want, f32::EPSILON as f64, norm(&want), B_FFT);
                let mut h = x.clone();
                let e = ScalarFftImpl::<f32>::default();
                let hr = if inv { e.ifft(&mut h) } else { e.fft(&mut h) };
                if hr.is_ok() {
                    judge(c, &format!("{what} against heap"), "fft", &toz(&b), &toz(&h), f32::EPSILON as f64, norm(&want), 2.0 * B_FFT);
                }
            }};
        }
        cfft_sizes!(go, n);
        c.sig(&format!("{what}:{n}:{pat}"));
    }
}
macro_rules! each2 {
    ($go:ident, $n:expr, $($k:literal $m:literal)*) => { match $n { $($k => { $go!($k, $m); })* _ => unreachable!("size {}", $n) } };
}
const RFFT: &[usize] = &[1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 32, 64, 100, 128, 256, 500, 512, 1024, 2048, 4096, 8192];
fn real_fft(c: &mut Case) {
    let n = RFFT[c.idx as usize % RFFT.len()];
    let (pat, x) = rsignal::<f32>(&mut c.rng, n);
    let want = fft_ref(&x.iter().map(|&v| z(v as f64, 0.0)).collect::<Vec<_>>());
    macro_rules! go {
        ($k:literal, $m:literal) => {{
            let a: [f32; $k] = x.clone().try_into().unwrap();
            let mut o = [Complex32::new(9.0, 9.0); $m];
            if let Some(r) = watch(c, "rfft_stack", n, || rfft_stack::<$k, $m>(&a, &mut o)) {
                if !n.is_power_of_two() {
                    rejected(c, "rfft_stack", n, &r);
                } else if n == 1 {
                    // length one is not an even length: refuse it or answer it
                    if r.is_ok() {
                        judge(c, "rfft_stack", "rfft", &toz(&o), &want[..$m], f32::EPSILON as f64, norm(&want), B_FFT);
                    }
                } else if accepted(c, "rfft_stack", n, &r) {
                    judge(c, "rfft_stack", "rfft", &toz(&o), &want[..$m], f32::EPSILON as f64, norm(&want), B_FFT);
                    let mut hi = x.clone();
                    let mut ho = vec![Complex32::new(0.0, 0.0); $m];
                    if ScalarFftImpl::<f32>::default().rfft(&mut hi, &mut ho).is_ok() {
                        judge(c, "rfft_stack against heap", "rfft", &toz(&o), &toz(&ho), f32::EPSILON as f64, norm(&want), 2.0 * B_FFT);
                    }
                }
            }
            let s: [Complex32; $m] = std::array::from_fn(|k| {
                let im = if k == 0 || 2 * k == n { 0.0 } else { want[k].im as f32 };
                Complex32::new(want[k].re as f32, im)
            });
            let mut y = [9.0f32; $k];
            if let Some(r) = watch(c, "irfft_stack", n, || irfft_stack::<$k, $m>(&s, &mut y)) {
                if !n.is_power_of_two() {
                    rejected(c, "irfft_stack", n, &r);
                } else if n > 1 && accepted(c, "irfft_stack", n, &r) {
                    let w: Vec<Z> = x.iter().map(|&v| z(v as f64, 0.0)).collect();
                    let g: Vec<Z> = y.iter().map(|&v| z(v as f64, 0.0)).collect();
                    judge(c, "irfft_stack", "rfft", &g, &w, f32::EPSILON as f64, norm(&w), 2.0 * B_FFT);
                    let mut hi = s.to_vec();
                    let mut ho = vec![0.0f32; $k];
                    if ScalarFftImpl::<f32>::default().irfft(&mut hi, &mut ho).is_ok() {
                        let h: Vec<Z> = ho.iter().map(|&v| z(v as f64, 0.0)).collect();
                        judge(c, "irfft_stack against heap", "rfft", &g, &h, f32::EPSILON as f64, norm(&w), 2.0 * B_FFT);
                    }
                }
            }
        }};
    }
    each2!(go, n, 1 1 2 2 3 2 4 3 5 3 6 4 8 5 10 6 12 7 16 9 24 13 32 17 64 33 100 51 128 65 256 129 500 251 512 257 1024 513 2048 1025 4096 2049 8192 4097);
    // a bin buffer of any other length is refused
    macro_rules! bad {
        ($k:literal, $m:literal) => {{
            let a = [1.0f32; $k];
            let mut o = [Complex32::new(0.0, 0.0); $m];
            if let Some(r) = watch(c, "rfft_stack", $k, || rfft_stack::<$k, $m>(&a, &mut o)) {
                rejected(c, concat!("rfft_stack(", $m, " bins)"), $k, &r);
            }
            let s = [Complex32::new(1.0, 0.0); $m];
            let mut y = [0.0f32; $k];
            if let Some(r) = watch(c, "irfft_stack", $k, || irfft_stack::<$k, $m>(&s, &mut y)) {
                rejected(c, concat!("irfft_stack(", $m, " bins)"), $k, &r);
            }
        }};
    }
    match c.idx % 8 {
        0 => { bad!(0, 1); bad!(0, 0); }
        1 => { bad!(8, 4); bad!(8, 6); }
        2 => { bad!(16, 8); bad!(16, 16); }
        3 => { bad!(2, 1); bad!(2, 3); }
        4 => { bad!(4, 2); bad!(4, 4); }
        5 => { bad!(64, 32); bad!(64, 65); }
        6 => { bad!(256, 128); bad!(256, 256); }
        _ => { bad!(4, 0); bad!(1, 2); }
    }
    c.sig(&format!("rfft:{n}:{pat}"));
}
macro_rules! trig_sizes { ($go:ident, $n:expr) => { each!($go, $n, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 30 32 36 48 60 64 96 100 128 192 256 300 384 512 1024); } }
sizes_list!(TRIG, go, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 30 32 36 48 60 64 96 100 128 192 256 300 384 512 1024);
fn trig(c: &mut Case) {
    let n = TRIG[c.idx as usize % TRIG.len()];
    let (pat, x) = rsignal::<f32>(&mut c.rng, n);
    let x64 = r64(&x);
    macro_rules! one {
        ($t:expr, $f:path, $name:literal, $one_ok:literal) => {{
            macro_rules! go {
                ($k:literal) => {{
                    let a: [f32; $k] = x.clone().try_into().unwrap();
                    let mut o = [f32::NAN; $k];
                    if let Some(r) = watch(c, $name, n, || $f(&a, &mut o)) {
                        if !n.is_power_of_two() {
                            rejected(c, $name, n, &r);
                        } else if n == 1 {
                            if !$one_ok {
                                rejected(c, $name, n, &r);
                            } else if r.is_ok() {
                                judge_r(c, $name, &o, &x64, &reference($t, &x64));
                            }
                        } else if accepted(c, $name, n, &r) {
                            let want = reference($t, &x64);
                            judge_r(c, $name, &o, &x64, &want);
                            judge_r(c, concat!($name, " against heap"), &o, &x64, &r64(&heap($t, &x)));
                        }
                    }
                }};
            }
            trig_sizes!(go, n);
        }};
    }
    one!(C1, dct::dct1_inplace_stack, "dct1_inplace_stack", false);
    one!(C2, dct::dct2_inplace_stack, "dct2_inplace_stack", false);
    one!(S2, dst::dst2_inplace_stack, "dst2_inplace_stack", true);
    one!(S2, dst::dst2_inplace_stack_fft, "dst2_inplace_stack_fft", true);
    one!(S3, dst::dst3_inplace_stack_fft, "dst3_inplace_stack_fft", false);
    one!(S4, dst::dst4_inplace_stack, "dst4_inplace_stack", false);
    let _: Option<Tr> = None;
    c.sig(&format!("trig:{n}:{pat}"));
}
macro_rules! haar_sizes { ($go:ident, $n:expr) => { each!($go, $n, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 18 22 30 31 32 33 50 64 100 101 128 200 254 256 500 512 1000 1024 2048 4096); } }
sizes_list!(HAAR, go, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 18 22 30 31 32 33 50 64 100 101 128 200 254 256 500 512 1000 1024 2048 4096);
fn close(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(&x, &y)| x == y || (x as f64 - y as f64).abs() <= 4.0 * f32::EPSILON as f64 * (y.abs() as f64))
}
fn haar(c: &mut Case) {
    let n = HAAR[c.idx as usize % HAAR.len()];
    let (pat, mut x) = rsignal::<f32>(&mut c.rng, n);
    // keep a + b and a - b finite
    x.iter_mut().for_each(|v| if v.abs() > 1e37 { *v = 1e37f32.copysign(*v) });
    let h = n / 2;
    let mut avg = vec![f32::NAN; h];
    let mut diff = vec![f32::NAN; h];
    macro_rules! go {
        ($k:literal) => {{
            let a: [f32; $k] = x.clone().try_into().unwrap();
            if watch(c, "haar_forward_inplace_stack", n, || wavelet::haar_forward_inplace_stack(&a, &mut avg, &mut diff)).is_some() {
                let (ha, hd) = wavelet::haar_forward(&x);
                // a difference of two nearly equal samples has a small value but the error of its inputs
                c.check(close(&avg, &ha) && close(&diff, &hd), "haar_forward_inplace_stack: differs from heap", || format!("N={n}"));
                let ok = (0..h).all(|i| {
                    let (p, q) = (x[2 * i] as f64, x[2 * i + 1] as f64);
                    let t = 2.0 * f32::EPSILON as f64 * (p.abs() + q.abs()) + f32::MIN_POSITIVE as f64;
                    (avg[i] as f64 - (p + q) / 2.0).abs() <= t && (diff[i] as f64 - (p - q) / 2.0).abs() <= t
                });
                c.check(ok, "haar_forward_inplace_stack: wrong values", || format!("N={n}"));
                let mut out = vec![f32::NAN; 2 * h];
                if watch(c, "haar_inverse_inplace_stack", n, || wavelet::haar_inverse_inplace_stack::<$k>(&avg, &diff, &mut out)).is_some() {
                    c.check(close(&out, &wavelet::haar_inverse(&avg, &diff)), "haar_inverse_inplace_stack: differs from heap", || format!("N={n}"));
                    let ok = (0..h).all(|i| {
                        let (p, q) = (x[2 * i] as f64, x[2 * i + 1] as f64);
                        let t = 4.0 * f32::EPSILON as f64 * (p.abs() + q.abs()) + f32::MIN_POSITIVE as f64;
                        (out[2 * i] as f64 - p).abs() <= t && (out[2 * i + 1] as f64 - q).abs() <= t
                    });
                    c.check(ok, "haar_inverse_inplace_stack: wrong values", || format!("N={n}"));
                }
            }
        }};
    }
    haar_sizes!(go, n);
    c.sig(&format!("haar:{n}:{pat}"));
}
macro_rules! win_sizes { ($go:ident, $n:expr) => { each!($go, $n, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 31 32 33 63 64 65 100 127 128 255 256 257 400 500 512 1000 1023 1024 2048 4096 4097 10000); } }
sizes_list!(WIN, go, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 31 32 33 63 64 65 100 127 128 255 256 257 400 500 512 1000 1023 1024 2048 4096 4097 10000);
fn windows(c: &mut Case) {
    let n = WIN[c.idx as usize % WIN.len()];
    macro_rules! go {
        ($k:literal) => {{
            let mut o = [f32::NAN; $k];
            let mut one = |c: &mut Case, name: &str, f: &dyn Fn(&mut [f32; $k]), h: Vec<f32>| {
                if watch(c, name, n, || f(&mut o)).is_some() {
                    // both evaluate the same formula; the arguments of the cosine differ by rounding
                    let bad = (0..n).find(|&i| !((o[i] as f64 - h[i] as f64).abs() <= 32.0 * f32::EPSILON as f64));
                    c.check(h.len() == n && bad.is_none(), &format!("{name}: differs from heap"), || format!("N={n} index {bad:?}"));
                }
            };
            one(c, "hann_inplace_stack", &|o| window::hann_inplace_stack(o), window::hann(n));
            one(c, "hamming_inplace_stack", &|o| window::hamming_inplace_stack(o), window::hamming(n));
            one(c, "blackman_inplace_stack", &|o| window::blackman_inplace_stack(o), window::blackman(n));
        }};
    }
    win_sizes!(go, n);
    c.sig(&format!("window:{n}"));
}
/// A transform engine that uses only the stack.
struct StackEngine;
macro_rules! se {
    ($d:expr, $f:ident, $($k:literal)*) => {
        match $d.len() { 0 => Err(FftError::EmptyInput), $($k => $f::<$k>($d.try_into().unwrap()),)* _ => Err(FftError::NonPowerOfTwoNoStd) }
    };
}
impl FftImpl<f32> for StackEngine {
    fn fft(&self, d: &mut [Complex32]) -> R {
        se!(d, fft_inplace_stack, 1 2 4 8 16 32 64 128 256 512 1024)
    }
    fn ifft(&self, d: &mut [Complex32]) -> R {
        se!(d, ifft_inplace_stack, 1 2 4 8 16 32 64 128 256 512 1024)
    }
    fn fft_strided(&self, _: &mut [Complex32], _: usize, _: &mut [Complex32]) -> R {
        Err(FftError::InvalidValue)
    }
    fn ifft_strided(&self, _: &mut [Complex32], _: usize, _: &mut [Complex32]) -> R {
        Err(FftError::InvalidValue)
    }
    fn fft_out_of_place_strided(&self, _: &[Complex32], _: usize, _: &mut [Complex32], _: usize) -> R {
        Err(FftError::InvalidValue)
    }
    fn ifft_out_of_place_strided(&self, _: &[Complex32], _: usize, _: &mut [Complex32], _: usize) -> R {
        Err(FftError::InvalidValue)
    }
    fn fft_with_strategy(&self, d: &mut [Complex32], _: FftStrategy) -> R {
        self.fft(d)
    }
}
fn frames(c: &mut Case) {
    let n = 1usize << c.rng.range(0, if c.full() { 10 } else { 8 });
    let len = c.rng.range(0, 4 * n);
    let (pat, sig) = rsignal::<f32>(&mut c.rng, len);
    let (_, mut win) = rsignal::<f32>(&mut c.rng, n);
    let m = win.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    win.iter_mut().for_each(|v| *v = if m > 0.0 { *v / m } else { 1.0 });
    let start = match c.rng.below(5) {
        0 => 0,
        1 => len,
        2 => usize::MAX - c.rng.below(3),
        _ => c.rng.range(0, len + n),
    };
    let mut out = vec![Complex32::new(9.0, 9.0); n];
    let Some(r) = watch(c, "stft::frame", n, || stft::frame(&sig, &win, start, &mut out, &StackEngine)) else { return };
    if !accepted(c, "stft::frame", n, &r) {
        return;
    }
    let slice: Vec<Z> = (0..n)
        .map(|i| {
            let p = start.checked_add(i).filter(|&p| p < len);
            z(p.map_or(0.0, |p| (sig[p] * win[i]) as f64), 0.0)
        })
        .collect();
    let want = fft_ref(&slice);
    judge(c, "stft::frame", "frame", &toz(&out), &want, f32::EPSILON as f64, norm(&want), B_FFT);
    let mut heap = vec![Complex32::new(9.0, 9.0); n];
    if stft::frame(&sig, &win, start, &mut heap, &ScalarFftImpl::<f32>::default()).is_ok() {
        judge(c, "stft::frame against heap engine", "frame", &toz(&out), &toz(&heap), f32::EPSILON as f64, norm(&want), 2.0 * B_FFT);
    }
    // inverse frame into a prefilled output
    let olen = c.rng.range(0, 3 * n);
    let ostart = match c.rng.below(4) {
        0 => 0,
        1 => usize::MAX - c.rng.below(2),
        _ => c.rng.range(0, olen + n),
    };
    let pre: Vec<f32> = (0..olen).map(|_| c.rng.uni(-1.0, 1.0) as f32).collect();
    let mut o = pre.clone();
    let mut f = out.clone();
    let Some(r) = watch(c, "stft::inverse_frame", n, || stft::inverse_frame(&mut f, &win, ostart, &mut o, &StackEngine)) else { return };
    if !accepted(c, "stft::inverse_frame", n, &r) {
        return;
    }
    let back = ifft_ref(&toz(&out));
    let tol = 16.0 * f32::EPSILON as f64 * ((n as f64).log2() + 3.0) * (norm(&back) + 1.0);
    for p in 0..olen {
        let i = p.checked_sub(ostart).filter(|&i| i < n);
        let w = pre[p] as f64 + i.map_or(0.0, |i| back[i].re * win[i] as f64);
        if !((o[p] as f64 - w).abs() <= if i.is_some() { tol } else { 0.0 }) {
            c.fail("stft::inverse_frame: wrong values", format!("n={n} start={ostart} position {p}: {} want {w}", o[p]));
            return;
        }
    }
    // mismatched frame buffer: refused without touching the heap
    let mut short = vec![Complex32::new(1.0, 0.0); n + 1];
    if let Some(r) = watch(c, "stft::frame", n, || stft::frame(&sig, &win, 0, &mut short, &StackEngine)) {
        rejected(c, "stft::frame(mismatched)", n, &r);
    }
    if let Some(r) = watch(c, "stft::inverse_frame", n, || stft::inverse_frame(&mut short, &win, 0, &mut o, &StackEngine)) {
        rejected(c, "stft::inverse_frame(mismatched)", n, &r);
    }
    c.sig(&format!("frame:{n}:{pat}:{}", start < len));
}
pub fn p26(x: &mut Ctx) {
    x.run("monitor-self-test", 1, |c| {
        let b = thread_allocs();
        let v: Vec<u8> = std::hint::black_box(Vec::with_capacity(100));
        drop(v);
        assert!(thread_allocs() > b, "allocation monitor is blind");
        c.cover("allocation monitor counts a heap allocation");
    });
    let m = |k: u64, x: &Ctx| k * if x.tier == Tier::Thorough { 4 } else { 2 };
    let r = m(1, x);
    x.run("cfft", r * 3 * CFFT.len() as u64, complex_fft);
    x.run("rfft", r * 6 * RFFT.len() as u64, real_fft);
    x.run("trig", r * 2 * TRIG.len() as u64, trig);
    x.run("haar", r * 6 * HAAR.len() as u64, haar);
    x.run("window", WIN.len() as u64, windows);
    x.run("frame", r * 300, frames);
}
