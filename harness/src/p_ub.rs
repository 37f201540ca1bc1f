//! P24: the safe API driven for the sanitizers. No value oracle here (the other properties have
//! them): AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri are the oracle, and every
//! element the library hands back or hands to user code is read (branched on).
use crate::engines::*;
use crate::fw::*;
use crate::oracle::*;
use kofft::fft::*;
use kofft::ndfft::*;
use kofft::rfft::*;
use kofft::{stft, Complex};
use std::cell::Cell;
use std::hint::black_box;
use std::marker::PhantomData;

type R = Result<(), FftError>;
const MIRI: bool = cfg!(miri);
fn ulen(r: &mut Rng) -> usize {
    let big = if MIRI { 5 } else { 11 };
    match r.below(10) {
        0 => 0,
        1 => 1,
        2..=5 => 1 << r.range(0, big),
        6 => [3, 5, 6, 7, 9, 12, 15, 24, 27, 33][r.below(if MIRI { 7 } else { 10 })],
        _ => r.range(0, if MIRI { 18 } else { 300 }),
    }
}
fn data<T: Sc>(r: &mut Rng, n: usize) -> Vec<Complex<T>> {
    (0..n).map(|_| cx::<T>((r.below(19) as f64) - 9.0, (r.below(17) as f64) - 8.0)).collect()
}
fn rdata<T: Sc>(r: &mut Rng, n: usize) -> Vec<T> {
    (0..n).map(|_| T::of((r.below(19) as f64) - 9.0)).collect()
}
/// Read every element in a way that depends on its value.
fn touch<T: Sc>(d: &[Complex<T>]) -> usize {
    d.iter().filter(|v| v.re.f() > 0.5 || v.im.f() > 0.5).count()
}
fn touch_r<T: Sc>(d: &[T]) -> usize {
    d.iter().filter(|v| v.f() > 0.5).count()
}
/// Run one request; any normal outcome (success, error, panic) is acceptable to this property.
fn go(c: &mut Case, what: &str, f: impl FnOnce() -> R) {
    c.ev();
    match guard(f) {
        Ok(Ok(())) => c.cover("returned Ok"),
        Ok(Err(_)) => c.cover("returned an error"),
        Err(_) => c.cover("panicked"),
    }
    c.sig(what);
}
fn ustride(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX / 2 + 1,
        3 => usize::MAX / r.range(2, 9) + r.below(3),
        _ => r.range(1, 5),
    }
}
fn entries<T: Sc>(c: &mut Case) {
    let list = if c.idx % 2 == 0 { forward::<T>() } else { inverse::<T>() };
    let n = ulen(&mut c.rng);
    let start = c.rng.below(list.len());
    for k in 0..if MIRI { 4 } else { list.len() } {
        let e = &list[(start + k) % list.len()];
        if !(e.offer)(n) {
            continue;
        }
        let mut d = data::<T>(&mut c.rng, n);
        go(c, &format!("{}<{}>:{n}", e.name, T::NAME), || {
            let r = (e.f)(&mut d);
            black_box(touch(&d));
            r
        });
    }
}
fn requests<T: Sc>(c: &mut Case, name: &str, e: &dyn FftImpl<T>) {
    for _ in 0..if MIRI { 5 } else { 20 } {
        let n = ulen(&mut c.rng);
        let inv = c.rng.chance(1, 2);
        let m = if c.rng.chance(3, 5) { n } else { ulen(&mut c.rng) };
        let mut x = data::<T>(&mut c.rng, n);
        let mut y = data::<T>(&mut c.rng, m);
        let (s1, s2) = (ustride(&mut c.rng), ustride(&mut c.rng));
        let k = c.rng.below(8);
        let tag = format!("{name}<{}>:{k}:{inv}:{}:{}", T::NAME, n.min(40), s1.min(9));
        match k {
            0 => go(c, &tag, || if inv { e.ifft(&mut x) } else { e.fft(&mut x) }),
            1 => go(c, &tag, || e.fft_with_strategy(&mut x, STRATS[m % 4].0)),
            2 => go(c, &tag, || if inv { e.ifft_out_of_place(&x, &mut y) } else { e.fft_out_of_place(&x, &mut y) }),
            3 => {
                // a strided view of m elements that mostly fits
                let s = s1.min(7);
                let mut big = data::<T>(&mut c.rng, if s1 < 8 && m > 0 { (m - 1) * s + 1 + n % 3 } else { n });
                go(c, &tag, || {
                    let r = if inv { e.ifft_strided(&mut big, s1, &mut y) } else { e.fft_strided(&mut big, s1, &mut y) };
                    black_box(touch(&big));
                    r
                });
            }
            4 => go(c, &tag, || if inv { e.ifft_strided_alloc(&mut x, s1) } else { e.fft_strided_alloc(&mut x, s1) }),
            5 => {
                let (a, b) = if s1 < 8 && s2 < 8 && c.rng.chance(2, 3) { (n * s1, n * s2) } else { (n, m) };
                let i = data::<T>(&mut c.rng, a);
                let mut o = data::<T>(&mut c.rng, b);
                go(c, &tag, || {
                    let r = if inv { e.ifft_out_of_place_strided(&i, s1, &mut o, s2) } else { e.fft_out_of_place_strided(&i, s1, &mut o, s2) };
                    black_box(touch(&o));
                    r
                });
            }
            6 => {
                let mut re = rdata::<T>(&mut c.rng, n);
                let mut im = rdata::<T>(&mut c.rng, m);
                go(c, &tag, || {
                    let r = if inv { e.ifft_split(&mut re, &mut im) } else { e.fft_split(&mut re, &mut im) };
                    black_box(touch_r(&re) + touch_r(&im));
                    r
                });
            }
            _ => go(c, &tag, || if inv { e.ifft(&mut y) } else { e.fft(&mut y) }),
        }
        black_box(touch(&x) + touch(&y));
    }
}
fn engines_<T: Sc>(c: &mut Case) {
    let e = ScalarFftImpl::<T>::default();
    requests(c, "Scalar", &e);
    for _ in 0..if MIRI { 2 } else { 6 } {
        let n = ulen(&mut c.rng);
        let mut x = data::<T>(&mut c.rng, n);
        let k = c.rng.below(2);
        go(c, &format!("own:{k}:{n}"), || if k == 0 { e.stockham_fft(&mut x) } else { e.fft_with_strategy(&mut x, FftStrategy::Radix4) });
        #[cfg(feature = "std")]
        go(c, &format!("vec:{k}:{n}"), || {
            let v = if k == 0 { e.fft_vec(&x)? } else { e.ifft_vec(&x)? };
            black_box(touch(&v));
            let mut x = v;
            e.fft_radix4(&mut x)
        });
        black_box(touch(&x));
    }
}
/// A user engine that reads everything it is given; it fails or panics on request.
struct Reader {
    calls: Cell<u32>,
    fail_at: u32,
    panics: bool,
    seen: Cell<usize>,
}
impl Reader {
    fn new(r: &mut Rng) -> Self {
        let fail_at = if r.chance(1, 3) { r.range(1, 4) as u32 } else { u32::MAX };
        Reader { calls: Cell::new(0), fail_at, panics: r.chance(1, 2), seen: Cell::new(0) }
    }
    fn step<T: Sc>(&self, d: &[Complex<T>]) -> R {
        self.seen.set(self.seen.get() + touch(d));
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() == self.fail_at {
            assert!(!self.panics, "user engine panics");
            return Err(FftError::InvalidValue);
        }
        Ok(())
    }
}
impl<T: Sc> FftImpl<T> for Reader {
    fn fft(&self, d: &mut [Complex<T>]) -> R {
        self.step(d)?;
        d.reverse();
        Ok(())
    }
    fn ifft(&self, d: &mut [Complex<T>]) -> R {
        self.step(d)?;
        d.reverse();
        Ok(())
    }
    fn fft_strided(&self, d: &mut [Complex<T>], _: usize, s: &mut [Complex<T>]) -> R {
        self.step(s)?;
        self.step(d)
    }
    fn ifft_strided(&self, d: &mut [Complex<T>], _: usize, s: &mut [Complex<T>]) -> R {
        self.step(s)?;
        self.step(d)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<T>], _: usize, o: &mut [Complex<T>], _: usize) -> R {
        self.step(i)?;
        self.step(o)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<T>], _: usize, o: &mut [Complex<T>], _: usize) -> R {
        self.step(i)?;
        self.step(o)
    }
    fn fft_with_strategy(&self, d: &mut [Complex<T>], _: FftStrategy) -> R {
        self.step(d)
    }
}
fn user_engine<T: Sc + RealFftNum>(c: &mut Case) {
    let e = Reader::new(&mut c.rng);
    requests::<T>(c, "User", &e);
    let e = Reader::new(&mut c.rng);
    real_requests::<T, _>(c, "User", &e);
    let mut b: Vec<Vec<Complex<T>>> = (0..3).map(|k| data::<T>(&mut c.rng, 4 + k)).collect();
    go(c, "user batch", || {
        batch(&e, &mut b)?;
        multi_channel(&e, &mut b)?;
        batch_inverse(&e, &mut b)?;
        multi_channel_inverse(&e, &mut b)
    });
    black_box(b.iter().map(|v| touch(v)).sum::<usize>());
}
/// Every real-FFT form, matching and mismatching buffers.
fn real_requests<T: Sc + RealFftNum, E: FftImpl<T>>(c: &mut Case, name: &str, e: &E) {
    let mut p = RfftPlanner::<T>::new();
    for _ in 0..if MIRI { 4 } else { 16 } {
        let n = if c.rng.chance(4, 5) { 2 * (ulen(&mut c.rng) / 2) } else { ulen(&mut c.rng) };
        let off = |r: &mut Rng, v: usize| if r.chance(4, 5) { v } else { (v + r.below(4)).saturating_sub(2) };
        let m = off(&mut c.rng, n / 2 + 1);
        let sc = off(&mut c.rng, n / 2);
        let mut x = rdata::<T>(&mut c.rng, n);
        let mut y = data::<T>(&mut c.rng, m);
        let mut s = data::<T>(&mut c.rng, sc);
        let k = c.rng.below(12);
        let tag = format!("real {name}<{}>:{k}:{n}:{}:{}", T::NAME, m == n / 2 + 1, sc == n / 2);
        go(c, &tag, || match k {
            0 => e.rfft(&mut x, &mut y),
            1 => e.irfft(&mut y, &mut x),
            2 => e.rfft_with_scratch(&mut x, &mut y, &mut s),
            3 => e.irfft_with_scratch(&mut y, &mut x, &mut s),
            4 => p.rfft(e, &mut x, &mut y),
            5 => p.irfft(e, &mut y, &mut x),
            6 => p.rfft_with_scratch(e, &mut x, &mut y, &mut s),
            7 => p.irfft_with_scratch(e, &mut y, &mut x, &mut s),
            8 => {
                rfft_packed(&mut p, e, &mut x, &mut y, &mut s)
            }
            9 => {
                irfft_packed(&mut p, e, &mut y, &mut x, &mut s)
            }
            10 => {
                black_box(touch(&p.get_twiddles(m)) + touch(&p.get_pack_twiddles(sc)));
                Ok(())
            }
            _ => {
                black_box(touch(&p.get_twiddles(sc)));
                rfft_packed(&mut p, e, &mut x, &mut y, &mut s)
            }
        });
        black_box(touch_r(&x) + touch(&y) + touch(&s));
    }
}
fn real<T: Sc + RealFftNum>(c: &mut Case) {
    let e = ScalarFftImpl::<T>::default();
    real_requests::<T, _>(c, "Scalar", &e);
}
#[cfg(feature = "std")]
fn plans<T: Sc>(c: &mut Case) {
    let n = ulen(&mut c.rng);
    let st = STRATS[c.rng.below(4)];
    let Ok(p) = guard(|| FftPlan::<T>::new(n, st.0)) else { return };
    for _ in 0..if MIRI { 4 } else { 12 } {
        let a = if c.rng.chance(3, 4) { n } else { ulen(&mut c.rng) };
        let b = if c.rng.chance(3, 4) { n } else { ulen(&mut c.rng) };
        let mut x = data::<T>(&mut c.rng, a);
        let mut y = data::<T>(&mut c.rng, b);
        let mut re = rdata::<T>(&mut c.rng, a);
        let mut im = rdata::<T>(&mut c.rng, b);
        let k = c.rng.below(6);
        go(c, &format!("plan<{}>:{k}:{}:{n}:{}", T::NAME, st.1, a == b), || match k {
            0 => p.fft(&mut x),
            1 => p.ifft(&mut x),
            2 => p.fft_out_of_place(&x, &mut y),
            3 => p.ifft_out_of_place(&x, &mut y),
            4 => p.fft_split(&mut re, &mut im),
            _ => p.ifft_split(&mut re, &mut im),
        });
        black_box(touch(&x) + touch(&y) + touch_r(&re) + touch_r(&im));
    }
    let mut pl = FftPlanner::<T>::new();
    for _ in 0..4 {
        let n = ulen(&mut c.rng);
        go(c, "planner", || {
            black_box(touch(&pl.get_twiddles(n)));
            let b = pl.get_bluestein(n);
            black_box(touch(&b.0) + touch(&b.1));
            black_box(pl.plan_strategy(n));
            Ok(())
        });
    }
}
#[cfg(feature = "std")]
fn tables(c: &mut Case) {
    let n = ulen(&mut c.rng);
    let m = if c.rng.chance(1, 2) { n } else { ulen(&mut c.rng) };
    let e = ScalarFftImpl::<f32>::default();
    for k in 0..5 {
        let mut x = data::<f32>(&mut c.rng, n);
        go(c, &format!("tables:{k}:{n}:{}", n == m), || {
            let tw = TwiddleFactorBuffer::new(m);
            match k {
                0 => e.fft_radix2_with_twiddles(&mut x, &tw),
                1 => e.fft_radix4_with_twiddles(&mut x, &tw),
                2 => e.fft_mixed_radix_with_twiddles(&mut x, &tw),
                3 => e.fft_mixed_radix(&mut x),
                _ => {
                    for q in [0, 1, m / 2, m, m + 1, usize::MAX] {
                        black_box(guard(|| tw.get(q).re > 0.5).is_ok());
                    }
                    Ok(())
                }
            }
        });
        black_box(touch(&x));
    }
}
fn containers(c: &mut Case) {
    let n = ulen(&mut c.rng);
    let m = if c.rng.chance(2, 3) { n } else { ulen(&mut c.rng) };
    let x = data::<f32>(&mut c.rng, n);
    let mut re = rdata::<f32>(&mut c.rng, m);
    let mut im = rdata::<f32>(&mut c.rng, n);
    let mut out = data::<f32>(&mut c.rng, m);
    go(c, &format!("split:{n}:{m}"), || {
        kofft::num::copy_from_complex(&x, &mut re, &mut im);
        kofft::num::copy_to_complex(&re, &im, &mut out);
        Ok(())
    });
    go(c, &format!("to_split:{n}:{m}"), || {
        let s = complex32_to_split(&x, &mut re, &mut im);
        split_to_complex32(&s, &mut out);
        fft_split_complex(s)
    });
    go(c, &format!("complexvec:{n}:{m}"), || {
        let mut v = kofft::num::ComplexVec::from_complex_vec(&x);
        {
            let (a, b) = v.as_mut_slices();
            a.reverse();
            b.reverse();
        }
        black_box(touch(&v.to_complex_vec()));
        let w = kofft::num::ComplexVec::new(re.clone(), im.clone());
        black_box(w.len() + v.len());
        #[cfg(any(feature = "simd", feature = "soa"))]
        {
            fft_complex_vec(&mut v)?;
            ifft_complex_vec(&mut v)?;
            let mut w = w;
            let _ = guard(|| fft_complex_vec(&mut w));
            black_box(touch_r(w.as_slices().0) + touch_r(w.as_slices().1));
        }
        black_box(touch_r(v.as_slices().0) + touch_r(v.as_slices().1));
        Ok(())
    });
    black_box(touch(&out) + touch_r(&re) + touch_r(&im));
}
fn nd<T: Sc>(c: &mut Case) {
    let top = if MIRI { 5 } else { 20 };
    let e = ScalarFftImpl::<T>::default();
    for _ in 0..2 {
        let d: [usize; 3] = std::array::from_fn(|_| c.rng.range(0, top));
        let total = d[0] * d[1] * d[2];
        let len = if c.rng.chance(3, 4) { total } else { c.rng.range(0, total + 3) };
        let mut x = data::<T>(&mut c.rng, len);
        let off = |r: &mut Rng, v: usize| if r.chance(5, 6) { v } else { (v + r.below(4)).saturating_sub(2) };
        let mut s: Vec<Vec<Complex<T>>> = d.iter().map(|&v| off(&mut c.rng, v)).map(|v| vec![cx::<T>(1.0, 1.0); v]).collect();
        let two = c.rng.chance(1, 2);
        let huge = c.rng.chance(1, 8);
        let h = |v: usize| if huge { v.wrapping_sub(1) | 1 << 60 } else { v };
        go(c, &format!("nd<{}>:{two}:{d:?}", T::NAME), || {
            if two {
                fft2d_inplace(&mut x, h(d[0] * d[1]), d[2], &e, &mut s[2])?;
                fft2d_inplace(&mut x, d[0], h(d[1] * d[2]), &e, &mut s[0])
            } else {
                let (a, r) = s.split_at_mut(1);
                let (b, w) = r.split_at_mut(1);
                let mut sc = Fft3dScratch { tube: &mut a[0], row: &mut b[0], col: &mut w[0] };
                fft3d_inplace(&mut x, h(d[0]), d[1], d[2], &e, &mut sc)
            }
        });
        black_box(touch(&x));
    }
}
fn frames<E: FftImpl<f32>>(c: &mut Case, name: &str, e: &E) {
    let top = if MIRI { 8 } else { 64 };
    let w = c.rng.range(0, top);
    let w = if c.rng.chance(1, 2) { w.next_power_of_two() } else { w };
    let n = c.rng.range(0, 3 * top);
    let hop = match c.rng.below(8) {
        0 => 0,
        1 => usize::MAX,
        2 => usize::MAX / 2,
        _ => c.rng.range(1, top),
    };
    let sig = rdata::<f32>(&mut c.rng, n);
    let win = rdata::<f32>(&mut c.rng, w);
    let nf = if hop == 0 { 3 } else { n.div_ceil(hop) };
    let nf = if c.rng.chance(4, 5) { nf } else { (nf + c.rng.below(4)).saturating_sub(2) };
    let mut fr: Vec<Vec<Complex<f32>>> = (0..nf).map(|_| data::<f32>(&mut c.rng, w)).collect();
    let mut out = rdata::<f32>(&mut c.rng, n);
    let mut scr = rdata::<f32>(&mut c.rng, n);
    let tag = format!("stft {name}:{w}:{}", hop.min(99));
    go(c, &tag, || {
        stft::stft(&sig, &win, hop, &mut fr, e)?;
        black_box(fr.iter().map(|v| touch(v)).sum::<usize>());
        stft::istft(&mut fr, &win, hop, &mut out, &mut scr, e)
    });
    #[cfg(feature = "parallel")]
    go(c, &format!("par {tag}"), || {
        stft::parallel(&sig, &win, hop, &mut fr, e)?;
        stft::inverse_parallel(&fr, &win, hop, &mut out, e)
    });
    go(c, &format!("stream {tag}"), || {
        let mut s = stft::StftStream::new(&sig, &win, hop, e)?;
        let mut i = stft::IstftStream::new(w, hop, win.clone(), e)?;
        let mut f = vec![Complex::<f32>::new(0.0, 0.0); w];
        let mut k = 0;
        while s.next_frame(&mut f)? && k < 40 {
            black_box(touch(&f));
            black_box(touch_r(i.push_frame(&f)?));
            k += 1;
        }
        let _ = i.push_frame(&f[..w / 2]);
        black_box(touch_r(i.flush()));
        black_box(touch_r(i.flush()));
        black_box(touch_r(i.push_frame(&f)?));
        Ok(())
    });
    let start = if c.rng.chance(1, 3) { usize::MAX - c.rng.below(3) } else { c.rng.range(0, n + 3) };
    go(c, &format!("frame {tag}"), || {
        let mut f = vec![Complex::<f32>::new(0.0, 0.0); w];
        stft::frame(&sig, &win, start, &mut f, e)?;
        black_box(touch(&f));
        stft::inverse_frame(&mut f, &win, start, &mut out, e)
    });
    black_box(touch_r(&out) + touch_r(&scr));
}
/// The remaining safe modules, touched with odd sizes.
fn others(c: &mut Case) {
    let n = ulen(&mut c.rng);
    let x = rdata::<f32>(&mut c.rng, n);
    let l = c.rng.below(6);
    use kofft::wavelet as w;
    type Fwd = fn(&[f32]) -> (Vec<f32>, Vec<f32>);
    type Inv = fn(&[f32], &[f32]) -> Vec<f32>;
    for (f, g) in [
        (w::haar_forward as Fwd, w::haar_inverse as Inv),
        (w::db2_forward, w::db2_inverse),
        (w::db4_forward, w::db4_inverse),
        (w::sym4_forward, w::sym4_inverse),
        (w::coif1_forward, w::coif1_inverse),
    ] {
        go(c, &format!("wavelet:{n}"), || {
            let (a, d) = f(&x);
            black_box(touch_r(&g(&a, &d)));
            Ok(())
        });
    }
    go(c, &format!("wavelet multi:{n}:{l}"), || {
        let (a, d) = w::db4_forward_multi(&x, l);
        black_box(touch_r(&w::db4_inverse_multi(&a, &d)));
        Ok(())
    });
    go(c, &format!("trig:{n}"), || {
        black_box(touch_r(&kofft::dct::dct1(&x)) + touch_r(&kofft::dct::dct2(&x)) + touch_r(&kofft::dst::dst3(&x)) + touch_r(&kofft::dst::dst4(&x)));
        black_box(touch_r(&kofft::hartley::dht(&x)));
        Ok(())
    });
    go(c, &format!("analysis:{n}"), || {
        black_box(kofft::goertzel::goertzel_f32(&x, 8000.0, 440.0)? > 0.5);
        let _ = kofft::hilbert::hilbert_analytic(&x).map(|v| black_box(touch(&v)));
        let _ = kofft::cepstrum::real_cepstrum(&x).map(|v| black_box(touch_r(&v)));
        black_box(kofft::czt::czt_f32(&x, n / 2, (0.9, 0.1), (1.0, 0.0)).iter().filter(|v| v.0 > 0.5).count());
        Ok(())
    });
    #[cfg(feature = "parallel")]
    go(c, &format!("parallel:{n}"), || {
        let mut d = data::<f32>(&mut Rng::new(n as u64), n);
        set_parallel_fft_threshold(1 + n % 3);
        fft_parallel(&mut d)?;
        ifft_parallel(&mut d)?;
        black_box(touch(&d));
        Ok(())
    });
    #[cfg(feature = "std")]
    go(c, "index", || {
        let mut s = kofft::media::index::SongIndex::new();
        black_box(s.identify(std::path::Path::new("/nonexistent/file")).is_err());
        Ok(())
    });
}

// ------------------------------------------------------------------ sharing probes
/// Method resolution picks the `Share` impl only for types that are `Sync`; all others fall back
/// to the harmless trait on the reference. So the probe shares exactly what safe code could share.
struct Probe<T>(PhantomData<T>);
trait Share<T> {
    fn share(&self, t: &T, f: &(dyn Fn(&T, u64) + Sync)) -> bool;
}
impl<T: Sync> Share<T> for Probe<T> {
    fn share(&self, t: &T, f: &(dyn Fn(&T, u64) + Sync)) -> bool {
        std::thread::scope(|s| {
            for k in 0..4 {
                s.spawn(move || {
                    let _ = guard(|| f(t, k));
                });
            }
        });
        true
    }
}
trait NoShare<T> {
    fn share(&self, _: &T, _: &(dyn Fn(&T, u64) + Sync)) -> bool {
        false
    }
}
impl<T> NoShare<T> for &Probe<T> {}
trait Hand<T> {
    fn hand(&self, t: T, g: &dyn Fn(), f: &(dyn Fn(T) + Sync)) -> bool;
}
impl<T: Send> Hand<T> for Probe<T> {
    /// Move the object to another thread while this thread keeps using its siblings.
    fn hand(&self, t: T, g: &dyn Fn(), f: &(dyn Fn(T) + Sync)) -> bool {
        std::thread::scope(|s| {
            s.spawn(move || {
                let _ = guard(|| f(t));
            });
            let _ = guard(g);
        });
        true
    }
}
trait NoHand<T> {
    fn hand(&self, _: T, _: &dyn Fn(), _: &(dyn Fn(T) + Sync)) -> bool {
        false
    }
}
impl<T> NoHand<T> for &Probe<T> {}
macro_rules! share {
    ($c:ident, $t:ty, $v:expr, $f:expr) => {{
        let v: $t = $v;
        $c.ev();
        let shared = (&Probe::<$t>(PhantomData)).share(&v, &$f);
        $c.cover(format!("{}: {}", stringify!($t), if shared { "is Sync, hammered from 4 threads" } else { "not Sync" }));
        $c.sig(&format!("share {} {shared}", stringify!($t)));
    }};
}
macro_rules! hand {
    ($c:ident, $t:ty, $v:expr, $g:expr, $f:expr) => {{
        let v: $t = $v;
        $c.ev();
        let moved = (&Probe::<$t>(PhantomData)).hand(v, &$g, &$f);
        $c.cover(format!("{}: {}", stringify!($t), if moved { "is Send, handed over" } else { "not Send" }));
        $c.sig(&format!("hand {} {moved}", stringify!($t)));
    }};
}
fn churn<T: Sc>(e: &dyn FftImpl<T>, k: u64) {
    let mut r = Rng::new(k);
    for _ in 0..if MIRI { 3 } else { 40 } {
        let n = r.range(1, if MIRI { 12 } else { 200 });
        let mut d = data::<T>(&mut r, n);
        let _ = guard(|| e.fft(&mut d));
        let _ = guard(|| e.fft_strided_alloc(&mut d, 2));
        black_box(touch(&d));
    }
}
fn sharing(c: &mut Case) {
    share!(c, ScalarFftImpl<f32>, ScalarFftImpl::default(), |e: &ScalarFftImpl<f32>, k| churn::<f32>(e, k));
    share!(c, ScalarFftImpl<f64>, ScalarFftImpl::default(), |e: &ScalarFftImpl<f64>, k| churn::<f64>(e, k));
    share!(c, FftPlanner<f32>, FftPlanner::new(), |p: &FftPlanner<f32>, _| {
        black_box(std::mem::size_of_val(p));
    });
    #[cfg(target_arch = "x86_64")]
    share!(c, SimdFftX86_64Impl, SimdFftX86_64Impl, |e: &SimdFftX86_64Impl, k| churn::<f32>(e, k));
    share!(c, Box<dyn FftImpl<f32>>, new_fft_impl(), |e: &Box<dyn FftImpl<f32>>, k| churn::<f32>(&**e, k));
    share!(c, RfftPlanner<f32>, RfftPlanner::new(), |p: &RfftPlanner<f32>, _| {
        black_box(std::mem::size_of_val(p));
    });
    #[cfg(feature = "std")]
    {
        fn plan<T: Sc>(p: &FftPlan<T>, n: usize, k: u64) {
            let mut r = Rng::new(k);
            for _ in 0..if MIRI { 2 } else { 40 } {
                let mut d = data::<T>(&mut r, n);
                let _ = guard(|| p.fft(&mut d));
                let _ = guard(|| p.ifft(&mut d));
                let mut re = rdata::<T>(&mut r, n);
                let mut im = rdata::<T>(&mut r, n);
                let _ = guard(|| p.fft_split(&mut re, &mut im));
                black_box(touch(&d) + touch_r(&re));
            }
        }
        let n = ulen(&mut c.rng).max(1);
        let st = STRATS[c.rng.below(4)].0;
        share!(c, FftPlan<f32>, FftPlan::new(n, st), move |p: &FftPlan<f32>, k| plan(p, n, k));
        share!(c, FftPlan<f64>, FftPlan::new(n, st), move |p: &FftPlan<f64>, k| plan(p, n, k));
        share!(c, TwiddleFactorBuffer, TwiddleFactorBuffer::new(n.max(2)), |p: &TwiddleFactorBuffer, k| {
            black_box(p.get(k as usize).re > 0.5);
        });
        hand!(c, FftPlan<f32>, FftPlan::new(n, st), || (), move |p: FftPlan<f32>| plan(&p, n, 1));
        share!(c, kofft::media::index::SongIndex, kofft::media::index::SongIndex::new(), |p: &kofft::media::index::SongIndex, _| {
            black_box(std::mem::size_of_val(p));
        });
    }
    // siblings that share cached tables
    {
        let mut p = FftPlanner::<f32>::new();
        let t = p.get_twiddles(8);
        let e = ScalarFftImpl::with_planner(p);
        let keep = t.clone();
        hand!(c, ScalarFftImpl<f32>, e, || {
            for _ in 0..20 {
                black_box(touch(&keep.clone()));
            }
        }, |e: ScalarFftImpl<f32>| churn::<f32>(&e, 3));
    }
    {
        let mut p = RfftPlanner::<f32>::new();
        let t = p.get_twiddles(8);
        hand!(c, RfftPlanner<f32>, p, || {
            for _ in 0..20 {
                black_box(touch(&t.clone()));
            }
        }, |mut p: RfftPlanner<f32>| {
            for _ in 0..20 {
                black_box(touch(&p.get_twiddles(8)));
            }
        });
    }
    hand!(c, Box<dyn FftImpl<f32>>, new_fft_impl(), || (), |e: Box<dyn FftImpl<f32>>| churn::<f32>(&*e, 4));
}
pub fn p24(x: &mut Ctx) {
    let m = if MIRI { 1 } else { 4 };
    x.run("sharing", 8, sharing);
    x.run("entries32", 60 * m, entries::<f32>);
    x.run("engine32", 40 * m, |c| {
        match c.rng.below(3) {
            0 => {
                let e = new_fft_impl();
                requests(c, "new_fft_impl", &*e)
            }
            #[cfg(target_arch = "x86_64")]
            1 => requests(c, "Simd", &SimdFftX86_64Impl),
            _ => engines_::<f32>(c),
        };
    });
    x.run("real32", 40 * m, real::<f32>);
    x.run("user32", 30 * m, user_engine::<f32>);
    #[cfg(feature = "std")]
    {
        x.run("plans32", 40 * m, plans::<f32>);
        x.run("tables", 20 * m, tables);
    }
    x.run("frames", 30 * m, |c| {
        let e = ScalarFftImpl::<f32>::default();
        frames(c, "Scalar", &e)
    });
    x.run("frames-user", 20 * m, |c| {
        let e = Reader::new(&mut c.rng);
        frames(c, "User", &e)
    });
    x.run("containers", 20 * m, containers);
    x.run("nd32", 20 * m, nd::<f32>);
    x.run("entries64", 40 * m, entries::<f64>);
    x.run("engine64", 30 * m, engines_::<f64>);
    x.run("real64", 30 * m, real::<f64>);
    x.run("user64", 15 * m, user_engine::<f64>);
    #[cfg(feature = "std")]
    x.run("plans64", 30 * m, plans::<f64>);
    x.run("nd64", 15 * m, nd::<f64>);
    x.run("others", 20 * m, others);
}
