//! P09 STFT, P10 batch inverse STFT, P11 streaming inverse STFT.
use crate::engines::*;
use crate::fw::*;
use crate::oracle::*;
use crate::p_fft::B_FFT;
use kofft::fft::*;
use kofft::stft::*;
use kofft::{window, Complex32};

const EPS: f64 = f32::EPSILON as f64;

fn mk_window(c: &mut Case, w: usize) -> (&'static str, Vec<f32>) {
    let mut v = match c.rng.below(8) {
        0 => ("ones", vec![1.0; w]),
        1 => ("hann", window::hann(w)),
        2 => ("hamming", window::hamming(w)),
        3 => ("blackman", window::blackman(w)),
        4 => ("kaiser", window::kaiser(w, 5.0)),
        5 => ("partial", (0..w).map(|i| if i * 3 < w { 0.0 } else { 0.5 + 0.1 * (i % 3) as f32 }).collect()),
        6 => ("signed", (0..w).map(|_| c.rng.uni(-1.0, 1.0) as f32).collect()),
        _ => ("ramp", (0..w).map(|i| (i + 1) as f32 / w as f32).collect()),
    };
    if c.rng.chance(1, 6) {
        let s = *c.rng.pick(&[0.01f32, 30.0, 1e-3]);
        v.1.iter_mut().for_each(|x| *x *= s);
    }
    v
}
fn params(c: &mut Case) -> (usize, usize, usize) {
    if c.rng.chance(1, 40) && !cfg!(miri) {
        // long windows, or very many frames
        return if c.rng.chance(1, 2) {
            let w = *c.rng.pick(if STD { &[1000usize, 1024, 2048, 3000, 4096, 4097, 8192][..] } else { &[1024, 2048, 4096, 8192][..] });
            let hop = *c.rng.pick(&[w, w / 2, w / 4, w + 5]);
            (w, hop, c.rng.range(1, 4 * hop))
        } else {
            let w = *c.rng.pick(if STD { &[1usize, 2, 3, 4, 8, 12][..] } else { &[1, 2, 4, 8][..] });
            let hop = c.rng.range(1, w + 2);
            (w, hop, hop * c.rng.logsize(200, 5000))
        };
    }
    let cap = if cfg!(miri) { 16 } else if c.full() { 1100 } else { 260 };
    let w = if STD {
        match c.rng.below(4) {
            0 => c.rng.range(1, 12),
            1 => 1 << c.rng.range(0, (cap as f64).log2() as usize),
            _ => c.rng.logsize(1, cap),
        }
    } else {
        1 << c.rng.range(0, 8)
    };
    let hop = match c.rng.below(8) {
        0 => w,
        1 => (w / 2).max(1),
        2 => (w / 4).max(1),
        3 => w + c.rng.range(1, 20),
        4 => 1 + c.rng.below(3),
        _ => c.rng.range(1, w),
    };
    let frames = match c.rng.below(6) {
        0 => 1,
        1 => 0,
        _ => c.rng.range(1, if cfg!(miri) { 4 } else { 24 }),
    };
    let len = if frames == 0 { c.rng.below(3) } else { ((frames - 1) * hop + c.rng.range(1, hop)).min(20000) };
    (w, hop, len)
}
fn sig(c: &mut Case, n: usize) -> (&'static str, Vec<f32>) {
    let (p, s) = rsignal::<f32>(&mut c.rng, n);
    // keep amplitudes in a range where squares do not overflow
    let m = s.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    if m > 1e9 || (m > 0.0 && m < 1e-12) {
        (p, s.iter().map(|v| v / m).collect())
    } else if m > 0.0 && c.rng.chance(1, 5) {
        // recordings are quiet, or raw integers of 8 to 32 bits
        let a = *c.rng.pick(&[1e-12f32, 1e-9, 1e-6, 1e-4, 128.0, 32768.0, 8388608.0, 2147483648.0]);
        c.cover(format!("loudness:{a:e}"));
        (p, s.iter().map(|v| v * (a / m)).collect())
    } else {
        (p, s)
    }
}
/// The windowed slice a frame is the transform of.
fn slice(s: &[f32], w: &[f32], start: usize) -> Vec<Z> {
    (0..w.len()).map(|i| z(start.checked_add(i).and_then(|k| s.get(k)).map_or(0.0, |&v| v as f64 * w[i] as f64), 0.0)).collect()
}
fn judge_frame(c: &mut Case, what: &str, got: &[Complex32], s: &[f32], w: &[f32], start: usize) {
    let x = slice(s, w, start);
    let want = fft_ref(&x);
    let nref = (w.len() as f64).sqrt() * norm(&x);
    if nref == 0.0 {
        c.check(got.len() == w.len() && got.iter().all(|v| v.re == 0.0 && v.im == 0.0), &format!("{what}: wrong values"), || format!("start={start} silent frame not zero"));
        return;
    }
    judge(c, what, "frame", &toz(got), &want, EPS, nref, B_FFT);
}
fn analysis<F: FftImpl<f32>>(c: &mut Case, e: &F, en: &str) {
    let p = params(c);
    analysis_of(c, e, en, p)
}
/// More frames than sixteen bits can count.
fn many_frames(c: &mut Case) -> (usize, usize, usize) {
    let w = if STD { c.rng.range(1, 4) } else { 1 << c.rng.range(0, 2) };
    let hop = c.rng.range(1, w + 2);
    let frames = if cfg!(miri) { 9 } else { *c.rng.pick(&[65535usize, 65536, 65537, 66_000, 70_001, 131_073]) };
    (w, hop, (frames - 1) * hop + c.rng.range(1, hop))
}
fn analysis_of<F: FftImpl<f32>>(c: &mut Case, e: &F, en: &str, (w, hop, len): (usize, usize, usize)) {
    let (wn, win) = mk_window(c, w);
    let (pat, s) = sig(c, len);
    let need = len.div_ceil(hop);
    let extra = if c.rng.chance(1, 4) { c.rng.range(1, 3) } else { 0 };
    c.sig(&format!("{w}:{hop}:{len}:{wn}:{pat}"));
    c.cover(format!("window:{wn}"));
    c.cover(if hop > w { "hop>window" } else if hop == w { "hop=window" } else { "overlap" });
    c.sample(format!("{en} window={wn}({w}) hop={hop} signal={len} {pat} frames={need}"));
    // batch; frames come in with arbitrary lengths and contents
    let mut out: Vec<Vec<Complex32>> = (0..need + extra).map(|i| vec![Complex32::new(f32::NAN, 3.0); (i * 7) % (w + 2)]).collect();
    let what = format!("stft<{en}>");
    match c.call(&what, || stft(&s, &win, hop, &mut out, e)) {
        Some(Ok(())) => {
            for (f, o) in out.iter().enumerate() {
                judge_frame(c, &what, o, &s, &win, f * hop);
            }
        }
        Some(Err(er)) => c.fail(format!("{what}: refused"), format!("w={w} hop={hop} len={len} {er:?}")),
        None => {}
    }
    // single frames at any start
    for _ in 0..3 {
        let st = match c.rng.below(5) {
            0 => len + c.rng.below(4),
            1 => usize::MAX - c.rng.below(4),
            _ => c.rng.below(len + 1),
        };
        let mut o = vec![Complex32::new(f32::NAN, f32::NAN); w];
        let what = format!("frame<{en}>");
        if let Some(Ok(())) = c.call(&what, || frame(&s, &win, st, &mut o, e)) {
            judge_frame(c, &what, &o, &s, &win, st);
        } else {
            c.fail(format!("{what}: refused"), format!("w={w} start={st} len={len}"));
        }
    }
    // streaming: every frame once, in order, then the end
    let what = format!("StftStream<{en}>");
    let Some(Ok(mut st)) = c.call(&what, || StftStream::new(&s, &win, hop, e)) else {
        return c.fail(format!("{what}: refused"), format!("hop={hop}"));
    };
    let mut o = vec![Complex32::new(f32::NAN, 1.0); w];
    let mut f = 0;
    loop {
        if c.rng.chance(1, 8) {
            // a rejected request must not consume a frame
            let mut bad = vec![Complex32::new(0.0, 0.0); w + 1];
            let r = c.call(&what, || st.next_frame(&mut bad));
            c.check(matches!(r, Some(Err(_))), &format!("{what}: wrong buffer accepted"), || format!("w={w}"));
        }
        match c.call(&what, || st.next_frame(&mut o)) {
            Some(Ok(true)) => {
                if f >= need {
                    return c.fail(format!("{what}: too many frames"), format!("w={w} hop={hop} len={len} frame {f} of {need}"));
                }
                judge_frame(c, &what, &o, &s, &win, f * hop);
                f += 1;
            }
            Some(Ok(false)) => break,
            Some(Err(er)) => return c.fail(format!("{what}: refused"), format!("{er:?}")),
            None => return,
        }
    }
    c.check(f == need, &format!("{what}: lost frames"), || format!("w={w} hop={hop} len={len}: {f} of {need}"));
    for _ in 0..2 {
        let r = c.call(&what, || st.next_frame(&mut o));
        c.check(matches!(r, Some(Ok(false))), &format!("{what}: frames after the end"), || format!("w={w} hop={hop} len={len}"));
    }
    #[cfg(feature = "parallel")]
    {
        let mut out: Vec<Vec<Complex32>> = (0..need + extra).map(|i| vec![Complex32::new(f32::NAN, 3.0); (i * 5) % (w + 2)]).collect();
        match c.call("stft::parallel", || parallel(&s, &win, hop, &mut out, e)) {
            Some(Ok(())) => {
                for (f, o) in out.iter().enumerate() {
                    judge_frame(c, "stft::parallel", o, &s, &win, f * hop);
                }
            }
            Some(Err(er)) => c.fail("stft::parallel: refused", format!("w={w} hop={hop} len={len} {er:?}")),
            None => {}
        }
    }
}
fn either(c: &mut Case, f: fn(&mut Case, bool)) {
    let k = c.rng.chance(1, 3);
    f(c, k)
}
pub fn p09(x: &mut Ctx) {
    x.run("analysis", 900, |c| {
        either(c, |c, simd| {
            #[cfg(target_arch = "x86_64")]
            if simd {
                return analysis(c, &SimdFftX86_64Impl, "SimdFft");
            }
            let _ = simd;
            analysis(c, &ScalarFftImpl::<f32>::default(), "ScalarFftImpl")
        })
    });
    // one engine reused over many windows
    x.run("reuse", 60, |c| {
        let e = ScalarFftImpl::<f32>::default();
        for _ in 0..4 {
            analysis(c, &e, "reused ScalarFftImpl");
        }
    });
    x.run("many-frames", 1, |c| {
        if c.idx % 8 == 0 {
            let p = many_frames(c);
            analysis_of(c, &ScalarFftImpl::<f32>::default(), "ScalarFftImpl", p)
        }
    });
}

/// Overlap-add reference: numerator, window power, and the error scale of every sample.
struct Ola {
    num: Vec<f64>,
    den: Vec<f64>,
    scale: Vec<f64>,
    cover: Vec<u32>,
}
fn ola(frames: &[Vec<Complex32>], w: &[f32], hop: usize, len: usize) -> Ola {
    let mut o = Ola { num: vec![0.0; len], den: vec![0.0; len], scale: vec![0.0; len], cover: vec![0; len] };
    for (f, fr) in frames.iter().enumerate() {
        let t = ifft_ref(&toz(fr));
        let nt = norm(&t);
        for (i, &wi) in w.iter().enumerate() {
            let k = f * hop + i;
            if k >= len {
                break;
            }
            let wi = wi as f64;
            o.num[k] += t[i].re * wi;
            o.den[k] += wi * wi;
            o.scale[k] += nt * wi.abs();
            o.cover[k] += 1;
        }
    }
    o
}
const NEGLIGIBLE: f64 = 1e-6;
fn judge_ola(c: &mut Case, what: &str, got: &[f32], o: &Ola, w: usize, from: usize, ctx: &str) -> bool {
    let l = (w.max(2) as f64).log2() + 3.0;
    for (j, &g) in got.iter().enumerate() {
        let k = from + j;
        c.evals += 1;
        let (want, tol) = if k >= o.num.len() || o.cover[k] == 0 || o.den[k] == 0.0 {
            (0.0, if k < o.num.len() { 4.0 * EPS * l * o.scale[k] } else { 0.0 })
        } else if o.den[k] < NEGLIGIBLE {
            if !g.is_finite() {
                c.fail(format!("{what}: not finite"), format!("{ctx} sample {k}"));
                return false;
            }
            continue;
        } else {
            let v = o.num[k] / o.den[k];
            (v, 4.0 * EPS * (l + o.cover[k] as f64) * (o.scale[k] / o.den[k] + v.abs()))
        };
        let d = (g as f64 - want).abs();
        if tol > 0.0 {
            c.ratio("overlap-add", d / tol, || format!("{what} {ctx} sample {k}"));
        }
        if !(d <= tol) {
            c.fail(format!("{what}: wrong sample"), format!("{ctx} sample {k}: got {g} want {want} tolerance {tol:.2e} window power {}", o.den.get(k).unwrap_or(&0.0)));
            return false;
        }
    }
    true
}
fn own_frames<F: FftImpl<f32>>(c: &mut Case, e: &F, (w, hop, len): (usize, usize, usize)) -> Option<(Vec<f32>, Vec<f32>, usize, Vec<Vec<Complex32>>, String)> {
    let (wn, win) = mk_window(c, w);
    let (pat, s) = sig(c, len);
    let mut frames = vec![vec![]; len.div_ceil(hop)];
    c.call("stft", || stft(&s, &win, hop, &mut frames, e))?.ok()?;
    c.sig(&format!("{w}:{hop}:{len}:{wn}:{pat}"));
    c.cover(format!("window:{wn}"));
    let ctx = format!("window={wn}({w}) hop={hop} signal={len} {pat}");
    c.sample(ctx.clone());
    Some((s, win, hop, frames, ctx))
}
fn synth<F: FftImpl<f32>>(c: &mut Case, e: &F, en: &str) {
    let p = params(c);
    synth_of(c, e, en, p)
}
fn synth_of<F: FftImpl<f32>>(c: &mut Case, e: &F, en: &str, p: (usize, usize, usize)) {
    let Some((s, win, hop, mut frames, ctx)) = own_frames(c, e, p) else { return };
    let w = win.len();
    // sometimes arbitrary (not necessarily consistent) frames
    let own = !c.rng.chance(1, 4);
    if !own {
        for f in frames.iter_mut() {
            let (_, v) = signal(&mut c.rng, w, 0.0);
            *f = v.iter().map(|v| Complex32::new(v.re as f32, v.im as f32)).collect();
        }
    }
    let ol = match c.rng.below(4) {
        0 => s.len() + c.rng.below(2 * w + 2),
        1 => s.len().saturating_sub(c.rng.below(w + 1)),
        _ => s.len(),
    };
    let o = ola(&frames, &win, hop, ol);
    let junk = *c.rng.pick(&[0.0f32, f32::NAN, 1e30, -5.0, f32::INFINITY]);
    let mut out = vec![junk; ol];
    let mut scr = vec![*c.rng.pick(&[0.0f32, f32::NAN, 7.0]); ol];
    let mut fr = frames.clone();
    let what = format!("istft<{en}>");
    let ctx = format!("{ctx} output={ol} junk={junk}");
    match c.call(&what, || istft(&mut fr, &win, hop, &mut out, &mut scr, e)) {
        Some(Ok(())) => {
            judge_ola(c, &what, &out, &o, w, 0, &ctx);
            if own {
                // against the original signal itself
                let l = (w.max(2) as f64).log2() + 3.0;
                for k in 0..ol.min(s.len()) {
                    if o.den[k] >= NEGLIGIBLE {
                        c.evals += 1;
                        let tol = 3.0 * EPS * (l + o.cover[k] as f64) * (o.scale[k] / o.den[k] + s[k].abs() as f64);
                        let d = (out[k] as f64 - s[k] as f64).abs();
                        c.ratio("reconstruction", if tol > 0.0 { d / tol } else { 0.0 }, || format!("{what} {ctx} sample {k}"));
                        if !(d <= tol) {
                            c.fail(format!("{what}: signal not reconstructed"), format!("{ctx} sample {k}: got {} want {}", out[k], s[k]));
                            break;
                        }
                    }
                }
            }
        }
        Some(Err(er)) => c.fail(format!("{what}: refused"), format!("{ctx} {er:?}")),
        None => {}
    }
    #[cfg(feature = "parallel")]
    {
        let mut out = vec![junk; ol];
        let fr = frames.clone();
        match c.call("inverse_parallel", || inverse_parallel(&fr, &win, hop, &mut out, e)) {
            Some(Ok(())) => {
                judge_ola(c, "inverse_parallel", &out, &o, w, 0, &ctx);
                c.check(fr.iter().zip(&frames).all(|(a, b)| same_bits(a, b)), "inverse_parallel modified its frames", || ctx.clone());
            }
            Some(Err(er)) => c.fail("inverse_parallel: refused", format!("{ctx} {er:?}")),
            None => {}
        }
    }
    // single-frame inverse: adds exactly window * IDFT to its region
    if !frames.is_empty() {
        for _ in 0..2 {
            let f = c.rng.below(frames.len());
            let st = match c.rng.below(5) {
                0 => ol + c.rng.below(3),
                1 => usize::MAX - c.rng.below(3),
                _ => c.rng.below(ol + 1),
            };
            let base: Vec<f32> = (0..ol).map(|_| c.rng.uni(-2.0, 2.0) as f32).collect();
            let mut out = base.clone();
            let mut fr = frames[f].clone();
            let what = format!("inverse_frame<{en}>");
            let Some(Ok(())) = c.call(&what, || inverse_frame(&mut fr, &win, st, &mut out, e)) else {
                c.fail(format!("{what}: refused"), ctx.clone());
                continue;
            };
            let t = ifft_ref(&toz(&frames[f]));
            let nt = norm(&t);
            let l = (w.max(2) as f64).log2() + 3.0;
            for k in 0..ol {
                c.evals += 1;
                let i = k.wrapping_sub(st);
                let inside = k >= st && i < w;
                let want = base[k] as f64 + if inside { t[i].re * win[i] as f64 } else { 0.0 };
                let tol = if inside { 4.0 * EPS * (l * nt * win[i].abs() as f64 + want.abs() + base[k].abs() as f64) } else { 0.0 };
                if !((out[k] as f64 - want).abs() <= tol) {
                    c.fail(format!("{what}: wrong sample"), format!("{ctx} start={st} sample {k}: got {} want {want}", out[k]));
                    break;
                }
            }
        }
    }
}
pub fn p10(x: &mut Ctx) {
    x.run("synth", 900, |c| {
        either(c, |c, simd| {
            #[cfg(target_arch = "x86_64")]
            if simd {
                return synth(c, &SimdFftX86_64Impl, "SimdFft");
            }
            let _ = simd;
            synth(c, &ScalarFftImpl::<f32>::default(), "ScalarFftImpl")
        })
    });
    x.run("reuse", 60, |c| {
        let e = ScalarFftImpl::<f32>::default();
        for _ in 0..4 {
            synth(c, &e, "reused ScalarFftImpl");
        }
    });
    x.run("many-frames", 1, |c| {
        if c.idx % 8 == 0 {
            let p = many_frames(c);
            synth_of(c, &ScalarFftImpl::<f32>::default(), "ScalarFftImpl", p)
        }
    });
}

fn stream<F: FftImpl<f32>>(c: &mut Case, e: &F, en: &str) {
    let p = params(c);
    let Some((_, win, hop, mut frames, ctx)) = own_frames(c, e, p) else { return };
    let w = win.len();
    if c.rng.chance(1, 3) {
        for f in frames.iter_mut() {
            let (_, v) = signal(&mut c.rng, w, 0.0);
            *f = v.iter().map(|v| Complex32::new(v.re as f32, v.im as f32)).collect();
        }
    }
    let nf = frames.len();
    let total = if nf == 0 { 0 } else { nf * hop + w.saturating_sub(hop) };
    let o = ola(&frames, &win, hop, total);
    let what = format!("IstftStream<{en}>");
    let Some(Ok(mut st)) = c.call(&what, || IstftStream::new(w, hop, win.clone(), e)) else {
        return c.fail(format!("{what}: refused"), ctx);
    };
    // rejected frames (of any wrong length) and early flushes change nothing, wherever they fall
    let reject = |c: &mut Case, st: &mut IstftStream<'_, F>| {
        for _ in 0..c.rng.range(1, 3) {
            let l = *c.rng.pick(&[w + 1, w - 1, 0, 2 * w, w + 7]);
            if l == w {
                continue;
            }
            let bad = vec![Complex32::new(1.0, 1.0); l];
            let r = c.call(&what, || st.push_frame(&bad).map(|s| s.len()));
            c.check(matches!(r, Some(Err(_))), &format!("{what}: wrong frame accepted"), || format!("{ctx} length {l}"));
        }
    };
    for _ in 0..c.rng.below(3) {
        if c.rng.chance(1, 2) {
            reject(c, &mut st);
        } else {
            let r = c.call(&what, || st.flush().len());
            c.check(r == Some(0), &format!("{what}: flush before any frame returned samples"), || ctx.clone());
        }
    }
    let mut emitted = 0;
    for f in &frames {
        if c.rng.chance(1, 6) {
            reject(c, &mut st);
        }
        match c.call(&what, || st.push_frame(f).map(|s| s.to_vec())) {
            Some(Ok(s)) => {
                if !c.check(s.len() == hop, &format!("{what}: push did not emit one hop"), || format!("{ctx}: {} samples", s.len())) {
                    return;
                }
                if !judge_ola(c, &what, &s, &o, w, emitted, &ctx) {
                    return;
                }
                emitted += s.len();
            }
            Some(Err(er)) => return c.fail(format!("{what}: refused"), format!("{ctx} {er:?}")),
            None => return,
        }
    }
    if c.rng.chance(1, 4) {
        reject(c, &mut st);
    }
    let Some(tail) = c.call(&what, || st.flush().to_vec()) else { return };
    if c.check(emitted + tail.len() == total, &format!("{what}: flush emitted the wrong number of samples"), || format!("{ctx}: {} + {} of {total}", emitted, tail.len())) {
        judge_ola(c, &format!("{what} flush"), &tail, &o, w, emitted, &ctx);
    }
    let r = c.call(&what, || st.flush().len());
    c.check(r == Some(0), &format!("{what}: second flush returned samples"), || ctx.clone());
    c.cover(format!("tail:{}", if tail.is_empty() { "empty" } else { "samples" }));
}
pub fn p11(x: &mut Ctx) {
    x.run("stream", 900, |c| {
        either(c, |c, simd| {
            #[cfg(target_arch = "x86_64")]
            if simd {
                return stream(c, &SimdFftX86_64Impl, "SimdFft");
            }
            let _ = simd;
            stream(c, &ScalarFftImpl::<f32>::default(), "ScalarFftImpl")
        })
    });
    // long streams (buffer growth)
    let long = |c: &mut Case, very: bool| {
        let w = if very { 1 << c.rng.range(0, 3) } else if STD { c.rng.range(3, 40) } else { 16 };
        let w = if very && c.idx % 3 != 1 { w.max(2) } else { w };
        let hop = if very { c.rng.range(1, (w - 1).max(1)) } else { c.rng.range(1, w + 4) };
        let (wn, win) = mk_window(c, w);
        let nf = if cfg!(miri) { 6 } else if very {
            // around and exactly at what sixteen bits can count
            match c.idx % 3 {
                0 => 1 << 16,
                1 => c.rng.range(66000, 90000),
                _ => (1 << 16) + c.rng.range(0, 2) - 1,
            }
        } else {
            match c.rng.below(4) {
                0 => 256,
                1 => *c.rng.pick(&[64, 127, 128, 255, 257, 512]),
                _ => c.rng.range(50, 400),
            }
        };
        let frames: Vec<Vec<Complex32>> = (0..nf)
            .map(|_| signal(&mut c.rng, w, 0.0).1.iter().map(|v| Complex32::new(v.re as f32, v.im as f32)).collect())
            .collect();
        let e = ScalarFftImpl::<f32>::default();
        let o = ola(&frames, &win, hop, nf * hop + w.saturating_sub(hop));
        let ctx = format!("window={wn}({w}) hop={hop} frames={nf}");
        c.sig(&ctx);
        let Some(Ok(mut st)) = c.call("IstftStream", || IstftStream::new(w, hop, win.clone(), &e)) else { return };
        let mut at = 0;
        for f in &frames {
            let Some(Ok(s)) = c.call("IstftStream", || st.push_frame(f).map(|s| s.to_vec())) else {
                return c.fail("IstftStream: refused", ctx);
            };
            if !c.check(s.len() == hop, "IstftStream: push did not emit one hop", || ctx.clone()) || !judge_ola(c, "IstftStream", &s, &o, w, at, &ctx) {
                return;
            }
            at += hop;
        }
        let tail = st.flush().to_vec();
        c.check(at + tail.len() == o.num.len(), "IstftStream: flush emitted the wrong number of samples", || ctx.clone());
        judge_ola(c, "IstftStream flush", &tail, &o, w, at, &ctx);
    };
    x.run("long", 24, |c| long(c, false));
    // more frames than sixteen bits can count
    x.run("very-long", 3, |c| long(c, true));
}
