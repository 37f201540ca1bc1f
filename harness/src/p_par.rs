//! P23 parallel entry points against references, under tuning, pools, nesting and concurrent load.
use crate::fw::*;
use crate::oracle::*;
use crate::p_fft::B_FFT;
use kofft::fft::*;
use kofft::rfft::*;
#[cfg(feature = "parallel")]
use kofft::{stft as st, window};
use kofft::{Complex, Complex32};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};

const SLOW: bool = cfg!(miri) || cfg!(kverif_tsan);
const EPS: f64 = f32::EPSILON as f64;
#[cfg(feature = "parallel")]
const VALUES: [usize; 14] = [0, 0, 1, 2, 3, 7, 16, 64, 256, 1000, 4096, 1 << 20, usize::MAX / 2, usize::MAX];
#[cfg(feature = "parallel")]
fn tune(r: &mut Rng) -> String {
    let mut log = String::new();
    for (i, f) in [set_parallel_fft_threshold as fn(usize), set_parallel_fft_l1_cache, set_parallel_fft_per_core_work, set_parallel_fft_threads, set_parallel_fft_block_size].into_iter().enumerate() {
        // mostly thresholds that make the parallel path run on the sizes used here
        let v = if i == 0 && r.chance(1, 2) { *r.pick(&[1usize, 2, 64]) } else { *r.pick(&VALUES) };
        f(v);
        log += &format!("{v},");
    }
    log
}
#[cfg(not(feature = "parallel"))]
fn tune(_: &mut Rng) -> String {
    String::new()
}
#[cfg(feature = "parallel")]
fn in_pool<R: Send>(threads: usize, f: impl FnOnce() -> R + Send) -> R {
    static POOLS: Mutex<Vec<(usize, Arc<rayon::ThreadPool>)>> = Mutex::new(vec![]);
    if threads == 0 {
        return f();
    }
    let p = {
        let mut v = POOLS.lock().unwrap_or_else(|e| e.into_inner());
        match v.iter().find(|p| p.0 == threads) {
            Some(p) => p.1.clone(),
            None => {
                let p = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("pool"));
                v.push((threads, p.clone()));
                p
            }
        }
    };
    p.install(f)
}
#[cfg(not(feature = "parallel"))]
fn in_pool<R: Send>(_: usize, f: impl FnOnce() -> R + Send) -> R {
    f()
}
fn plen(r: &mut Rng, tier_full: bool) -> usize {
    let top = if cfg!(miri) { 5 } else if cfg!(kverif_tsan) { 11 } else if tier_full { 17 } else { 15 };
    match r.below(6) {
        0 => r.range(1, 40),
        1 => r.logsize(1, 1 << (top - 3)),
        _ => 1 << r.range(0, top),
    }
}
fn pools(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 1, 2, 3, 5, 8, 16])
}

fn tuned<T: Sc>(c: &mut Case) {
    let full = c.full();
    let n = plen(&mut c.rng, full);
    let (pat, x) = csignal::<T>(&mut c.rng, n);
    let xz = toz(&x);
    for inv in [false, true] {
        let want = if inv { ifft_ref(&xz) } else { fft_ref(&xz) };
        let nref = norm(&want);
        let t = tune(&mut c.rng);
        let p = pools(&mut c.rng);
        c.sig(&format!("{}:{n}:{inv}:{p}:{t}", T::NAME));
        c.cover(format!("pool:{p}"));
        let what = format!("{}<{}>", if inv { "ifft_parallel" } else { "fft_parallel" }, T::NAME);
        let mut d = x.clone();
        let r = c.call(&what, || in_pool(p, || if inv { ifft_parallel(&mut d) } else { fft_parallel(&mut d) }));
        match r {
            Some(Ok(())) => {
                judge(c, &format!("{what} tuned"), "parallel vs reference", &toz(&d), &want, T::EPS, nref, B_FFT);
            }
            Some(Err(e)) => c.fail(format!("{what}: refused"), format!("n={n} {e:?}")),
            None => {}
        }
        // the serial engine under the same tuning
        let what = format!("engine {}<{}>", if inv { "ifft" } else { "fft" }, T::NAME);
        let mut d = x.clone();
        let r = c.call(&what, || {
            in_pool(p, || {
                let e = ScalarFftImpl::<T>::default();
                if inv { e.ifft(&mut d) } else { e.fft(&mut d) }
            })
        });
        match r {
            Some(Ok(())) => {
                judge(c, &format!("{what} tuned"), "engine under tuning", &toz(&d), &want, T::EPS, nref, B_FFT);
            }
            Some(Err(e)) => c.fail(format!("{what}: refused"), format!("n={n} {e:?}")),
            None => {}
        }
        c.sample(format!("{} n={n} {pat} pool={p} tuning={t}", T::NAME));
    }
}
/// Parallel STFT and inverse against the sequential forms on the same input.
#[cfg(feature = "parallel")]
fn stfts(c: &mut Case) {
    let w = if c.rng.chance(1, 2) { 1 << c.rng.range(1, if SLOW { 5 } else { 9 }) } else { c.rng.logsize(2, if SLOW { 20 } else { 300 }) };
    let hop = if c.rng.chance(1, 3) { w } else { c.rng.range(1, w + w / 2) };
    let frames = c.rng.range(0, if SLOW { 6 } else { 60 });
    let len = if frames == 0 { 0 } else { (frames - 1) * hop + c.rng.range(1, hop) };
    let (pat, mut s) = rsignal::<f32>(&mut c.rng, len);
    let m = s.iter().fold(0.0f32, |m, v| m.max(v.abs()));
    if m > 0.0 {
        s.iter_mut().for_each(|v| *v /= m);
    }
    let win = if c.rng.chance(1, 2) { window::hann(w) } else { (0..w).map(|_| c.rng.uni(0.2, 1.0) as f32).collect() };
    let e = ScalarFftImpl::<f32>::default();
    let extra = c.rng.below(3);
    let nf = len.div_ceil(hop) + extra;
    let mut a = vec![vec![]; nf];
    let mut b = vec![vec![Complex32::new(3.0, 3.0); c.rng.below(4)]; nf];
    let t = tune(&mut c.rng);
    let p = pools(&mut c.rng);
    c.sig(&format!("stft {w}:{hop}:{len}:{p}:{pat}"));
    let Some(Ok(())) = c.call("stft", || st::stft(&s, &win, hop, &mut a, &e)) else { return c.fail("stft: refused", format!("{w} {hop} {len}")) };
    let Some(Ok(())) = c.call("stft::parallel", || in_pool(p, || { let e = ScalarFftImpl::<f32>::default(); st::parallel(&s, &win, hop, &mut b, &e) })) else {
        return c.fail("stft::parallel: refused", format!("{w} {hop} {len}"));
    };
    for (f, (u, v)) in a.iter().zip(&b).enumerate() {
        let (u, v) = (toz(u), toz(v));
        let nref = norm(&u).max(1e-30);
        if !judge(c, "stft::parallel vs stft", "stft", &v, &u, EPS, nref, 2.0 * B_FFT) {
            return c.fail("stft::parallel differs from stft", format!("window {w} hop {hop} samples {len} frame {f} tuning {t}"));
        }
    }
    let ol = len + c.rng.below(2 * w);
    let mut o1 = vec![0.5f32; ol];
    let mut o2 = vec![f32::NAN; ol];
    let mut scr = vec![0.0f32; ol];
    let mut fa = a.clone();
    let Some(Ok(())) = c.call("istft", || st::istft(&mut fa, &win, hop, &mut o1, &mut scr, &e)) else { return c.fail("istft: refused", String::new()) };
    let Some(Ok(())) = c.call("inverse_parallel", || in_pool(p, || { let e = ScalarFftImpl::<f32>::default(); st::inverse_parallel(&a, &win, hop, &mut o2, &e) })) else {
        return c.fail("inverse_parallel: refused", String::new());
    };
    // where hardly any window power covers a sample, normalisation amplifies rounding errors
    let mut den = vec![0.0f64; ol];
    for f in 0..nf {
        for (i, v) in win.iter().enumerate() {
            if let Some(d) = den.get_mut(f * hop + i) {
                *d += (*v as f64) * (*v as f64);
            }
        }
    }
    let cover = (w / hop + 2) as f64;
    let bad = (0..ol).find(|&i| {
        if den[i] < 1e-4 {
            return !o2[i].is_finite();
        }
        !((o1[i] as f64 - o2[i] as f64).abs() <= 64.0 * EPS * cover * ((w as f64).log2() + 3.0) * (1.0 + 1.0 / den[i].min(1.0)))
    });
    c.check(bad.is_none(), "inverse_parallel differs from istft", || format!("window {w} hop {hop} samples {len} output {ol} at {bad:?} tuning {t}: {:?} vs {:?}", bad.map(|i| o1[i]), bad.map(|i| o2[i])));
}

/// One unit of concurrent work with its precomputed reference.
struct Job {
    kind: usize,
    x: Vec<Complex32>,
    x64: Vec<Complex<f64>>,
    fwd: Vec<Z>,
    inv: Vec<Z>,
}
const KINDS: usize = 9;
fn job(r: &mut Rng) -> Job {
    let n = if SLOW { r.logsize(2, 64) } else { plen(r, false).min(4096) };
    let n = if r.chance(1, 2) { n.next_power_of_two() } else { n.max(2) };
    let x: Vec<Complex32> = (0..n).map(|_| cx::<f32>(r.uni(-1.0, 1.0), r.uni(-1.0, 1.0))).collect();
    let xz = toz(&x);
    let x64 = xz.iter().map(|v| cx::<f64>(v.re, v.im)).collect();
    Job { kind: r.below(KINDS), fwd: fft_ref(&xz), inv: ifft_ref(&xz), x, x64 }
}
fn work(j: &Job) -> Result<(), String> {
    let n = j.x.len();
    let within = |got: Vec<Z>, want: &[Z], eps: f64, b: f64, what: &str| {
        let e = err_units(&got, want, eps, norm(want));
        if e <= b { Ok(()) } else { Err(format!("{what} n={n}: error {e:.3e} units")) }
    };
    let er = |what: &str, e: FftError| format!("{what} n={n}: {e:?}");
    let mut d = j.x.clone();
    match j.kind {
        0 => {
            fft_parallel(&mut d).map_err(|e| er("fft_parallel", e))?;
            within(toz(&d), &j.fwd, EPS, B_FFT, "fft_parallel")
        }
        1 => {
            ifft_parallel(&mut d).map_err(|e| er("ifft_parallel", e))?;
            within(toz(&d), &j.inv, EPS, B_FFT, "ifft_parallel")
        }
        2 => {
            ScalarFftImpl::<f32>::default().fft(&mut d).map_err(|e| er("fft", e))?;
            within(toz(&d), &j.fwd, EPS, B_FFT, "fft")
        }
        3 => {
            let mut d = j.x64.clone();
            ifft_parallel(&mut d).map_err(|e| er("ifft_parallel f64", e))?;
            within(toz(&d), &j.inv, f64::EPSILON, B_FFT, "ifft_parallel f64")
        }
        4 => {
            let (mut re, mut im): (Vec<f32>, Vec<f32>) = d.iter().map(|c| (c.re, c.im)).unzip();
            fft_split(&mut re, &mut im).map_err(|e| er("fft_split", e))?;
            within(re.iter().zip(&im).map(|(&a, &b)| z(a as f64, b as f64)).collect(), &j.fwd, EPS, B_FFT, "fft_split")
        }
        5 => {
            let e = new_fft_impl();
            e.fft(&mut d).map_err(|e| er("new_fft_impl", e))?;
            within(toz(&d), &j.fwd, EPS, B_FFT, "new_fft_impl")
        }
        6 => {
            let p = FftPlan::<f32>::new(n, FftStrategy::Auto);
            p.ifft(&mut d).map_err(|e| er("FftPlan::ifft", e))?;
            within(toz(&d), &j.inv, EPS, B_FFT, "FftPlan::ifft")
        }
        7 => {
            // real transform of the real parts: X[k] = (F[k] + conj F[n-k]) / 2
            let n2 = n & !1;
            if n2 < 2 || n2 != n {
                return Ok(());
            }
            let mut re: Vec<f32> = d.iter().map(|c| c.re).collect();
            let mut out = vec![Complex32::zero(); n / 2 + 1];
            ScalarFftImpl::<f32>::default().rfft(&mut re, &mut out).map_err(|e| er("rfft", e))?;
            let want: Vec<Z> = (0..=n / 2).map(|k| (j.fwd[k] + j.fwd[(n - k) % n].conj()).scale(0.5)).collect();
            within(toz(&out), &want, EPS, 2.0 * B_FFT, "rfft")
        }
        _ => {
            #[cfg(feature = "parallel")]
            {
                // frames of a parallel STFT of a unit-impulse train are pure phases of known size
                let w = n.min(256);
                let hop = w / 2 + 1;
                let s: Vec<f32> = d.iter().map(|c| c.re).collect();
                let win = vec![1.0f32; w];
                let nf = s.len().div_ceil(hop);
                let mut a = vec![vec![]; nf];
                let mut b = vec![vec![]; nf];
                let e = ScalarFftImpl::<f32>::default();
                st::parallel(&s, &win, hop, &mut a, &e).map_err(|e| er("stft::parallel", e))?;
                st::stft(&s, &win, hop, &mut b, &e).map_err(|e| er("stft", e))?;
                for (u, v) in a.iter().zip(&b) {
                    within(toz(u), &toz(v), EPS, 2.0 * B_FFT, "stft::parallel")?;
                }
                let mut o = vec![7.0f32; s.len()];
                st::inverse_parallel(&a, &win, hop, &mut o, &e).map_err(|e| er("inverse_parallel", e))?;
                let g: Vec<Z> = o.iter().map(|&v| z(v as f64, 0.0)).collect();
                let t: Vec<Z> = s.iter().map(|&v| z(v as f64, 0.0)).collect();
                return within(g, &t, EPS, 4.0 * B_FFT, "inverse_parallel");
            }
            #[allow(unreachable_code)]
            Ok(())
        }
    }
}
static INFLIGHT: AtomicUsize = AtomicUsize::new(0);
static MAXFLIGHT: AtomicUsize = AtomicUsize::new(0);
fn observed<R>(f: impl FnOnce() -> R) -> R {
    let k = INFLIGHT.fetch_add(1, Ordering::SeqCst) + 1;
    MAXFLIGHT.fetch_max(k, Ordering::SeqCst);
    let r = f();
    INFLIGHT.fetch_sub(1, Ordering::SeqCst);
    r
}
fn guarded(j: &Job) -> Result<(), String> {
    match guard(|| observed(|| work(j))) {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {m}")),
    }
}
/// Many caller threads, with tuning changed all the time and random delays.
fn stress(c: &mut Case) {
    let threads = c.rng.range(2, if SLOW { 4 } else { 12 });
    let per = if SLOW { 4 } else { 24 };
    let sets: Vec<Vec<Job>> = (0..threads).map(|_| (0..per).map(|_| job(&mut c.rng)).collect()).collect();
    let u = c.rng.u64();
    c.sig(&format!("stress {u}"));
    let bar = Arc::new(Barrier::new(threads + 1));
    let stop = Arc::new(AtomicBool::new(false));
    let errs = Arc::new(Mutex::new(Vec::<String>::new()));
    MAXFLIGHT.store(0, Ordering::SeqCst);
    let shared_pool = c.rng.chance(1, 3);
    let seed = c.rng.u64();
    std::thread::scope(|s| {
        {
            let (bar, stop) = (bar.clone(), stop.clone());
            s.spawn(move || {
                let mut r = Rng::new(seed);
                bar.wait();
                while !stop.load(Ordering::SeqCst) {
                    tune(&mut r);
                    if r.chance(1, 3) {
                        std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64));
                    } else {
                        std::thread::yield_now();
                    }
                }
            });
        }
        let hs: Vec<_> = sets
            .iter()
            .enumerate()
            .map(|(k, jobs)| {
                let (bar, errs) = (bar.clone(), errs.clone());
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ (k as u64 + 1));
                    bar.wait();
                    for j in jobs {
                        for _ in 0..r.below(200) {
                            std::hint::spin_loop();
                        }
                        let res = if shared_pool { in_pool(2, || guarded(j)) } else { guarded(j) };
                        if let Err(e) = res {
                            errs.lock().unwrap_or_else(|e| e.into_inner()).push(e);
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        stop.store(true, Ordering::SeqCst);
    });
    c.evals += (threads * per) as u64;
    c.cover(format!("max concurrent callers:{}", MAXFLIGHT.load(Ordering::SeqCst)));
    let errs = errs.lock().unwrap();
    for e in errs.iter().take(3) {
        c.fail(format!("concurrent use: {}", e.split(" n=").next().unwrap_or("")), format!("{threads} threads: {e}"));
    }
}
/// Parallel transforms called from inside parallel tasks of the same pool.
#[cfg(feature = "parallel")]
fn nested(c: &mut Case) {
    use rayon::prelude::*;
    let k = c.rng.range(2, if SLOW { 4 } else { 24 });
    let jobs: Vec<Job> = (0..k).map(|_| job(&mut c.rng)).collect();
    let p = pools(&mut c.rng);
    let t = tune(&mut c.rng);
    c.sig(&format!("nested {k} {p} {t}"));
    let errs: Vec<String> = in_pool(p, || jobs.par_iter().filter_map(|j| guarded(j).err()).collect());
    c.evals += k as u64;
    for e in errs.iter().take(3) {
        c.fail(format!("nested parallel use: {}", e.split(" n=").next().unwrap_or("")), format!("pool {p} tuning {t}: {e}"));
    }
}
/// Engines, plans and tables handed from thread to thread keep working.
fn handover(c: &mut Case) {
    let jobs: Vec<Job> = (0..3).map(|_| job(&mut c.rng)).collect();
    let u = c.rng.u64();
    c.sig(&format!("handover {u}"));
    let mut e = ScalarFftImpl::<f32>::default();
    let mut p = RfftPlanner::<f32>::new();
    for j in &jobs {
        let n = j.x.len();
        let what = "engine moved between threads";
        let r = std::thread::scope(|s| {
            s.spawn(move || {
                let mut d = j.x.clone();
                let r = guard(|| {
                    let r = e.fft(&mut d);
                    let mut re: Vec<f32> = (0..8).map(|i| i as f32).collect();
                    let mut o = [Complex32::zero(); 5];
                    let _ = p.rfft(&e, &mut re, &mut o);
                    (r, o[0].re)
                });
                (e, p, d, r)
            })
            .join()
        });
        let Ok((e2, p2, d, r)) = r else { return c.fail(format!("{what}: panic"), String::new()) };
        e = e2;
        p = p2;
        match r {
            Ok((Ok(()), dc)) => {
                judge(c, what, "moved engine", &toz(&d), &j.fwd, EPS, norm(&j.fwd), B_FFT);
                c.check((dc - 28.0).abs() < 1e-3, "planner moved between threads: wrong values", || format!("{dc}"));
            }
            Ok((Err(er), _)) => c.fail(format!("{what}: refused"), format!("n={n} {er:?}")),
            Err(m) => c.fail(format!("{what}: panic"), m),
        }
    }
}
/// A fresh process: its very first calls come from many threads at once (lazy initialisation),
/// under arbitrary environment settings.
fn child(c: &mut Case, env: bool) {
    let mut cmd = std::process::Command::new(std::env::current_exe().expect("own path"));
    let seed = c.rng.u64();
    cmd.args(["--property", "P23", "--filter", "child-first", "--rounds", "1", "--cpu-limit", "60", "--seed", &seed.to_string()]);
    let mut set = String::new();
    for v in ["THRESHOLD", "CACHE_BYTES", "PER_CORE_WORK", "BLOCK_SIZE", "THREADS"] {
        let name = format!("KOFFT_PAR_FFT_{v}");
        cmd.env_remove(&name);
        if env && c.rng.chance(3, 4) {
            let val = *c.rng.pick(&["0", "1", "2", "3", "64", "1000", "18446744073709551615", "18446744073709551616", "-1", "", "abc", " 8", "9223372036854775807", "4"]);
            set += &format!("{name}={val:?} ");
            cmd.env(&name, val);
        }
    }
    if c.rng.chance(1, 2) {
        let t = *c.rng.pick(&["1", "2", "3", "16"]);
        cmd.env("RAYON_NUM_THREADS", t);
        set += &format!("RAYON_NUM_THREADS={t}");
    }
    c.sig(&format!("child {set} {seed}"));
    let out = match cmd.stdin(std::process::Stdio::null()).output() {
        Ok(o) => o,
        Err(_) => return c.cover("child could not be started"),
    };
    c.ev();
    c.sample(format!("fresh process with {set}"));
    match out.status.code() {
        Some(0) => c.cover(if env { "fresh process with environment settings" } else { "fresh process" }),
        Some(1) => {
            let s = String::from_utf8_lossy(&out.stdout).to_string();
            let at = s.find("\"violations\":").unwrap_or(0);
            c.fail("fresh process: first concurrent calls fail", format!("{set}: {}", s[at..].chars().take(300).collect::<String>()));
        }
        Some(86) => c.fail("fresh process: hang", format!("{set}: {}", String::from_utf8_lossy(&out.stderr).chars().take(200).collect::<String>())),
        _ => {
            use std::os::unix::process::ExitStatusExt;
            match out.status.signal() {
                Some(9) => c.cover("child killed from outside"),
                Some(s) => c.fail("fresh process: crash", format!("{set}: signal {s}")),
                None => c.fail("fresh process: abnormal end", format!("{set}: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr).chars().take(200).collect::<String>())),
            }
        }
    }
}
fn child_first(c: &mut Case) {
    let t = c.rng.range(2, 12);
    let jobs: Vec<Job> = (0..t).map(|k| { let mut j = job(&mut c.rng); if k % 2 == 0 { j.kind = k / 2 % 2; } j }).collect();
    let bar = Barrier::new(t);
    let errs = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for j in &jobs {
            let (bar, errs) = (&bar, &errs);
            s.spawn(move || {
                bar.wait();
                if let Err(e) = guarded(j) {
                    errs.lock().unwrap().push(e);
                }
            });
        }
    });
    c.evals += t as u64;
    for e in errs.lock().unwrap().iter() {
        c.fail("first concurrent calls", e.clone());
    }
}
pub fn p23(x: &mut Ctx) {
    let k = |n: u64| if SLOW { (n / 12).max(1) } else { n };
    x.run("child-first", 1, child_first);
    x.run("tuned32", k(240), tuned::<f32>);
    x.run("tuned64", k(80), tuned::<f64>);
    #[cfg(feature = "parallel")]
    x.run("stft", k(240), stfts);
    x.run("stress", k(120), stress);
    #[cfg(feature = "parallel")]
    x.run("nested", k(120), nested);
    x.run("handover", k(80), handover);
    if !SLOW {
        x.run("fresh", 60, |c| child(c, false));
        x.run("env", 140, |c| child(c, true));
    }
}
