//! Case framework: deterministic per-case randomness, panic monitor, journal, watchdog,
//! allocator monitor and result accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator monitor
pub struct Monitor;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 3 << 30;
thread_local! { static THREAD_ALLOCS: Cell<u64> = const { Cell::new(0) }; }

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        if live > CAP {
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(live, Ordering::Relaxed);
        let _ = THREAD_ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
/// Heap allocations made by the current thread so far.
pub fn thread_allocs() -> u64 {
    THREAD_ALLOCS.with(|c| c.get())
}
pub fn peak_bytes() -> usize {
    PEAK.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng(u64);
fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// Uniform in [a, b).
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
    /// Size with a log-uniform distribution in a..=b.
    pub fn logsize(&mut self, a: usize, b: usize) -> usize {
        let v = self.uni((a as f64).ln(), (b as f64 + 1.0).ln()).exp() as usize;
        v.clamp(a, b)
    }
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub idx: u64,
    pub sig: String,
    pub detail: String,
}
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub cases: u64,
    pub sigs: HashSet<u64>,
    pub cover: BTreeMap<String, u64>,
    pub worst: BTreeMap<String, (f64, String)>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub nviol: u64,
}
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub shard: (u64, u64),
    pub deadline: Instant,
    pub round: u64,
    pub scale: u64,
    pub out: Option<String>,
    pub stats: Stats,
    pub cut: bool,
    pub ran: u64,
    pub filter: Vec<String>,
}
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static RUNNING: AtomicBool = AtomicBool::new(false);
static CASE_NAME: Mutex<String> = Mutex::new(String::new());
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub struct Case {
    pub rng: Rng,
    pub kind: String,
    pub idx: u64,
    pub tier: Tier,
    pub evals: u64,
    pub sigs: Vec<u64>,
    pub cover: Vec<String>,
    pub worst: Vec<(String, f64, String)>,
    pub viol: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub quiet: bool,
}
impl Case {
    pub fn ev(&mut self) {
        self.evals += 1;
    }
    /// Record a distinct observed situation.
    pub fn sig(&mut self, s: &str) {
        self.sigs.push(hash_str(s));
        if !self.quiet && self.samples.is_empty() {
            self.sample(s);
        }
    }
    pub fn cover(&mut self, s: impl Into<String>) {
        self.cover.push(s.into());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 2 {
            self.samples.push(s.into());
        }
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.viol.len() < 20 {
            self.viol.push((sig.into(), detail.into()));
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// Track the worst observed value of a measured ratio (1.0 = at the bound).
    pub fn ratio(&mut self, label: &str, r: f64, what: impl FnOnce() -> String) {
        match self.worst.iter_mut().find(|w| w.0 == label) {
            Some(w) if w.1 >= r => {}
            Some(w) => {
                w.1 = r;
                w.2 = what();
            }
            None => self.worst.push((label.into(), r, what())),
        }
    }
    /// Run code under the panic monitor; a panic is returned as `Err(message)`.
    pub fn guard<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        guard(f)
    }
    /// Run code that must not panic; a panic is recorded as a violation.
    pub fn call<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        self.evals += 1;
        match guard(f) {
            Ok(r) => Some(r),
            Err(m) => {
                self.fail(format!("panic in {what}"), m);
                None
            }
        }
    }
    pub fn full(&self) -> bool {
        self.tier == Tier::Thorough
    }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let loc = LAST_PANIC.with(|p| p.borrow().clone());
            Err(format!("{m} at {loc}"))
        }
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            prop: String::new(),
            tier: Tier::Quick,
            seed: 1,
            only: None,
            shard: (0, 1),
            deadline: Instant::now() + Duration::from_secs(3600),
            round: 0,
            scale: 1,
            out: None,
            stats: Stats::default(),
            cut: false,
            ran: 0,
            filter: vec![],
        }
    }
    /// Run `count` cases of one kind (each round of the thorough tier continues the numbering).
    pub fn run(&mut self, kind: &str, count: u64, mut f: impl FnMut(&mut Case)) {
        if !self.filter.is_empty() && !self.filter.iter().any(|k| kind.starts_with(k.as_str())) {
            return;
        }
        let count = (count / self.scale).max(1);
        let base = self.round * count;
        for i in 0..count {
            let idx = base + i;
            if let Some((k, n)) = &self.only {
                if k != kind || (*n % count) != i {
                    continue;
                }
                let n = *n;
                self.one(kind, n, &mut f);
                continue;
            }
            // Spread kinds over the shards, too.
            if (idx.wrapping_add(hash_str(kind))) % self.shard.1 != self.shard.0 {
                continue;
            }
            if Instant::now() > self.deadline {
                self.cut = true;
                return;
            }
            self.one(kind, idx, &mut f);
        }
    }
    fn one(&mut self, kind: &str, idx: u64, f: &mut impl FnMut(&mut Case)) {
        let seed = mix(self.seed ^ hash_str(&self.prop).rotate_left(17))
            ^ mix(hash_str(kind).wrapping_add(idx.wrapping_mul(0x9E3779B97F4A7C15)));
        let mut c = Case {
            rng: Rng::new(seed),
            kind: kind.into(),
            idx,
            tier: self.tier,
            evals: 0,
            sigs: vec![],
            cover: vec![],
            worst: vec![],
            viol: vec![],
            samples: vec![],
            quiet: self.stats.samples.len() > 6,
        };
        // Where the code can run in parallel, a third of the cases run with thresholds that make it
        // do so at the sizes used here (P23 and P24 choose their own).
        #[cfg(feature = "parallel")]
        if !cfg!(miri) && !matches!(self.prop.as_str(), "P23" | "P24") {
            let h = mix(seed ^ 0x7061_7261);
            let v = if h % 3 == 0 { [1, 64, 1000, 1024, 4096, 20000][(h >> 8) as usize % 6] } else { 0 };
            kofft::fft::set_parallel_fft_threshold(v);
        }
        self.journal(kind, idx);
        *CASE_NAME.lock().unwrap() = format!("{kind}:{idx}");
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        RUNNING.store(true, Ordering::SeqCst);
        let r = guard(|| f(&mut c));
        RUNNING.store(false, Ordering::SeqCst);
        if let Err(m) = r {
            c.fail("panic", m);
        }
        self.ran += 1;
        let s = &mut self.stats;
        s.cases += 1;
        s.evals += c.evals;
        s.sigs.extend(c.sigs.iter().copied());
        if c.sigs.is_empty() {
            s.sigs.insert(hash_str(kind) ^ mix(idx));
        }
        for k in c.cover {
            *s.cover.entry(k).or_insert(0) += 1;
        }
        *s.cover.entry(format!("cases:{kind}")).or_insert(0) += 1;
        for (l, r, w) in c.worst {
            let e = s.worst.entry(l).or_insert((f64::NEG_INFINITY, String::new()));
            if r > e.0 {
                *e = (r, w);
            }
        }
        for x in c.samples {
            if s.samples.len() < 12 && s.samples.iter().filter(|y| y.starts_with(&format!("{kind}:"))).count() < 2 {
                s.samples.push(format!("{kind}:{idx} {x}"));
            }
        }
        for (sig, detail) in c.viol {
            s.nviol += 1;
            if s.violations.len() < 40 {
                s.violations.push(Violation { kind: kind.into(), idx, sig, detail });
            }
        }
    }
    fn journal(&self, kind: &str, idx: u64) {
        if let Some(o) = &self.out {
            use std::os::unix::fs::FileExt;
            thread_local! { static J: RefCell<Option<std::fs::File>> = const { RefCell::new(None) }; }
            J.with(|j| {
                let mut j = j.borrow_mut();
                if j.is_none() {
                    *j = std::fs::File::create(format!("{o}.journal")).ok();
                }
                if let Some(f) = j.as_ref() {
                    let s = format!("{:<60}\n", format!("{kind}:{idx}"));
                    let _ = f.write_all_at(s.as_bytes(), 0);
                }
            });
        }
    }
    pub fn json(&self, extra: &str) -> String {
        let s = &self.stats;
        let mut o = String::from("{");
        o += &format!(
            "\"evaluations\":{},\"cases\":{},\"distinct\":{},\"cut\":{},\"rounds\":{},\"peak_bytes\":{},\"nviol\":{}{}",
            s.evals,
            s.cases,
            s.sigs.len(),
            self.cut,
            self.round + 1,
            peak_bytes(),
            s.nviol,
            extra
        );
        o += ",\"sigs\":[";
        o += &s.sigs.iter().take(200_000).map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        o += "],\"cover\":{";
        o += &s.cover.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"worst\":{";
        o += &s
            .worst
            .iter()
            .map(|(k, (v, w))| format!("{}:[{},{}]", q(k), if v.is_finite() { *v } else { 1e300 }, q(w)))
            .collect::<Vec<_>>()
            .join(",");
        o += "},\"samples\":[";
        o += &s.samples.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
        o += "],\"violations\":[";
        o += &s
            .violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"idx\":{},\"sig\":{},\"detail\":{}}}",
                    q(&v.kind),
                    v.idx,
                    q(&v.sig),
                    q(&v.detail)
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        o += "]}";
        o
    }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars().take(600) {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

// ---------------------------------------------------------------- watchdog
fn clock(id: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
/// Ends the process (exit code 86) when one case burns more CPU time than `cpu_s`, or makes
/// no CPU progress at all for `stall_s` of wall-clock time (a deadlock).
pub fn start_watchdog(cpu_s: f64, stall_s: f64, out: Option<String>) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        let mut no = u64::MAX;
        let mut cpu0 = 0.0;
        let mut last_cpu = 0.0;
        let mut idle = 0.0f64;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CASE_NO.load(Ordering::SeqCst);
            let cpu = clock(libc::CLOCK_PROCESS_CPUTIME_ID);
            if cur != no || !RUNNING.load(Ordering::SeqCst) {
                no = cur;
                cpu0 = cpu;
                last_cpu = cpu;
                idle = 0.0;
                continue;
            }
            // Count the watchdog's own wake-ups, not the wall clock: a paused machine is no stall.
            idle += 0.5;
            if cpu - last_cpu > 0.5 {
                last_cpu = cpu;
                idle = 0.0;
            }
            let why = if cpu - cpu0 > cpu_s {
                format!("still running after {:.0} s of CPU time", cpu - cpu0)
            } else if idle > stall_s {
                format!("no CPU progress for {idle:.0} s (deadlock)")
            } else {
                continue;
            };
            let name = CASE_NAME.lock().map(|s| s.clone()).unwrap_or_default();
            if let Some(o) = &out {
                let _ = std::fs::File::create(format!("{o}.hang")).and_then(|mut f| writeln!(f, "{name} {why}"));
            }
            eprintln!("HANG {name}: {why}");
            unsafe { libc::_exit(86) };
        }
    });
}
pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if verbose {
            eprintln!("[panic observed] {i}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = l);
    }));
}
/// Command line, watchdog and result file of a monitor binary.
pub fn drive(props: Vec<(&'static str, fn(&mut Ctx))>) {
    let mut x = Ctx::new();
    let mut budget = 60.0f64;
    let mut verbose = false;
    let mut max_rounds = 0u64;
    let mut cpu_limit = 60.0f64;
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut val = || a.next().unwrap_or_else(|| panic!("value for {k}"));
        match k.as_str() {
            "--property" => x.prop = val(),
            "--tier" => x.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => x.seed = val().parse().expect("seed"),
            "--only" => {
                let v = val();
                let (k, n) = v.rsplit_once(':').expect("kind:index");
                x.only = Some((k.into(), n.parse().expect("index")));
            }
            "--shard" => {
                let v = val();
                let (i, n) = v.split_once('/').expect("i/n");
                x.shard = (i.parse().unwrap(), n.parse().unwrap());
            }
            "--budget" => budget = val().parse().expect("budget"),
            "--scale" => x.scale = val().parse().expect("scale"),
            "--rounds" => max_rounds = val().parse().expect("rounds"),
            "--cpu-limit" => cpu_limit = val().parse().expect("cpu-limit"),
            "--filter" => x.filter = val().split(',').map(String::from).collect(),
            "--out" => x.out = Some(val()),
            "--verbose" => verbose = true,
            _ => panic!("unknown argument {k}"),
        }
    }
    let f = props.into_iter().find(|p| p.0 == x.prop).unwrap_or_else(|| panic!("unknown property {}", x.prop)).1;
    install_panic_hook(verbose);
    start_watchdog(cpu_limit, 40.0, x.out.clone());
    let t0 = Instant::now();
    x.deadline = t0 + Duration::from_secs_f64(budget);
    if max_rounds == 0 {
        max_rounds = if x.tier == Tier::Quick { 1 } else { u64::MAX };
    }
    if x.only.is_some() {
        // replay: the index determines the round
        x.deadline = t0 + Duration::from_secs(3600);
        f(&mut x);
    } else {
        loop {
            f(&mut x);
            if x.cut || x.round + 1 >= max_rounds || Instant::now() > x.deadline {
                break;
            }
            x.round += 1;
        }
    }
    let j = x.json(&format!(",\"wall_s\":{:.2},\"ran\":{}", t0.elapsed().as_secs_f64(), x.ran));
    match &x.out {
        Some(o) => {
            std::fs::write(format!("{o}.tmp"), &j).expect("write result");
            std::fs::rename(format!("{o}.tmp"), o).expect("rename result");
        }
        None => println!("{j}"),
    }
    std::process::exit(if x.stats.nviol > 0 { 1 } else { 0 });
}
