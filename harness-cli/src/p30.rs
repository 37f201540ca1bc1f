//! P30: the build helper's configuration and commands.
use crate::fw::*;
use crate::{scratch, tool};
use std::collections::BTreeSet;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use xtask::*;

/// When started under the name of a program xtask calls, record the call and stop.
pub fn stand_in() {
    let me = std::env::args().next().unwrap_or_default();
    let name = me.rsplit('/').next().unwrap_or("").to_string();
    match name.as_str() {
        "lscpu" => {
            print!("{}", std::env::var("KV_LSCPU").unwrap_or_default());
            std::process::exit(0);
        }
        "uname" => {
            println!("{}", std::env::var("KV_UNAME").unwrap_or_default());
            std::process::exit(0);
        }
        "sysctl" => std::process::exit(1),
        "cargo" | "sh" => {
            let mut line = vec![name, std::env::var("RUSTFLAGS").unwrap_or_else(|_| "<none>".into())];
            line.extend(std::env::args().skip(1));
            let log = std::env::var("KV_LOG").expect("log path");
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(log).expect("log");
            writeln!(f, "{}", line.join("\u{1f}")).expect("log");
            std::process::exit(std::env::var("KV_RC").ok().and_then(|v| v.parse().ok()).unwrap_or(0));
        }
        _ => {}
    }
}
/// The feature names a manifest defines (its [features] table and optional dependencies).
fn features(manifest: &str) -> BTreeSet<String> {
    let t = std::fs::read_to_string(manifest).unwrap_or_default();
    let mut sec = String::new();
    let mut out = BTreeSet::new();
    for l in t.lines() {
        let l = l.trim();
        if l.starts_with('[') {
            sec = l.trim_matches(|c| c == '[' || c == ']').to_string();
        } else if let Some((k, v)) = l.split_once('=') {
            let k = k.trim().trim_matches('"').to_string();
            if sec == "features" {
                out.insert(k);
            } else if sec == "dependencies" && v.contains("optional = true") {
                out.insert(k);
            } else if sec.starts_with("dependencies.") && k == "optional" && v.contains("true") {
                out.insert(sec["dependencies.".len()..].to_string());
            }
        }
    }
    out
}
const FLAGS: [&str; 24] = ["fpu", "vme", "sse", "sse2", "ssse3", "fma", "sse4_1", "sse4_2", "avx", "avx2", "avx512f", "avx512dq", "avx512bw", "avx512vl", "avx512cd", "bmi1", "bmi2", "f16c", "aes", "neon", "asimd", "sha_ni", "rdtscp", "avx_vnni"];
const ARCHS: [&str; 10] = ["x86_64", "aarch64", "arm64", "i686", "riscv64", "armv7l", "ppc64le", "s390x", "wasm32", ""];
const EXTRAS: [&str; 8] = ["simd", "soa", "precomputed-twiddles", "compile-time-rfft", "slow", "parallel", "wasm", "feature-of-the-user"];
/// A feature the user asks for: one of the crate's, or any name, also one that is part of another.
fn extra_feature(c: &mut Case) -> String {
    let f = c.rng.pick(&EXTRAS).to_string();
    match c.rng.below(8) {
        0 | 1 => {
            let base = c.rng.pick(&["x86_64", "avx512", "avx2", "sse", "parallel", "aarch64", "simd", "soa"]).to_string();
            let cut = c.rng.range(1, base.len());
            if c.rng.chance(1, 2) { base[..cut].to_string() } else { base[base.len() - cut..].to_string() }
        }
        2 => format!("{f}{}", c.rng.pick(&["-extra", "2", "_x", "/std"])),
        3 => format!("{}{f}", c.rng.pick(&["no-", "x", "dep/", "kofft/"])),
        4 => c.rng.pick(&["sse", "avx2", "avx512", "x86_64", "aarch64"]).to_string(),
        5 if c.rng.chance(1, 4) => "UPPER-Case.1+2".into(),
        _ => f,
    }
}
struct Req {
    arch: String,
    flags: BTreeSet<&'static str>,
    cpu: String,
    n: usize,
    extra: Vec<String>,
    extra_text: String,
}
fn request(c: &mut Case) -> Req {
    let arch = if c.rng.chance(3, 5) { "x86_64" } else { *c.rng.pick(&ARCHS) }.to_string();
    let mut flags = BTreeSet::new();
    for f in FLAGS {
        if c.rng.chance(1, 2) {
            flags.insert(f);
        }
    }
    match c.rng.below(5) {
        0 => flags.retain(|f| !f.starts_with("avx")),
        1 => flags.retain(|f| !f.starts_with("avx512")),
        2 => flags.clear(),
        _ => {}
    }
    if !flags.contains("avx512f") {
        // the other AVX-512 extensions never come without the foundation
        flags.retain(|f| !f.starts_with("avx512"));
    }
    if flags.contains("avx2") || flags.contains("avx512f") {
        flags.insert("fma");
    }
    let mut l: Vec<&str> = flags.iter().copied().collect();
    for i in (1..l.len()).rev() {
        let j = c.rng.below(i + 1);
        l.swap(i, j);
    }
    let cpu = match c.rng.below(3) {
        0 => format!("Flags:                           {}", l.join(" ")),
        1 => format!("flags: {}", l.join(" ")),
        _ => l.join(" "),
    };
    let k = c.rng.below(5);
    let extra: Vec<String> = (0..k).map(|_| extra_feature(c)).collect();
    let sep = *c.rng.pick(&[" ", "  ", "\t", " \n"]);
    let extra_text = format!("{}{}{}", if c.rng.chance(1, 4) { " " } else { "" }, extra.join(sep), if c.rng.chance(1, 4) { " " } else { "" });
    let n = *c.rng.pick(&[0, 1, 1, 2, 3, 4, 8, 64, 256]);
    Req { arch, flags, cpu, n, extra, extra_text }
}
/// The feature rules of the property, on a list of enabled features.
fn judge(c: &mut Case, what: &str, got: &[String], rf: Option<&str>, r: &Req) {
    let known = features("/repo/Cargo.toml");
    let set: BTreeSet<&str> = got.iter().map(|s| s.as_str()).collect();
    let asked: BTreeSet<&str> = r.extra.iter().map(|s| s.as_str()).collect();
    let d = || format!("{what}: arch {:?} cpu {:?} cores {} extra {:?}: {got:?} {rf:?}", r.arch, r.cpu, r.n, r.extra_text);
    c.check(known.len() >= 8, "the crate's manifest lists no features", d);
    for f in &set {
        c.check(known.contains(*f) || asked.contains(f), "a feature the crate does not define", d);
    }
    for f in &asked {
        c.check(set.contains(f), "a feature the user asked for is not passed on", d);
    }
    let auto = |f: &str| set.contains(f) && !asked.contains(f);
    let x86 = r.arch == "x86_64";
    let (a5, a2, s4) = (x86 && r.flags.contains("avx512f"), x86 && r.flags.contains("avx2"), x86 && r.flags.contains("sse4_1"));
    let want: Option<&str> = if a5 { Some("avx512") } else if a2 { Some("avx2") } else if s4 { Some("sse") } else { None };
    for f in ["avx512", "avx2", "sse"] {
        if Some(f) == want {
            c.check(set.contains(f), "the widest available SIMD path is not enabled", d);
        } else {
            c.check(!auto(f), "a SIMD path that is not the widest available one is enabled", d);
        }
    }
    c.check(!auto("x86_64") || x86, "the x86_64 backend on another architecture", d);
    c.check(!auto("aarch64") || r.arch.contains("aarch64") || r.arch.contains("arm64"), "the aarch64 backend on another architecture", d);
    c.check(!auto("wasm"), "the WebAssembly backend without being asked for", d);
    c.check(!auto("parallel") || r.n > 1, "threading on a single core", d);
    c.check(r.n <= 1 || set.contains("parallel"), "no threading on several cores", d);
    let rf = rf.unwrap_or("");
    c.check(!rf.contains("avx512") || a5, "compiler flags use AVX-512 without the CPU flag", d);
    c.check(!rf.contains("avx2") || a2, "compiler flags use AVX2 without the CPU flag", d);
    c.check(!rf.contains("avx") || a2 || a5 || r.flags.contains("avx"), "compiler flags use AVX without the CPU flag", d);
    c.check(!rf.contains("fma") || (x86 && r.flags.contains("fma")), "compiler flags use FMA without the CPU flag", d);
}
fn split(f: &str) -> Vec<String> {
    f.split(|c: char| c.is_whitespace() || c == ',').filter(|s| !s.is_empty()).map(String::from).collect()
}
/// A command line: what it starts, its `--features`, the words around them.
fn parse(args: &[String]) -> (Vec<String>, Option<Vec<String>>, Vec<String>) {
    let mut words = vec![];
    let mut feats: Option<Vec<String>> = None;
    let mut after = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        if a == "--" {
            after = args[i + 1..].to_vec();
            break;
        } else if a == "--features" || a == "-F" {
            feats.get_or_insert_with(Vec::new).extend(split(args.get(i + 1).map(|s| s.as_str()).unwrap_or("")));
            i += 1;
        } else if let Some(f) = a.strip_prefix("--features=") {
            feats.get_or_insert_with(Vec::new).extend(split(f));
        } else {
            words.push(a.clone());
        }
        i += 1;
    }
    (words, feats, after)
}
fn sorted(v: &[String]) -> Vec<String> {
    let s: BTreeSet<String> = v.iter().cloned().collect();
    s.into_iter().collect()
}
fn has(words: &[String], seq: &[&str]) -> bool {
    words.windows(seq.len()).any(|w| w.iter().zip(seq).all(|(a, b)| a == b))
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Build,
    Test,
    Clippy,
    Fmt,
    Bench,
    BenchLibs,
    Readme,
    Sanity,
}
const KINDS: [Kind; 8] = [Kind::Build, Kind::Test, Kind::Clippy, Kind::Fmt, Kind::Bench, Kind::BenchLibs, Kind::Readme, Kind::Sanity];
/// The contract of one generated command.
fn command(c: &mut Case, what: &str, k: Kind, prog: &str, rf: Option<&str>, args: &[String], feats: &[String], flags: Option<&str>, example: &str, io: (&str, &str)) {
    let (w, f, after) = parse(args);
    let d = || format!("{what} {k:?}: {prog} {args:?} RUSTFLAGS {rf:?}; configured {feats:?} {flags:?} {example}");
    c.check(prog == "cargo", "a command does not start cargo", d);
    let passes = !matches!(k, Kind::Clippy | Kind::Fmt | Kind::Sanity);
    if passes {
        c.check(sorted(&f.clone().unwrap_or_default()) == sorted(feats), "a command does not carry the configured features", d);
        c.check(f.is_some() || feats.is_empty(), "a command does not carry the configured features", d);
    }
    let ok = match k {
        Kind::Build => w.first().is_some_and(|v| v == "build"),
        Kind::Test => w.first().is_some_and(|v| v == "test"),
        Kind::Clippy => w.first().is_some_and(|v| v == "clippy") && w.contains(&"--all-targets".to_string()) && w.contains(&"--all-features".to_string()),
        Kind::Fmt => w.first().is_some_and(|v| v == "fmt") && w.contains(&"--all".to_string()),
        Kind::Bench => w.first().is_some_and(|v| v == "run") && has(&w, &["--example", example]) && (w.contains(&"--release".to_string()) || w.contains(&"-r".to_string())),
        Kind::BenchLibs => w.first().is_some_and(|v| v == "bench") && has(&w, &["--manifest-path", "kofft-bench/Cargo.toml"]),
        Kind::Readme => w.first().is_some_and(|v| v == "run") && has(&w, &["--manifest-path", "kofft-bench/Cargo.toml"]) && has(&w, &["--example", "update_bench_readme"]),
        Kind::Sanity => w.first().is_some_and(|v| v == "run") && has(&w, &["-p", "sanity-check"]) && after == [io.0, io.1],
    };
    c.check(ok, "a command has the wrong arguments", d);
    match k {
        Kind::Bench | Kind::BenchLibs | Kind::Readme => {
            c.check(rf == flags, "a benchmark command does not carry the configured compiler flags", d);
        }
        _ => {
            c.check(rf.is_none() || rf == flags, "a command carries other compiler flags", d);
        }
    }
}
fn render(cmd: &Command) -> (String, Option<String>, Vec<String>) {
    let s = |o: &std::ffi::OsStr| o.to_string_lossy().to_string();
    let rf = cmd.get_envs().find(|e| e.0 == "RUSTFLAGS").and_then(|e| e.1.map(s));
    (s(cmd.get_program()), rf, cmd.get_args().map(s).collect())
}
fn config(c: &mut Case) {
    let r = request(c);
    one(c, &r);
}
fn one(c: &mut Case, r: &Req) {
    let Some(g) = c.call("compute_config", || compute_config(&r.arch, &r.cpu, r.n, &r.extra_text)) else { return };
    c.sig(&format!("{} {:?} {} {:?}", r.arch, r.flags, r.n.min(3), r.extra));
    c.cover(format!("arch {:?}", r.arch));
    for f in &g.features {
        c.cover(format!("feature {f}"));
    }
    judge(c, "compute_config", &g.features, g.rustflags.as_deref(), r);
    let ex = &g.example;
    let defined = std::path::Path::new(&format!("/repo/examples/{ex}.rs")).exists() || std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default().contains(&format!("name = \"{ex}\""));
    c.check(defined, "the configured example does not exist", || ex.clone());
    let arg = g.features_arg();
    c.check(arg.is_none() == g.features.is_empty() && sorted(&split(arg.as_deref().unwrap_or(""))) == sorted(&g.features), "features_arg does not name the features", || format!("{arg:?} {:?}", g.features));
    // every command; a configuration need not come from compute_config
    let cfg = if c.rng.chance(1, 4) { BuildConfig { features: (0..c.rng.below(3)).map(|i| format!("f{i}")).collect(), rustflags: c.rng.chance(1, 2).then(|| "-C opt-level=1".into()), example: "other".into() } } else { g };
    let io = ("in put.flac", "out.png");
    for k in KINDS {
        let Some(cmd) = c.call("command", || match k {
            Kind::Build => build_command(&cfg),
            Kind::Test => test_command(&cfg),
            Kind::Clippy => clippy_command(),
            Kind::Fmt => fmt_command(),
            Kind::Bench => benchmark_command(&cfg),
            Kind::BenchLibs => bench_libs_command(&cfg),
            Kind::Readme => update_bench_readme_command(&cfg),
            Kind::Sanity => sanity_command(io.0, io.1),
        }) else {
            return;
        };
        let (p, rf, a) = render(&cmd);
        command(c, "library", k, &p, rf.as_deref(), &a, &cfg.features, cfg.rustflags.as_deref(), &cfg.example, io);
    }
}
/// All combinations of the flags that decide, for every architecture and a few core counts.
fn grid(c: &mut Case) {
    let i = c.idx as usize;
    let arch = ARCHS[i % ARCHS.len()].to_string();
    let bits = i / ARCHS.len() % 32;
    let n = [0, 1, 2, 7][i / ARCHS.len() / 32 % 4];
    let all = ["sse4_1", "avx", "avx2", "avx512f", "sse2"];
    let mut flags: BTreeSet<&'static str> = all.iter().enumerate().filter(|(k, _)| bits >> k & 1 == 1).map(|(_, f)| *f).collect();
    if flags.contains("avx2") || flags.contains("avx512f") {
        flags.insert("fma");
    }
    let cpu = flags.iter().copied().collect::<Vec<_>>().join(" ");
    one(c, &Req { arch, flags, cpu, n, extra: vec![], extra_text: String::new() });
}
/// The program itself, with stand-ins for the commands it starts.
fn program(c: &mut Case) {
    let mut r = request(c);
    if r.arch.is_empty() {
        r.arch = "x86_64".into();
    }
    let d = scratch();
    let bin = d.join("bin");
    if !bin.exists() {
        std::fs::create_dir_all(&bin).expect("scratch");
        for n in ["cargo", "lscpu", "uname", "sysctl", "sh"] {
            std::os::unix::fs::symlink(std::env::current_exe().expect("own path"), bin.join(n)).expect("link");
        }
    }
    let (sub, k) = *c.rng.pick(&[
        ("build", Some(Kind::Build)),
        ("test", Some(Kind::Test)),
        ("clippy", Some(Kind::Clippy)),
        ("fmt", Some(Kind::Fmt)),
        ("benchmark", Some(Kind::Bench)),
        ("bench-libs", Some(Kind::BenchLibs)),
        ("update-bench-readme", Some(Kind::Readme)),
        ("sanity", Some(Kind::Sanity)),
        ("analyze", None),
        ("web-spectrogram", None),
    ]);
    let log = d.join("log");
    let _ = std::fs::remove_file(&log);
    let rc = *c.rng.pick(&[0, 0, 0, 1, 7, 101]);
    let env_arch = c.rng.chance(1, 2);
    let flags: Vec<&str> = r.flags.iter().copied().collect();
    let lscpu = format!("Architecture:        {}\nCPU(s):              8\nModel name:          Some CPU\nFlags:               {}\nL1d cache: 32K\n", r.arch, flags.join(" "));
    let mut cmd = Command::new(tool("xtask-tool"));
    cmd.arg(sub).env_clear().env("PATH", &bin).env("KV_LOG", &log).env("KV_RC", rc.to_string()).env("KV_LSCPU", &lscpu).env("KV_UNAME", &r.arch).stdin(Stdio::null()).current_dir(&d);
    if env_arch {
        cmd.env("ARCH", &r.arch).env("KV_UNAME", "mips");
    }
    if !r.extra.is_empty() || c.rng.chance(1, 2) {
        cmd.env("KOFFT_FEATURES", &r.extra_text);
    }
    let io = ("some in.wav", "o.png");
    if sub == "sanity" {
        cmd.args([io.0, io.1]);
    }
    let single = c.rng.chance(1, 2);
    r.n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    if single {
        r.n = 1;
        unsafe {
            cmd.pre_exec(|| {
                let mut s: libc::cpu_set_t = std::mem::zeroed();
                let mut have: libc::cpu_set_t = std::mem::zeroed();
                libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut have);
                if let Some(i) = (0..libc::CPU_SETSIZE as usize).find(|&i| libc::CPU_ISSET(i, &have)) {
                    libc::CPU_SET(i, &mut s);
                    libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
                }
                Ok(())
            });
        }
    }
    c.sig(&format!("{sub} {} {:?} {} {:?} {rc} {env_arch}", r.arch, r.flags, r.n.min(2), r.extra));
    c.cover(format!("xtask {sub}"));
    c.cover(if single { "program on one core" } else { "program on several cores" });
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => return c.fail("the helper cannot be started", e.to_string()),
    };
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let runs: Vec<Vec<String>> = text.lines().map(|l| l.split('\u{1f}').map(String::from).collect()).collect();
    let d = || format!("{sub}: status {:?} runs {runs:?} stderr {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>());
    c.check(o.status.code() == Some(rc), "the helper does not report the status of the command", d);
    match (sub, k) {
        ("analyze", _) => {
            let names: Vec<&str> = runs.iter().map(|r| r.get(2).map(|s| s.as_str()).unwrap_or("")).collect();
            c.check(names == if rc == 0 { vec!["fmt", "clippy"] } else { vec!["fmt"] }, "analyze does not run fmt, then clippy if that succeeds", d);
        }
        ("web-spectrogram", _) => {
            c.check(runs.len() == 1 && runs[0][0] == "sh", "web-spectrogram does not run its script", d);
        }
        (_, Some(k)) => {
            if !c.check(runs.len() == 1, "the helper does not run exactly one command", d) {
                return;
            }
            let rf = (runs[0][1] != "<none>").then_some(runs[0][1].as_str());
            let args = &runs[0][2..];
            let (w, f, _) = parse(args);
            let f = f.unwrap_or_default();
            if !matches!(k, Kind::Clippy | Kind::Fmt | Kind::Sanity) {
                judge(c, sub, &f, rf, &r);
            }
            let ex = w.iter().position(|x| x == "--example").and_then(|i| w.get(i + 1)).cloned().unwrap_or_default();
            let wide = if r.arch == "x86_64" && r.flags.contains("avx512f") { "avx512" } else if r.arch == "x86_64" && r.flags.contains("avx2") { "avx2" } else { "" };
            if matches!(k, Kind::Bench | Kind::BenchLibs | Kind::Readme) {
                c.check(wide.is_empty() || rf.is_some_and(|x| x.contains(wide)), "a benchmark command does not carry the configured compiler flags", d);
            }
            command(c, sub, k, &runs[0][0], rf, args, &f, rf, &ex, io);
        }
        _ => {}
    }
}
pub fn p30(x: &mut Ctx) {
    x.run("grid", 1280, grid);
    x.run("config", 2000, config);
    x.run("program", 150, program);
    let _ = std::fs::remove_dir_all(scratch());
}
