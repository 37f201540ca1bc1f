//! P22 song index: random operation histories against a reference model, with read faults.
use crate::fw::*;
use kofft::media::index::{SongId, SongIndex};
use std::collections::HashMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// Scratch directory removed when the case ends.
struct Dir(PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Dir {
    fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("kverif-idx-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch dir");
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Default)]
struct Model {
    by_name: HashMap<String, PathBuf>,
    by_content: HashMap<Vec<u8>, PathBuf>,
}
/// What the model expects of one call: the entry's path, or an error.
type Want = Option<PathBuf>;
fn read(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}
fn name(p: &Path) -> Option<String> {
    p.file_name().and_then(|s| s.to_str()).map(String::from)
}
impl Model {
    fn add(&mut self, p: &Path, content: Vec<u8>) -> PathBuf {
        if let Some(n) = name(p) {
            self.by_name.insert(n, p.into());
        }
        self.by_content.insert(content, p.into());
        p.into()
    }
    fn index(&mut self, p: &Path, content: Option<Vec<u8>>) -> Want {
        content.map(|c| self.add(p, c))
    }
    fn identify(&mut self, p: &Path, content: Option<Vec<u8>>) -> Want {
        if let Some(id) = name(p).and_then(|n| self.by_name.get(&n)) {
            return Some(id.clone());
        }
        let c = content?;
        if let Some(id) = self.by_content.get(&c) {
            return Some(id.clone());
        }
        Some(self.add(p, c))
    }
}
struct World {
    dir: Dir,
    idx: SongIndex,
    model: Model,
    ids: HashMap<PathBuf, SongId>,
    log: Vec<String>,
}
impl World {
    fn new() -> Self {
        World { dir: Dir::new(), idx: SongIndex::new(), model: Model::default(), ids: HashMap::new(), log: vec![] }
    }
    fn history(&self) -> String {
        self.log.iter().rev().take(14).rev().cloned().collect::<Vec<_>>().join("; ")
    }
    fn judge(&mut self, c: &mut Case, op: &str, got: std::io::Result<SongId>, want: Want) -> bool {
        match (got, want) {
            (Err(_), None) => {
                c.ev();
                c.cover(format!("{op}: error reported"));
                true
            }
            (Ok(g), None) => c.check(false, &format!("{op}: success for an unreadable file"), || format!("{g:?} after {}", self.history())),
            (Err(e), Some(w)) => c.check(false, &format!("{op}: unexpected error"), || format!("{e} wanted {w:?} after {}", self.history())),
            (Ok(g), Some(w)) => {
                c.ev();
                if let Some(id) = self.ids.get(&w) {
                    if *id != g {
                        c.fail(format!("{op}: wrong entry"), format!("got {g:?} wanted the entry of {w:?} after {}", self.history()));
                        return false;
                    }
                } else {
                    if let Some((p, _)) = self.ids.iter().find(|(_, id)| **id == g) {
                        c.fail(format!("{op}: new file identified with another entry"), format!("{w:?} got the entry of {p:?} after {}", self.history()));
                        return false;
                    }
                    self.ids.insert(w, g);
                }
                true
            }
        }
    }
    fn op(&mut self, c: &mut Case, index: bool, p: &Path, content: Option<Vec<u8>>) -> bool {
        let what = if index { "index_song" } else { "identify" };
        let known = name(p).is_some_and(|n| self.model.by_name.contains_key(&n));
        let dup = content.as_ref().is_some_and(|b| self.model.by_content.contains_key(b));
        c.cover(format!("{what}: {} name, {}", if known { "known" } else { "new" }, match &content { None => "unreadable", _ if dup => "known content", _ => "new content" }));
        self.log.push(format!("{what}({:?})", p.strip_prefix(&self.dir.0).unwrap_or(p)));
        let want = if index { self.model.index(p, content) } else { self.model.identify(p, content) };
        let Some(got) = c.call(what, || if index { self.idx.index_song(p) } else { self.idx.identify(p) }) else { return false };
        self.judge(c, what, got, want)
    }
    /// Observe the whole index: every stored name and every stored content, without changing it.
    fn probe(&mut self, c: &mut Case) -> bool {
        let names: Vec<(String, PathBuf)> = self.model.by_name.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (n, w) in names {
            let p = self.dir.0.join("no-such-directory").join(&n);
            let Some(got) = c.call("identify", || self.idx.identify(&p)) else { return false };
            if !self.judge(c, "identify(known name, missing file)", got, Some(w)) {
                return false;
            }
        }
        let contents: Vec<(Vec<u8>, PathBuf)> = self.model.by_content.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for (i, (b, w)) in contents.into_iter().enumerate() {
            let p = self.dir.0.join(format!("probe-{i}-{}", self.log.len()));
            std::fs::write(&p, &b).expect("probe file");
            let Some(got) = c.call("identify", || self.idx.identify(&p)) else { return false };
            let _ = std::fs::remove_file(&p);
            if !self.judge(c, "identify(new name, known content)", got, Some(w)) {
                return false;
            }
        }
        true
    }
}
fn sizes(c: &mut Case) -> usize {
    match c.rng.below(8) {
        0 => c.rng.range(0, 3),
        1 => 8191 + c.rng.below(3),
        2 => 16383 + c.rng.below(3),
        3 => 4095 + c.rng.below(3),
        4 => c.rng.range(1, 60000),
        5 => 65535 + c.rng.below(3),
        6 if c.rng.chance(1, 20) => c.rng.range(1 << 20, 3 << 20),
        _ => c.rng.range(1, 2000),
    }
}
fn content(c: &mut Case, pool: &[Vec<u8>]) -> Vec<u8> {
    if !pool.is_empty() && c.rng.chance(2, 3) {
        // related to an existing content: equal, truncated, extended, or one byte changed
        let mut b = c.rng.pick(pool).clone();
        match c.rng.below(6) {
            0 => b.push(0),
            1 => {
                b.pop();
            }
            2 if !b.is_empty() => {
                let i = if c.rng.chance(1, 2) { b.len() - 1 } else { c.rng.below(b.len()) };
                b[i] ^= 1 << c.rng.below(8);
            }
            3 if b.len() > 1 => {
                // swap two bytes / blocks: same multiset
                let h = b.len() / 2;
                b.rotate_left(h);
            }
            _ => {}
        }
        return b;
    }
    let n = sizes(c);
    let z = c.rng.chance(1, 4);
    (0..n).map(|_| if z { 0 } else { c.rng.u64() as u8 }).collect()
}
fn file_name(c: &mut Case) -> OsString {
    let n = plain_name(c);
    // names that are nearly the same are different names
    let Some(s) = n.to_str().filter(|_| c.rng.chance(1, 3)) else { return n };
    let (stem, ext) = s.rsplit_once('.').unwrap_or((s, ""));
    let long = "x".repeat(*c.rng.pick(&[30usize, 62, 126, 200]));
    match c.rng.below(16) {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => format!("{s}."),
        3 => format!(".{s}"),
        4 => stem.to_string(),
        5 => format!("{stem}.ogg"),
        6 => format!("{s}.{ext}"),
        7 => s.to_uppercase(),
        8 => format!("{stem} (1).{ext}"),
        9 => format!("{stem}-1.{ext}"),
        10 => s.replace('\u{f6}', "o\u{308}"),
        11 => s.replace(char::is_numeric, ""),
        12 => s.replacen(char::is_numeric, "01", 1),
        13 => format!("{long}{s}"),
        14 => format!("{stem}{long}.{ext}"),
        _ => format!("{s}\t"),
    }
    .into()
}
fn plain_name(c: &mut Case) -> OsString {
    match c.rng.below(10) {
        0 => OsString::from_vec(vec![b'n', 0xff, 0xfe, b'0' + c.rng.below(3) as u8]), // not UTF-8
        1 => format!("Song {}.WAV", c.rng.below(4)).into(),
        2 => format!("song {}.wav", c.rng.below(4)).into(),
        3 => format!("s\u{f6}ng{}.flac", c.rng.below(3)).into(),
        4 => format!("s{}", c.rng.below(3)).into(),
        _ => format!("s{}.mp3", c.rng.below(8)).into(),
    }
}
fn history(c: &mut Case, steps: usize) {
    let mut w = World::new();
    let dirs: Vec<PathBuf> = ["a", "b", "a/c"].iter().map(|d| w.dir.0.join(d)).collect();
    for d in &dirs {
        std::fs::create_dir_all(d).expect("dir");
    }
    let mut pool: Vec<Vec<u8>> = vec![];
    let mut paths: Vec<PathBuf> = vec![];
    let mut shape = String::new();
    for _ in 0..steps {
        match c.rng.below(12) {
            0..=3 => {
                // (over)write a file
                let p = c.rng.pick(&dirs).join(file_name(c));
                let b = content(c, &pool);
                if p.is_dir() || std::fs::write(&p, &b).is_err() {
                    continue;
                }
                w.log.push(format!("write({:?}, {} bytes)", p.strip_prefix(&w.dir.0).unwrap(), b.len()));
                if pool.len() < 12 {
                    pool.push(b);
                }
                paths.push(p);
                shape.push('w');
            }
            4 => {
                // remove a file or replace it by a directory (open succeeds, reading fails)
                if let Some(p) = (!paths.is_empty()).then(|| c.rng.pick(&paths).clone()) {
                    let _ = std::fs::remove_file(&p);
                    let d = c.rng.chance(1, 3);
                    if d {
                        let _ = std::fs::create_dir(&p);
                    }
                    w.log.push(format!("remove({:?}, dir={d})", p.strip_prefix(&w.dir.0).unwrap()));
                    shape.push('r');
                }
            }
            5 => {
                // a path that never existed, a directory path, or one without a file name
                let q = match c.rng.below(4) {
                    0 => dirs[2].join(".."),
                    1 => dirs[0].clone(),
                    2 => w.dir.0.join("missing").join(file_name(c)),
                    _ => PathBuf::new(),
                };
                let index = c.rng.chance(1, 2);
                shape.push('x');
                let r = read(&q);
                if !w.op(c, index, &q, r) {
                    return;
                }
            }
            6 if !paths.is_empty() => {
                // symlink under another name: its content is the target's
                let t = c.rng.pick(&paths).clone();
                let p = c.rng.pick(&dirs).join(format!("link{}", c.rng.below(5)));
                let _ = std::fs::remove_file(&p);
                if std::os::unix::fs::symlink(&t, &p).is_ok() {
                    w.log.push(format!("symlink({:?})", p.strip_prefix(&w.dir.0).unwrap()));
                    paths.push(p);
                    shape.push('l');
                }
            }
            7 if !paths.is_empty() => {
                // no file can be opened during this call
                let p = c.rng.pick(&paths).clone();
                let index = c.rng.chance(1, 2);
                let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
                let none = libc::rlimit { rlim_cur: 0, rlim_max: old.rlim_max };
                shape.push('f');
                w.log.push("[no file descriptors]".into());
                unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &none) };
                let ok = w.op(c, index, &p, None);
                unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
                if !ok {
                    return;
                }
            }
            _ => {
                let p = if paths.is_empty() || c.rng.chance(1, 5) { c.rng.pick(&dirs).join(file_name(c)) } else { c.rng.pick(&paths).clone() };
                let index = c.rng.chance(2, 5);
                shape.push(if index { 'i' } else { 'q' });
                let r = read(&p);
                if !w.op(c, index, &p, r) {
                    return;
                }
            }
        }
    }
    w.probe(c);
    c.sig(&shape);
    c.sample(w.history());
}
/// Two files that differ in one byte (or in length) stay different, whatever their size.
fn pairs(c: &mut Case) {
    let mut w = World::new();
    let n = sizes(c).max(1);
    let a: Vec<u8> = (0..n).map(|_| c.rng.u64() as u8).collect();
    let mut b = a.clone();
    let how = c.rng.below(5);
    match how {
        0 => {
            b.pop();
        }
        1 => b.push(c.rng.u64() as u8),
        2 => {
            let i = n - 1;
            b[i] ^= 0x80;
        }
        3 => b[0] ^= 1,
        _ => {
            let i = c.rng.below(n);
            b[i] = b[i].wrapping_add(1);
        }
    }
    c.sig(&format!("pair {n} {how}"));
    let (p, q, r) = (w.dir.0.join("one"), w.dir.0.join("two"), w.dir.0.join("three"));
    std::fs::write(&p, &a).unwrap();
    std::fs::write(&q, &b).unwrap();
    std::fs::write(&r, &a).unwrap();
    let first = c.rng.chance(1, 2);
    let _ = w.op(c, first, &p, Some(a.clone())) && w.op(c, false, &q, Some(b)) && w.op(c, false, &r, Some(a)) && w.probe(c);
}
/// A large collection: every entry stays findable by its name and by its content.
fn crowd(c: &mut Case) {
    let mut w = World::new();
    let n = c.rng.logsize(100, if c.full() { 6000 } else { 1500 });
    let how = c.rng.below(3);
    // names as collections number them; long ones share most of their characters
    let style = c.rng.below(4);
    let lead = "the same long title ".repeat(10);
    for i in 0..n {
        let p = w.dir.0.join(match style {
            0 => format!("song{i}.mp3"),
            1 => format!("{i}"),
            2 => format!("{i:04}{lead}.flac"),
            _ => format!("{lead}{i}.flac"),
        });
        let b = format!("{:0w$}", i * 7919, w = 4 + i % 40).into_bytes();
        std::fs::write(&p, &b).expect("song");
        let index = how == 0 || how == 2 && c.rng.chance(1, 2);
        if !w.op(c, index, &p, Some(b)) {
            return;
        }
    }
    c.sig(&format!("crowd {n} {how}"));
    w.probe(c);
}
/// The same bytes delivered in many short reads (a pipe) are still the same content.
fn pipes(c: &mut Case) {
    let mut w = World::new();
    let n = sizes(c).min(30000).max(2);
    let a: Vec<u8> = (0..n).map(|_| c.rng.u64() as u8).collect();
    let plain = w.dir.0.join("plain");
    std::fs::write(&plain, &a).unwrap();
    if !w.op(c, true, &plain, Some(a.clone())) {
        return;
    }
    for round in 0..2 {
        let fifo = w.dir.0.join(format!("pipe{round}"));
        let path = std::ffi::CString::new(fifo.as_os_str().as_bytes()).unwrap();
        if unsafe { libc::mkfifo(path.as_ptr(), 0o600) } != 0 {
            return;
        }
        // second round: a longer content sharing the first chunk, so it must become a new entry
        let mut data = a.clone();
        if round == 1 {
            data.extend([1, 2, 3]);
        }
        let chunk = c.rng.range(1, n);
        let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (s2, d2, f2) = (stop.clone(), data.clone(), fifo.clone());
        let t = std::thread::spawn(move || {
            use std::io::Write;
            use std::os::unix::fs::OpenOptionsExt;
            loop {
                if s2.load(Ordering::SeqCst) {
                    return;
                }
                match std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(&f2) {
                    Ok(mut f) => {
                        for part in d2.chunks(chunk) {
                            let mut off = 0;
                            while off < part.len() && !s2.load(Ordering::SeqCst) {
                                match f.write(&part[off..]) {
                                    Ok(k) => off += k,
                                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::yield_now(),
                                    Err(_) => return,
                                }
                            }
                            std::thread::sleep(std::time::Duration::from_micros(300));
                        }
                        return;
                    }
                    Err(_) => std::thread::sleep(std::time::Duration::from_micros(100)),
                }
            }
        });
        let ok = w.op(c, false, &fifo, Some(data));
        stop.store(true, Ordering::SeqCst);
        let _ = t.join();
        if !ok {
            return;
        }
    }
    c.cover("content delivered in short reads");
    c.sig(&format!("pipe {n}"));
}
pub fn p22(x: &mut Ctx) {
    // SIGPIPE must not end the process when the library stops reading early
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    x.run("short", 1200, |c| {
        let n = c.rng.range(2, 14);
        history(c, n)
    });
    x.run("long", 120, |c| {
        let n = c.rng.range(30, 120);
        history(c, n)
    });
    x.run("pairs", 500, pairs);
    x.run("crowd", 4, crowd);
    x.run("pipes", 30, pipes);
}
