//! P29: audio decoding and the spectrogram picture.
use crate::fw::*;
use crate::oracle::*;
use crate::{scratch, tool};
use image::{ImageBuffer, Rgb};
use kofft::visual::spectrogram as sp;
use sanity_check::{read_audio, save_png, save_svg, PngDepth};
use std::f64::consts::PI;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
const EPS: f64 = f32::EPSILON as f64;

// ------------------------------------------------------------------ generated audio
struct Audio {
    /// frames of channel values; integers unless `float`
    frames: Vec<Vec<i64>>,
    float: Option<Vec<Vec<f32>>>,
    ch: usize,
    bits: u32,
    rate: u32,
}
fn gen(c: &mut Case, bits: u32, ch: usize, rate: u32, float: bool, n: usize) -> Audio {
    let top = (1i64 << (bits - 1)) - 1;
    let mode = c.rng.below(6);
    let f = c.rng.uni(0.001, 3.0);
    let frames: Vec<Vec<i64>> = (0..n)
        .map(|i| {
            (0..ch)
                .map(|k| match mode {
                    0 => -top - 1 + c.rng.below((2 * top + 2) as usize) as i64,
                    1 => (top as f64 * 0.9 * (f * i as f64 + k as f64).sin()) as i64,
                    2 => if (i + k) % 2 == 0 { top } else { -top - 1 },
                    3 => if i == n / 2 { top } else { 0 },
                    4 => ((i as i64 * 3 + k as i64 * 7) % 50) - 25,
                    _ => (top as f64 * (0.5 * (f * i as f64).sin() + 0.3 * c.rng.uni(-1.0, 1.0))) as i64,
                })
                .collect()
        })
        .collect();
    let float = float.then(|| frames.iter().map(|v| v.iter().map(|&x| (x as f64 / top as f64 * 1.25) as f32).collect()).collect());
    Audio { frames, float, ch, bits, rate }
}
/// A WAV file written from the specification of the format.
fn wav(c: &mut Case, a: &Audio) -> Vec<u8> {
    let bytes = (a.bits / 8) as usize;
    let mut data = vec![];
    for (i, f) in a.frames.iter().enumerate() {
        for (k, &v) in f.iter().enumerate() {
            if let Some(fl) = &a.float {
                data.extend(fl[i][k].to_le_bytes());
            } else if a.bits == 8 {
                data.push((v + 128) as u8);
            } else {
                data.extend(&v.to_le_bytes()[..bytes]);
            }
        }
    }
    let tag: u16 = if a.float.is_some() { 3 } else { 1 };
    let ext = a.bits > 16 && a.float.is_none() && c.rng.chance(1, 2) || a.ch > 2 && c.rng.chance(1, 2);
    let mut fmt = vec![];
    fmt.extend((if ext { 0xFFFEu16 } else { tag }).to_le_bytes());
    fmt.extend((a.ch as u16).to_le_bytes());
    fmt.extend(a.rate.to_le_bytes());
    fmt.extend(a.rate.wrapping_mul((a.ch * bytes) as u32).to_le_bytes());
    fmt.extend(((a.ch * bytes) as u16).to_le_bytes());
    fmt.extend((a.bits as u16).to_le_bytes());
    if ext {
        fmt.extend(22u16.to_le_bytes());
        fmt.extend((a.bits as u16).to_le_bytes());
        fmt.extend(((1u64 << a.ch) as u32 - 1).to_le_bytes());
        fmt.extend(tag.to_le_bytes());
        fmt.extend([0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
    }
    let mut out = b"WAVE".to_vec();
    let chunk = |out: &mut Vec<u8>, id: &[u8], d: &[u8]| {
        out.extend(id);
        out.extend((d.len() as u32).to_le_bytes());
        out.extend(d);
        if d.len() % 2 == 1 {
            out.push(0);
        }
    };
    chunk(&mut out, b"fmt ", &fmt);
    if c.rng.chance(1, 3) {
        if c.rng.chance(1, 2) {
            let k = c.rng.below(20) * 2; // (hound does not skip the pad byte of an odd chunk)
            chunk(&mut out, b"junk", &vec![b'x'; k]);
        } else {
            let k = c.rng.range(1, 20) * 2;
            let mut l = b"INFO".to_vec();
            chunk(&mut l, b"ISFT", &vec![b'x'; k]);
            chunk(&mut out, b"LIST", &l);
        }
    }
    chunk(&mut out, b"data", &data);
    let mut all = b"RIFF".to_vec();
    all.extend((out.len() as u32).to_le_bytes());
    all.extend(out);
    all
}
struct Bits {
    v: Vec<u8>,
    n: usize,
}
impl Bits {
    fn put(&mut self, x: u64, bits: u32) {
        for b in (0..bits).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            if x >> b & 1 == 1 {
                *self.v.last_mut().unwrap() |= 0x80 >> (self.n % 8);
            }
            self.n += 1;
        }
    }
    fn align(&mut self) {
        while self.n % 8 != 0 {
            self.put(0, 1);
        }
    }
}
fn crc(d: &[u8], poly: u32, bits: u32) -> u32 {
    let mut r = 0u32;
    for &b in d {
        r ^= (b as u32) << (bits - 8);
        for _ in 0..8 {
            r = if r >> (bits - 1) & 1 == 1 { (r << 1) ^ poly } else { r << 1 };
        }
        r &= ((1u64 << bits) - 1) as u32;
    }
    r
}
/// A FLAC file written from the specification of the format (verbatim, constant and first-order
/// fixed subframes, all stereo modes).
fn flac(c: &mut Case, a: &Audio) -> (Vec<u8>, usize) {
    flac_with(c, a, false)
}
/// With `bad`, one frame is well framed (checksums included) but uses a reserved subframe type.
fn flac_with(c: &mut Case, a: &Audio, bad: bool) -> (Vec<u8>, usize) {
    let n = a.frames.len();
    let block = if bad { (n / c.rng.range(1, 6)).max(16) } else if n > 20000 && c.rng.chance(2, 3) { c.rng.range(600, 65535) } else { c.rng.range(16, 600) };
    let bad = if bad { Some(c.rng.below(n.div_ceil(block))) } else { None };
    let mut h = Bits { v: b"fLaC".to_vec(), n: 32 };
    let padding = c.rng.chance(1, 3);
    h.put(!padding as u64, 1);
    h.put(0, 7);
    h.put(34, 24);
    h.put(block as u64, 16);
    h.put(block as u64, 16);
    h.put(0, 24);
    h.put(0, 24);
    h.put(a.rate as u64, 20);
    h.put(a.ch as u64 - 1, 3);
    h.put(a.bits as u64 - 1, 5);
    h.put(if c.rng.chance(1, 4) { 0 } else { n as u64 }, 36);
    for _ in 0..4 {
        h.put(0, 32);
    }
    if padding {
        h.put(1, 1);
        h.put(1, 7);
        h.put(10, 24);
        for _ in 0..10 {
            h.put(0, 8);
        }
    }
    let mut out = h.v;
    for (no, fr) in a.frames.chunks(block).enumerate() {
        let mut b = Bits { v: vec![], n: 0 };
        b.put(0x3FFE, 14);
        b.put(0, 2);
        b.put(7, 4);
        b.put(0, 4);
        let mode = if a.ch == 2 && a.bits < 32 { c.rng.below(4) } else { 0 };
        b.put(if mode == 0 { a.ch as u64 - 1 } else { 7 + mode as u64 }, 4);
        b.put(0, 3);
        b.put(0, 1);
        // frame number in the UTF-8-like code
        if no < 0x80 {
            b.put(no as u64, 8);
        } else if no < 0x800 {
            b.put(0xC0 | (no as u64 >> 6), 8);
            b.put(0x80 | (no as u64 & 63), 8);
        } else {
            b.put(0xE0 | (no as u64 >> 12), 8);
            b.put(0x80 | (no as u64 >> 6 & 63), 8);
            b.put(0x80 | (no as u64 & 63), 8);
        }
        b.put(fr.len() as u64 - 1, 16);
        let k = crc(&b.v, 7, 8);
        b.put(k as u64, 8);
        for s in 0..a.ch {
            let (v, extra): (Vec<i64>, u32) = match (mode, s) {
                (1, 1) | (2, 0) => (fr.iter().map(|f| f[0] - f[1]).collect(), 1),
                (3, 0) => (fr.iter().map(|f| (f[0] + f[1]) >> 1).collect(), 0),
                (3, 1) => (fr.iter().map(|f| f[0] - f[1]).collect(), 1),
                _ => (fr.iter().map(|f| f[s]).collect(), 0),
            };
            let w = a.bits + extra;
            let constant = v.iter().all(|&x| x == v[0]);
            if bad == Some(no) {
                b.put(0b0010101 << 1, 8); // 01xxxx is reserved
                for &x in &v {
                    b.put(x as u64, w);
                }
                continue;
            }
            let small = v.windows(2).all(|p| (p[1] - p[0]).abs() < 120);
            if constant && c.rng.chance(2, 3) {
                b.put(0, 8);
                b.put(v[0] as u64, w);
            } else if small && c.rng.chance(1, 2) {
                // fixed predictor of order 1, one Rice partition
                b.put(0b0001001 << 1, 8);
                b.put(v[0] as u64, w);
                b.put(0, 2);
                b.put(0, 4);
                let p = c.rng.range(2, 8) as u32;
                b.put(p as u64, 4);
                for q in v.windows(2) {
                    let e = q[1] - q[0];
                    let u = if e >= 0 { 2 * e as u64 } else { (-2 * e - 1) as u64 };
                    for _ in 0..u >> p {
                        b.put(0, 1);
                    }
                    b.put(1, 1);
                    b.put(u & ((1 << p) - 1), p);
                }
            } else {
                b.put(1 << 1, 8);
                for &x in &v {
                    b.put(x as u64, w);
                }
            }
        }
        b.align();
        let k = crc(&b.v, 0x8005, 16);
        b.put(k as u64, 16);
        out.extend(b.v);
    }
    (out, block)
}
fn file(name: &str, d: &[u8]) -> PathBuf {
    let p = scratch().join(name);
    std::fs::write(&p, d).expect("write scratch file");
    p
}
fn truth(a: &Audio, full: f64) -> Vec<f64> {
    (0..a.frames.len())
        .map(|i| match &a.float {
            Some(f) => f[i].iter().map(|&v| v as f64).sum::<f64>() / a.ch as f64,
            None => a.frames[i].iter().map(|&v| v as f64 / full).sum::<f64>() / a.ch as f64,
        })
        .collect()
}
/// Integer full scale is 2^(b-1) or 2^(b-1)-1 by convention; every sample has to use the same one.
fn same_audio(got: &[f32], a: &Audio) -> Result<(), String> {
    let mut first = String::new();
    for full in [(1u64 << (a.bits - 1)) as f64, ((1u64 << (a.bits - 1)) - 1) as f64] {
        let w = truth(a, full);
        if got.len() != w.len() {
            return Err(format!("{} samples decoded, {} in the file", got.len(), w.len()));
        }
        match (0..w.len()).find(|&i| !((got[i] as f64 - w[i]).abs() <= EPS * (a.ch as f64 + 3.0) * 1.3)) {
            None => return Ok(()),
            Some(i) => first = format!("sample {i}: got {} want {}", got[i], w[i]),
        }
    }
    Err(first)
}
fn rate(c: &mut Case, max: usize) -> u32 {
    *c.rng.pick(&[8000, 11025, 16000, 22050, 44100, 48000, 96000, 192000, 1]).min(&(max as u32)) + if c.rng.chance(1, 3) { c.rng.below(7000) as u32 } else { 0 }
}
fn frames_of(c: &mut Case) -> usize {
    match c.rng.below(12) {
        0 => 1,
        1 if c.full() && c.rng.chance(1, 3) => c.rng.logsize(20000, 200000),
        1 => c.rng.range(1, 40),
        2 => 16 * c.rng.range(1, 60),
        _ => c.rng.logsize(1, if c.full() { 12000 } else { 3000 }),
    }
}
fn read(c: &mut Case, what: &str, p: &Path, a: &Audio) {
    let Some(r) = c.call(what, || read_audio(p).map_err(|e| e.to_string())) else { return };
    match r {
        Err(e) => c.fail(format!("{what}: a valid file is refused"), format!("{} bit {} channels {} Hz {} frames: {e}", a.bits, a.ch, a.rate, a.frames.len())),
        Ok((s, rate)) => {
            c.check(rate == a.rate, &format!("{what}: wrong sample rate"), || format!("{rate} for {}", a.rate));
            let r = same_audio(&s, a);
            c.check(r.is_ok(), &format!("{what}: wrong samples"), || format!("{} bit{} {} channels {} frames: {}", a.bits, if a.float.is_some() { " float" } else { "" }, a.ch, a.frames.len(), r.unwrap_err()));
        }
    }
}
fn wav_case(c: &mut Case) {
    let fl = c.rng.chance(1, 4);
    let bits = if fl { 32 } else { *c.rng.pick(&[8, 16, 24, 32]) };
    let ch = *c.rng.pick(&[1, 1, 2, 2, 3, 4, 5, 6, 8]);
    let rate = rate(c, 400000);
    let n = frames_of(c);
    let a = gen(c, bits, ch, rate, fl, n);
    let d = wav(c, &a);
    let name = *c.rng.pick(&["a.wav", "b.WAV", "c.Wav"]);
    c.sig(&format!("wav {bits}{fl} {ch} {n} {}", d.len() % 4));
    c.cover(format!("wav: {bits} bit{}", if fl { " float" } else { "" }));
    c.cover(format!("wav: {ch} channels"));
    let p = file(name, &d);
    read(c, "read_audio(wav)", &p, &a);
    // the general reader, when the name does not say it is a WAV file
    if ch <= 2 && c.rng.chance(1, 3) {
        let p = file("d.dat", &d);
        c.cover("wav under another name");
        read(c, "read_audio(wav, other extension)", &p, &a);
    }
}
fn flac_case(c: &mut Case) {
    let bits = *c.rng.pick(&[8, 12, 16, 16, 20, 24, 24]);
    let ch = *c.rng.pick(&[1, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8]);
    let rate = rate(c, 400000);
    let n = frames_of(c);
    let a = gen(c, bits, ch, rate, false, n);
    let (d, block) = flac(c, &a);
    c.sig(&format!("flac {bits} {ch} {n} {block}"));
    c.cover(format!("flac: {bits} bit"));
    c.cover(format!("flac: {ch} channels"));
    if n % block != 0 {
        c.cover("flac: short last block");
    }
    let p = file(*c.rng.pick(&["a.flac", "b.FLAC", "noext", "x.bin"]), &d);
    read(c, "read_audio(flac)", &p, &a);
}
// ------------------------------------------------------------------ bad files
fn broken(c: &mut Case) {
    let fl = c.rng.chance(1, 2);
    let ch = c.rng.range(1, 2);
    let n = c.rng.range(1, 900);
    let bits = *c.rng.pick(&[8, 16, 24]);
    let a = gen(c, bits, ch, 8000, false, n);
    let (mut d, head) = if fl { (flac(c, &a).0, 42) } else { (wav(c, &a), 44) };
    let len = d.len();
    let ext = if fl { "flac" } else { "wav" };
    let k = c.rng.below(11);
    // what a reader may answer: an error, or (value-preserving damage) correct samples
    let mut must_fail = false;
    let mut prefix = false;
    match k {
        0 => {
            d.truncate(c.rng.below(head.min(len)));
            must_fail = true;
        }
        1 => {
            d.truncate(head + c.rng.below(len - head));
            prefix = true;
        }
        2 => {
            d = (0..c.rng.range(0, 300)).map(|_| c.rng.below(256) as u8).collect();
            // (the other reader looks for an MP3 stream in anything)
            must_fail = !fl;
        }
        3 => {
            d.clear();
            must_fail = true;
        }
        4 => {
            d[..4].copy_from_slice(b"JUNK");
            must_fail = !fl;
        }
        5 => {
            // no channels or no bits
            if fl {
                d.truncate(8);
            } else {
                d[22] = 0;
                d[23] = 0;
            }
            must_fail = true;
        }
        6 => {
            let x = d.len();
            d.extend((0..c.rng.range(1, 50)).map(|_| c.rng.below(256) as u8));
            let _ = x;
        }
        7 | 8 if fl => {
            d = flac_with(c, &a, true).0;
            must_fail = true;
        }
        _ => {
            for _ in 0..c.rng.range(1, 6) {
                let lim = if c.rng.chance(1, 2) { 64 } else { len };
                let i = c.rng.below(len.min(lim));
                d[i] ^= 1 << c.rng.below(8);
            }
        }
    }
    c.sig(&format!("broken {ext} {k} {} {}", d.len(), len));
    c.cover(format!("broken {ext}: kind {k}"));
    let p = file(&format!("broken.{ext}"), &d);
    c.ev();
    // a panic inside a decoder library is not this repository's
    let r = match guard(|| read_audio(&p).map_err(|e| e.to_string())) {
        Ok(r) => Some(r),
        Err(m) if elsewhere(&m) => {
            c.cover("broken file: panic inside a decoder library");
            return;
        }
        Err(m) => {
            c.fail("panic in read_audio(broken file)", m);
            None
        }
    };
    if let Some(r) = &r {
        c.cover(if r.is_ok() { "broken file: accepted" } else { "broken file: refused" });
        if must_fail {
            c.check(r.is_err(), "read_audio: a file that is not audio is accepted", || format!("{ext} kind {k}: {:?} samples", r.as_ref().map(|v| v.0.len())));
        } else if prefix {
            if let Ok((s, _)) = r {
                let m = s.len().min(n);
                let b = Audio { frames: a.frames[..m].to_vec(), float: None, ch: a.ch, bits: a.bits, rate: a.rate };
                let r = same_audio(&s, &b);
                c.check(r.is_ok(), "read_audio: a truncated file gives samples it does not hold", || format!("{ext}: {}", r.unwrap_err()));
            }
        }
    }
    // the tool itself: an error message and a failing status, or a picture, never a crash
    if c.rng.chance(1, 3) {
        let o = scratch().join("broken.png");
        let _ = std::fs::remove_file(&o);
        let st = run(c, &[p.to_str().unwrap(), o.to_str().unwrap(), "--win-len", "16"]);
        let Some(st) = st else { return };
        let failed = matches!(r, Some(Err(_)));
        c.check(st.0 == 1 || (st.0 == 0 && !failed) || (st.0 == 101 && elsewhere(&st.1)), "sanity-check: bad input crashes the tool or is reported as success", || format!("{ext} kind {k}: status {} reader failed {failed}: {}", st.0, st.1));
    }
}
fn elsewhere(panic: &str) -> bool {
    let at = panic.split("panicked at ").nth(1).map_or(panic, |t| t.lines().next().unwrap_or(""));
    at.contains("/registry/src/") || at.contains("/rustc/")
}
fn missing(c: &mut Case) {
    let d = scratch();
    let sub = d.join("dir.wav");
    let _ = std::fs::create_dir_all(&sub);
    let ext = *c.rng.pick(&["wav", "flac", "mp3", "txt", ""]);
    let p = match c.rng.below(3) {
        0 => d.join(format!("nothing here.{ext}")),
        1 => sub,
        _ => file(&format!("text.{ext}"), b"this is not an audio file at all, just some text\n"),
    };
    c.sig(&format!("missing {}", p.display().to_string().replace(&d.display().to_string(), "")));
    if let Some(r) = c.call("read_audio(no such file)", || read_audio(&p).map(|v| v.0.len()).map_err(|e| e.to_string())) {
        c.check(r.is_err(), "read_audio: a missing or non-audio file is accepted", || format!("{} {r:?}", p.display()));
    }
    // empty audio has no picture
    let a = Audio { frames: vec![], float: None, ch: 1, bits: 16, rate: 8000 };
    let p = file("empty.wav", &wav(c, &a));
    let out = d.join("empty.png");
    if let Some(st) = run(c, &[p.to_str().unwrap(), out.to_str().unwrap()]) {
        c.check(st.0 == 1, "sanity-check: an empty file does not give an error", || format!("status {} {}", st.0, st.1));
    }
    // an output that cannot be written
    let a = gen(c, 16, 1, 8000, false, 100);
    let p = file("fine.wav", &wav(c, &a));
    if let Some(st) = run(c, &[p.to_str().unwrap(), d.join("no/such/dir/x.png").to_str().unwrap(), "--win-len", "16"]) {
        c.check(st.0 == 1, "sanity-check: an unwritable output does not give an error", || format!("status {} {}", st.0, st.1));
    }
    for w in ["0", "1"] {
        if let Some(st) = run(c, &[p.to_str().unwrap(), d.join("w.png").to_str().unwrap(), "--win-len", w]) {
            c.check(st.0 == 1 || st.0 == 2, "sanity-check: an impossible window length does not give an error", || format!("{w}: status {} {}", st.0, st.1));
        }
    }
}
/// Run the tool: (exit status, 1000 + signal when killed; what it printed).
fn run(c: &mut Case, args: &[&str]) -> Option<(i32, String)> {
    use std::os::unix::process::ExitStatusExt;
    c.ev();
    let o = Command::new(tool("sanity-tool")).args(args).stdin(Stdio::null()).output();
    match o {
        Ok(o) => Some((o.status.code().unwrap_or(1000 + o.status.signal().unwrap_or(0)), String::from_utf8_lossy(&o.stderr).chars().take(300).collect())),
        Err(e) => {
            c.fail("the tool cannot be started", e.to_string());
            None
        }
    }
}
// ------------------------------------------------------------------ the picture
const MAPS: [(&str, sp::Colormap); 7] = [("fire", sp::Colormap::Fire), ("legacy", sp::Colormap::Legacy), ("gray", sp::Colormap::Gray), ("viridis", sp::Colormap::Viridis), ("plasma", sp::Colormap::Plasma), ("inferno", sp::Colormap::Inferno), ("rainbow", sp::Colormap::Rainbow)];
fn picture(c: &mut Case) {
    let ch = c.rng.range(1, 3);
    let bits = *c.rng.pick(&[16, 24]);
    let fl = c.rng.chance(1, 2);
    let default_win = c.rng.chance(1, 8);
    let win = if default_win { 1024 } else if c.rng.chance(2, 3) { 1 << c.rng.range(1, 8) } else { c.rng.range(2, 90) };
    let hop = win / 2;
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, win),
        1 => hop * c.rng.range(1, 20),
        _ => c.rng.range(1, hop * 30),
    };
    let a = gen(c, bits, ch, 8000, false, n);
    let d = if fl { flac(c, &a).0 } else { wav(c, &a) };
    let p = file(if fl { "p.flac" } else { "p.wav" }, &d);
    let out = scratch().join("p.png");
    let _ = std::fs::remove_file(&out);
    let (w, range, sixteen, log) = (win.to_string(), *c.rng.pick(&[120.0f32, 120.0, 60.0, 96.0, 20.0, 150.5]), c.rng.chance(1, 2), c.rng.chance(1, 2));
    let (mapname, map) = *c.rng.pick(&MAPS);
    let rs = range.to_string();
    let mut args = vec![p.to_str().unwrap(), out.to_str().unwrap()];
    if !default_win {
        args.extend(["--win-len", &w]);
    }
    let default_map = c.rng.chance(1, 6);
    let map = if default_map { sp::Colormap::Inferno } else { map };
    if !default_map {
        args.extend(["--colormap", mapname]);
    }
    if log {
        args.extend(["--scale-mode", "log"]);
    } else if c.rng.chance(1, 2) {
        args.extend(["--scale-mode", "linear"]);
    }
    if range != 120.0 || c.rng.chance(1, 2) {
        args.extend(["--dynamic-range", &rs]);
    }
    if sixteen {
        args.extend(["--png-depth", "sixteen"]);
    } else if c.rng.chance(1, 2) {
        args.extend(["--png-depth", "eight"]);
    }
    c.sig(&format!("picture {win} {n} {mapname} {sixteen} {log} {range}"));
    c.cover(format!("picture: {} {} {}", if default_map { "default map" } else { mapname }, if sixteen { "16 bit" } else { "8 bit" }, if log { "log" } else { "linear" }));
    let Some(st) = run(c, &args) else { return };
    if !c.check(st.0 == 0, "sanity-check: a valid file gives no picture", || format!("win {win} n {n}: status {} {}", st.0, st.1)) {
        return;
    }
    let img = match image::open(&out) {
        Ok(i) => i,
        Err(e) => return c.fail("sanity-check: the picture cannot be read", e.to_string()),
    };
    let deep = img.color() == image::ColorType::Rgb16;
    c.check(deep == sixteen && (deep || img.color() == image::ColorType::Rgb8), "sanity-check: wrong PNG depth", || format!("{:?} asked for sixteen: {sixteen}", img.color()));
    let (height, width) = (win / 2, n.div_ceil(hop));
    if !c.check(img.width() as usize == width && img.height() as usize == height, "sanity-check: wrong picture size", || format!("win {win} n {n}: {}x{} want {width}x{height}", img.width(), img.height())) {
        return;
    }
    let px = img.to_rgb16();
    // reference magnitudes and their error bars
    let full = (1u64 << (bits - 1)) as f64;
    let s = truth(&a, full);
    let mut mags = vec![];
    let mut tol = vec![];
    for f in 0..width {
        let fr: Vec<f64> = (0..win).map(|i| s.get(f * hop + i).copied().unwrap_or(0.0) * (0.5 - 0.5 * (2.0 * PI * i as f64 / win as f64).cos())).collect();
        let amp = (0..win).map(|i| s.get(f * hop + i).copied().unwrap_or(0.0).powi(2)).sum::<f64>().sqrt();
        mags.push(fft_ref(&rz(&fr))[..height].iter().map(|v| v.abs()).collect::<Vec<f64>>());
        tol.push(EPS * amp * (win as f64).sqrt() * (4.0 * ((win as f64).log2() + 2.0)) + 1e-30);
    }
    let max = mags.iter().flatten().fold(0.0f64, |a, &b| a.max(b));
    let mt = mags.iter().zip(&tol).filter(|(m, _)| m.iter().any(|&v| v > max * 0.999)).map(|(_, t)| *t).fold(0.0, f64::max);
    if max > 0.0 && max <= tol.iter().fold(0.0, |a: f64, &b| a.max(b)) * 1e3 {
        return; // nothing but rounding noise: no definite colours
    }
    for (x, m) in mags.iter().enumerate() {
        let row: Vec<f64> = if log {
            // mean of the linear bins mapped to each output bin
            let lo: Vec<f32> = m.iter().map(|&v| v as f32).collect();
            sp::log_scale_bins(&lo, height - 1).iter().map(|&v| v as f64).collect()
        } else {
            m.clone()
        };
        for (y, &v) in row.iter().enumerate() {
            c.ev();
            let t = tol[x] + v * 4.0 * EPS;
            let got = px.get_pixel(x as u32, (height - 1 - y) as u32).0;
            // colours over the interval the magnitude may lie in
            let (mut lo, mut hi) = ([65535.0f64; 3], [0.0f64; 3]);
            for k in -20..=20 {
                let vv = (v + t * k as f64 / 20.0).max(0.0);
                for mx in [max - mt, max, max + mt] {
                    let col = sp::color_from_magnitude_u16(vv as f32, mx as f32, -range, map);
                    for q in 0..3 {
                        lo[q] = lo[q].min(col[q] as f64);
                        hi[q] = hi[q].max(col[q] as f64);
                    }
                }
            }
            for q in 0..3 {
                let slack = (hi[q] - lo[q]) * 0.5 + 66.0 + if deep { 260.0 } else { 520.0 };
                let g = got[q] as f64;
                let off = (lo[q] - g).max(g - hi[q]).max(0.0);
                c.ratio("pixel", off / slack, || format!("win {win} n {n} {mapname} pixel {x},{y}"));
                if off > slack {
                    return c.fail("sanity-check: wrong pixel", format!("win {win} n {n} map {mapname} range {range} log {log} sixteen {sixteen} flac {fl}: column {x} bin {y} of {height}: got {got:?} want between {lo:?} and {hi:?} (magnitude {v} of {max})"));
                }
            }
        }
    }
}
/// #rrggbb, #rgb or rgb(r, g, b)
fn svg_colour(f: &str) -> Option<[u8; 3]> {
    if let Some(l) = f.strip_prefix("rgb(").and_then(|l| l.strip_suffix(')')) {
        let v: Vec<u8> = l.split(',').map(|x| x.trim().parse().ok()).collect::<Option<_>>()?;
        return v.try_into().ok();
    }
    let h = f.strip_prefix('#')?;
    let v = u32::from_str_radix(h, 16).ok()?;
    match h.len() {
        6 => Some([(v >> 16) as u8, (v >> 8) as u8, v as u8]),
        3 => Some([(v >> 8) as u8 * 17, (v >> 4 & 15) as u8 * 17, (v & 15) as u8 * 17]),
        _ => None,
    }
}
fn pictures_saved(c: &mut Case) {
    let (w, h) = (c.rng.range(1, 40) as u32, c.rng.range(1, 40) as u32);
    let mut img: ImageBuffer<Rgb<u16>, Vec<u16>> = ImageBuffer::new(w, h);
    let flat = c.rng.chance(1, 4);
    let base = [c.rng.below(65536) as u16, 65535, 0];
    // colours: any, from a few steps (so that neighbours and channels coincide), with repeated digits
    let kind = c.rng.below(3);
    let mut channel = |r: &mut crate::fw::Rng| match kind {
        0 => r.below(65536) as u16,
        1 => *r.pick(&[0u16, 0x00ff, 0x0100, 0x7fff, 0x8000, 0xff00, 0xffff]),
        _ => r.below(16) as u16 * 0x1111,
    };
    for p in img.pixels_mut() {
        let v = [channel(&mut c.rng), channel(&mut c.rng), channel(&mut c.rng)];
        *p = Rgb(if flat { base } else { v });
    }
    c.sig(&format!("save {w} {h} {flat}"));
    for (depth, deep) in [(PngDepth::Eight, false), (PngDepth::Sixteen, true)] {
        let out = scratch().join("s.png");
        let Some(r) = c.call("save_png", || save_png(&img, &out, depth).map_err(|e| e.to_string())) else { return };
        if let Err(e) = r {
            return c.fail("save_png: refused", e);
        }
        let back = match image::open(&out) {
            Ok(i) => i,
            Err(e) => return c.fail("save_png: unreadable file", e.to_string()),
        };
        c.check((back.color() == image::ColorType::Rgb16) == deep && back.width() == w && back.height() == h, "save_png: wrong depth or size", || format!("{:?} {}x{}", back.color(), back.width(), back.height()));
        let ok = if deep {
            back.to_rgb16().pixels().zip(img.pixels()).all(|(a, b)| a == b)
        } else {
            back.to_rgb8().pixels().zip(img.pixels()).all(|(a, b)| (0..3).all(|q| (a.0[q] as f64 - b.0[q] as f64 / 257.0).abs() <= 1.0))
        };
        c.check(ok, "save_png: pixels changed", || format!("{w}x{h} deep {deep}"));
    }
    let out = scratch().join("s.svg");
    let Some(r) = c.call("save_svg", || save_svg(&img, &out).map_err(|e| e.to_string())) else { return };
    if let Err(e) = r {
        return c.fail("save_svg: refused", e);
    }
    let t = std::fs::read_to_string(&out).unwrap_or_default();
    let attr = |tag: &str, k: &str| -> Option<String> {
        let i = tag.find(&format!(" {k}=\""))? + k.len() + 3;
        Some(tag[i..i + tag[i..].find('"')?].to_string())
    };
    // painted in document order: what is seen is the last rectangle over a pixel
    let mut seen = vec![None; (w * h) as usize];
    for tag in t.split("<rect").skip(1) {
        let tag = &tag[..tag.find('>').unwrap_or(tag.len())];
        let tag = format!(" {}", tag.trim_start());
        let num = |k: &str| attr(&tag, k).map_or(Some(0), |v| v.parse::<u32>().ok());
        let (Some(x), Some(y), Some(rw), Some(rh), Some(f)) = (num("x"), num("y"), num("width"), num("height"), attr(&tag, "fill")) else { return c.fail("save_svg: unreadable rectangle", tag) };
        let colour = svg_colour(&f);
        if !c.check(colour.is_some() && x.saturating_add(rw) <= w && y.saturating_add(rh) <= h, "save_svg: rectangle out of place or without colour", || tag.clone()) {
            return;
        }
        for j in y..y + rh {
            for i in x..x + rw {
                seen[(j * w + i) as usize] = colour;
            }
        }
    }
    let bad = img.enumerate_pixels().find(|(x, y, p)| seen[(y * w + x) as usize].is_none_or(|v| (0..3).any(|q| (v[q] as f64 - p.0[q] as f64 / 257.0).abs() > 1.0)));
    c.check(bad.is_none(), "save_svg: wrong colour", || format!("{w}x{h} {bad:?}"));
    c.check(attr(&t.replace('\n', " "), "viewBox").is_some_and(|v| v.split_whitespace().collect::<Vec<_>>() == ["0", "0", &w.to_string(), &h.to_string()]), "save_svg: wrong view box", || format!("{w}x{h}"));
}
pub fn p29(x: &mut Ctx) {
    x.run("wav", 80, wav_case);
    x.run("flac", 80, flac_case);
    x.run("picture", 60, picture);
    x.run("saved", 20, pictures_saved);
    x.run("broken", 100, broken);
    x.run("missing", 8, missing);
    let _ = std::fs::remove_dir_all(scratch());
}
