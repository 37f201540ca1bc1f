//! The bundled web server, as its own process over the loopback network.
use crate::fw::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const ADDR: &str = "127.0.0.1:3000";
struct Server(Child, std::path::PathBuf);
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
        let _ = std::fs::remove_dir_all(&self.1);
    }
}
struct Answer {
    status: u16,
    head: BTreeMap<String, String>,
    body: Vec<u8>,
}
fn ask(method: &str, path: &str, extra: &str) -> Result<Answer, String> {
    let e = |e: std::io::Error| e.to_string();
    let mut s = TcpStream::connect(ADDR).map_err(e)?;
    s.set_read_timeout(Some(Duration::from_secs(20))).map_err(e)?;
    s.write_all(format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n{extra}\r\n").as_bytes()).map_err(e)?;
    let mut v = vec![];
    s.read_to_end(&mut v).map_err(e)?;
    let at = v.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no header in {} bytes", v.len()))?;
    let text = String::from_utf8_lossy(&v[..at]).into_owned();
    let mut lines = text.split("\r\n");
    let status = lines.next().and_then(|l| l.split(' ').nth(1)).and_then(|s| s.parse().ok()).ok_or("no status")?;
    let head: BTreeMap<String, String> = lines.filter_map(|l| l.split_once(':')).map(|(a, b)| (a.trim().to_lowercase(), b.trim().to_string())).collect();
    let mut body = v[at + 4..].to_vec();
    if head.get("transfer-encoding").is_some_and(|t| t.contains("chunked")) {
        let mut out = vec![];
        let mut rest = &body[..];
        loop {
            let p = rest.windows(2).position(|w| w == b"\r\n").ok_or("bad chunk")?;
            let n = usize::from_str_radix(std::str::from_utf8(&rest[..p]).unwrap_or("").trim(), 16).map_err(|e| e.to_string())?;
            if n == 0 {
                break;
            }
            out.extend_from_slice(rest.get(p + 2..p + 2 + n).ok_or("short chunk")?);
            rest = rest.get(p + 4 + n..).ok_or("short chunk")?;
        }
        body = out;
    }
    Ok(Answer { status, head, body })
}
fn start(c: &mut Case, dir: &Path) -> Option<Server> {
    let exe = std::env::current_exe().expect("own path").with_file_name("web-server");
    if TcpStream::connect(ADDR).is_ok() {
        c.cover("server not run: its port is taken");
        return None;
    }
    let mut ch = Command::new(exe).current_dir(dir).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().ok()?;
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            let mut m = String::new();
            if let Some(mut e) = ch.stderr.take() {
                let _ = e.read_to_string(&mut m);
            }
            if m.contains("AddrInUse") || m.contains("PermissionDenied") {
                c.cover("server not run: its port is not available");
            } else {
                c.fail("server: ended at once", format!("{st} {m}"));
            }
            return None;
        }
        if TcpStream::connect(ADDR).is_ok() {
            return Some(Server(ch, dir.to_path_buf()));
        }
        if t.elapsed() > Duration::from_secs(30) {
            let _ = ch.kill();
            let _ = ch.wait();
            c.cover("server not run: it did not answer in time");
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
fn encode(p: &str) -> String {
    p.bytes().map(|b| if b.is_ascii_alphanumeric() || b"/._-".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
fn serve(c: &mut Case) {
    let dir = std::env::temp_dir().join(format!("kverif-web-{}-{}", std::process::id(), c.idx));
    let root = dir.join("static");
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let names = ["index.html", "app.mjs", "sw.js", "manifest.json", "pkg/web_spectrogram.js", "pkg/web_spectrogram_bg.wasm", "a b.txt", "pkg/deep/er/ü.bin", "index.htm", "health.txt", "sub/index.html", "empty"];
    for n in names {
        let len = if n == "empty" { 0 } else { c.rng.logsize(1, 400_000) };
        let b: Vec<u8> = (0..len).map(|_| c.rng.u64() as u8).collect();
        let p = root.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        std::fs::write(p, &b).expect("scratch");
        files.insert(n.to_string(), b);
    }
    let secret: Vec<u8> = (0..500).map(|_| c.rng.u64() as u8).collect();
    std::fs::write(dir.join("secret.txt"), &secret).expect("scratch");
    let Some(_server) = start(c, &dir) else {
        let _ = std::fs::remove_dir_all(&dir);
        return;
    };
    c.sig("served tree");
    let index = files["index.html"].clone();
    // (request path, status, body)
    let mut want: Vec<(String, Option<Vec<u8>>)> = files.iter().map(|(n, b)| (format!("/{}", encode(n)), Some(b.clone()))).collect();
    want.push(("/".into(), Some(index.clone())));
    want.push(("/sub/".into(), Some(files["sub/index.html"].clone())));
    want.push(("/app.mjs?v=3".into(), Some(files["app.mjs"].clone())));
    for p in ["/missing", "/pkg/missing.js", "/some/route/of/the/app", "/index.htmlx", "/healthy"] {
        want.push((p.into(), Some(index.clone())));
    }
    want.push(("/health".into(), None));
    let per = if c.full() { 120 } else { 40 };
    let seeds: Vec<u64> = (0..6).map(|_| c.rng.u64()).collect();
    let (files, want, secret, index) = (&files, &want, &secret, &index);
    let found: Vec<Vec<(bool, String, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&v| {
                s.spawn(move || {
                    let mut r = Rng::new(v);
                    let mut log = vec![];
                    let mut check = |ok: bool, sig: &str, d: String| log.push((ok, sig.to_string(), if ok { String::new() } else { d }));
                    for _ in 0..per {
                        let (p, body) = r.pick(want);
                        let origin = if r.chance(1, 2) { "Origin: http://example.com\r\n" } else { "" };
                        match r.below(8) {
                            0 => match ask("HEAD", p, origin) {
                                Ok(a) => {
                                    let len = a.head.get("content-length").and_then(|v| v.parse::<usize>().ok());
                                    let ok = a.status == 200 && a.body.is_empty() && body.as_ref().is_none_or(|b| len.is_none_or(|l| l == b.len()));
                                    check(ok, "server: wrong answer to HEAD", format!("{p}: {} {len:?} {} bytes", a.status, a.body.len()));
                                }
                                Err(e) => check(false, "server: no answer", format!("HEAD {p}: {e}")),
                            },
                            1 => {
                                // attempts to leave the directory
                                let q = *r.pick(&["/../secret.txt", "/%2e%2e/secret.txt", "/..%2fsecret.txt", "/sub/../../secret.txt", "/pkg/%2e%2e/%2e%2e/secret.txt", "/./../secret.txt", "//../secret.txt", "/..%5csecret.txt"]);
                                match ask("GET", q, origin) {
                                    Ok(a) => check(!a.body.windows(secret.len()).any(|w| w == &secret[..]), "server: file outside its directory", q.to_string()),
                                    Err(e) => check(false, "server: no answer", format!("GET {q}: {e}")),
                                }
                            }
                            2 => {
                                let b = &files["pkg/web_spectrogram_bg.wasm"];
                                let (i, j) = (r.below(b.len()), r.below(b.len()));
                                let (i, j) = (i.min(j), i.max(j));
                                match ask("GET", "/pkg/web_spectrogram_bg.wasm", &format!("{origin}Range: bytes={i}-{j}\r\n")) {
                                    Ok(a) => check(a.status == 206 && a.body == b[i..=j] || a.status == 200 && &a.body == b, "server: wrong part of a file", format!("bytes {i}-{j} of {}: {} {} bytes", b.len(), a.status, a.body.len())),
                                    Err(e) => check(false, "server: no answer", format!("range: {e}")),
                                }
                            }
                            _ => match ask("GET", p, origin) {
                                Ok(a) => {
                                    let ok = a.status == 200 && body.as_ref().is_none_or(|b| *b == a.body);
                                    let what = if body.as_ref() == Some(index) && p != "/" && p != "/index.html" { "server: unknown path does not get the index page" } else { "server: wrong answer" };
                                    check(ok, what, format!("GET {p}: {} {} bytes", a.status, a.body.len()));
                                    let cors = a.head.get("access-control-allow-origin").map(|s| s.as_str());
                                    check(origin.is_empty() || cors == Some("*"), "server: other origins not allowed", format!("GET {p}: {cors:?}"));
                                }
                                Err(e) => check(false, "server: no answer", format!("GET {p}: {e}")),
                            },
                        }
                    }
                    log
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    for (ok, sig, d) in found.into_iter().flatten() {
        c.check(ok, &sig, || d);
    }
    c.cover("requests to the running server");
}
pub fn p31(x: &mut Ctx) {
    x.run("server", 1, |c| {
        if c.idx == 0 {
            serve(c)
        }
    });
}
