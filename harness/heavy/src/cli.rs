//! Running the brack binary in scratch directories.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use vh_core::runner::harness_error;

pub fn bin() -> &'static Path {
    static B: OnceLock<PathBuf> = OnceLock::new();
    B.get_or_init(|| {
        let d = std::env::current_exe().expect("exe");
        let b = d.parent().expect("dir").join("brack");
        if !b.exists() {
            harness_error(format!("{} is missing", b.display()));
        }
        b
    })
}

/// An empty directory of this thread, in the work directory of the check.
pub fn fresh(name: &str) -> PathBuf {
    let d = vh_core::runner::scratch(name);
    let _ = std::fs::remove_dir_all(&d);
    must(std::fs::create_dir_all(&d), "create a scratch directory");
    d
}

pub fn must<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> T {
    r.unwrap_or_else(|e| harness_error(format!("cannot {what}: {e}")))
}

pub fn put(dir: &Path, name: &str, content: impl AsRef<[u8]>) {
    // U+F8FF stands for a byte that is not UTF-8
    let name: Vec<u8> = name.split('\u{f8ff}').map(str::as_bytes).collect::<Vec<_>>().join(&0xff);
    let p = dir.join(std::ffi::OsStr::from_bytes(&name));
    if let Some(d) = p.parent() {
        must(std::fs::create_dir_all(d), "create a directory");
    }
    must(std::fs::write(&p, content), &format!("write {}", p.display()));
}

#[derive(Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
}

pub struct Cmd<'a> {
    pub dir: &'a Path,
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
}

impl<'a> Cmd<'a> {
    pub fn new(dir: &'a Path, args: &[&str]) -> Self {
        Cmd { dir, args: args.iter().map(|s| s.to_string()).collect(), env: vec![] }
    }
    pub fn env(mut self, k: &str, v: impl Into<String>) -> Self {
        self.env.push((k.into(), v.into()));
        self
    }
    pub fn command(&self) -> Command {
        let mut c = Command::new(bin());
        c.args(&self.args)
            .current_dir(self.dir)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", std::env::var("VH_WORK").unwrap_or("/tmp".into()))
            .env("EXTISM_CACHE_CONFIG", std::env::var("EXTISM_CACHE_CONFIG").unwrap_or_default())
            .env("RUST_BACKTRACE", "0")
            .envs(self.env.iter().cloned());
        c
    }
    /// Runs it to its end. A crash is an Err, as is not ending.
    pub fn run(self) -> Result<Out, String> {
        let o = self.run_raw()?;
        let shown = || format!("brack {:?}: {}", self.args, o.stderr.trim());
        if let Some(s) = o.signal {
            return Err(format!("killed by signal {s}: {}", shown()));
        }
        if o.code == Some(101) || o.stderr.contains("panicked at") {
            return Err(format!("panic: {}", shown()));
        }
        Ok(o)
    }
    pub fn run_raw(&self) -> Result<Out, String> {
        self.run_to(Stdio::piped())
    }
    pub fn run_to(&self, stdout: Stdio) -> Result<Out, String> {
        self.start_to(stdout).end()
    }
    pub fn start(&self) -> Running {
        self.start_to(Stdio::piped())
    }
    fn start_to(&self, stdout: Stdio) -> Running {
        let mut ch = must(
            self.command().stdin(Stdio::null()).stdout(stdout).stderr(Stdio::piped()).spawn(),
            "start brack",
        );
        let (so, mut se) = (ch.stdout.take(), ch.stderr.take().unwrap());
        let a = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = so.map(|mut so| so.read_to_end(&mut v));
            v
        });
        let b = std::thread::spawn(move || {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        Running { ch, out: a, err: b }
    }
}

/// A brack that runs.
pub struct Running {
    ch: std::process::Child,
    out: std::thread::JoinHandle<Vec<u8>>,
    err: std::thread::JoinHandle<Vec<u8>>,
}

impl Running {
    pub fn end(mut self) -> Result<Out, String> {
        let st = wait(&mut self.ch, 30)?;
        Ok(Out {
            code: st.code(),
            signal: st.signal(),
            stdout: self.out.join().unwrap_or_default(),
            stderr: String::from_utf8_lossy(&self.err.join().unwrap_or_default()).into_owned(),
        })
    }
    pub fn kill(&mut self) {
        let _ = self.ch.kill();
    }
    pub fn ended(&mut self) -> bool {
        must(self.ch.try_wait(), "wait for brack").is_some()
    }
}

pub fn wait(ch: &mut std::process::Child, secs: u64) -> Result<std::process::ExitStatus, String> {
    // The time waited, in steps of at most a second: the machine may stand still for a while.
    let mut waited = Duration::ZERO;
    let mut pause = 500;
    loop {
        let t0 = Instant::now();
        if let Some(s) = must(ch.try_wait(), "wait for brack") {
            return Ok(s);
        }
        if waited > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("brack does not end within {secs} s"));
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(5000);
        waited += t0.elapsed().min(Duration::from_secs(1));
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ent {
    Dir,
    Link(PathBuf),
    File(Vec<u8>),
}

pub type Snap = BTreeMap<String, Ent>;

/// All that is in a directory.
pub fn snapshot(dir: &Path) -> Snap {
    fn walk(root: &Path, d: &Path, m: &mut Snap) {
        let Ok(es) = std::fs::read_dir(d) else { return };
        for e in es.flatten() {
            let p = e.path();
            let k = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            let Ok(t) = std::fs::symlink_metadata(&p) else { continue };
            if t.is_symlink() {
                m.insert(k, Ent::Link(std::fs::read_link(&p).unwrap_or_default()));
            } else if t.is_dir() {
                m.insert(k, Ent::Dir);
                walk(root, &p, m);
            } else {
                m.insert(k, Ent::File(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    let mut m = Snap::new();
    walk(dir, dir, &mut m);
    m
}

fn show(e: Option<&Ent>) -> String {
    match e {
        None => "nothing".into(),
        Some(Ent::Dir) => "a directory".into(),
        Some(Ent::Link(p)) => format!("a link to {p:?}"),
        Some(Ent::File(b)) => {
            let s = String::from_utf8_lossy(b);
            let c: String = s.chars().take(200).collect();
            format!("a file of {} bytes {c:?}", b.len())
        }
    }
}

/// Err if the two differ.
pub fn same_files(what: &str, want: &Snap, got: &Snap) -> Result<(), String> {
    for k in want.keys().chain(got.keys()) {
        if want.get(k) != got.get(k) {
            return Err(format!("{what}: {k:?} should be {}, but is {}", show(want.get(k)), show(got.get(k))));
        }
    }
    Ok(())
}

/// A TOML basic string.
pub fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A language server that is being talked to.
pub struct Lsp {
    ch: std::process::Child,
    stdin: Option<std::process::ChildStdin>,
    rx: std::sync::mpsc::Receiver<Vec<u8>>,
    pub raw: Vec<u8>,
    at: usize,
}

pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}

/// The first message of `b`, and its length; Ok(None) if it is not complete.
pub fn parse_frame(b: &[u8]) -> Result<Option<(serde_json::Value, usize)>, String> {
    let Some(h) = b.windows(4).position(|w| w == b"\r\n\r\n") else {
        return Ok(None);
    };
    let head = String::from_utf8_lossy(&b[..h]);
    let n: usize = head
        .strip_prefix("Content-Length: ")
        .and_then(|x| x.parse().ok())
        .ok_or_else(|| format!("the server sends the header {head:?}"))?;
    if b.len() < h + 4 + n {
        return Ok(None);
    }
    let body = &b[h + 4..h + 4 + n];
    let v = serde_json::from_slice(body)
        .map_err(|e| format!("the server sends a message that is not JSON ({e}): {:?}", String::from_utf8_lossy(body)))?;
    Ok(Some((v, h + 4 + n)))
}

impl Lsp {
    pub fn start(dir: &Path, env: Vec<(String, String)>) -> Lsp {
        let c = Cmd { dir, args: vec!["language-server".into()], env };
        let mut ch = must(
            c.command().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn(),
            "start the language server",
        );
        let stdin = ch.stdin.take();
        let mut so = ch.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut b = [0; 65536];
            while let Ok(n) = so.read(&mut b) {
                if n == 0 || tx.send(b[..n].to_vec()).is_err() {
                    break;
                }
            }
        });
        Lsp { ch, stdin, rx, raw: vec![], at: 0 }
    }

    /// False if the server is gone.
    pub fn write(&mut self, b: &[u8]) -> bool {
        match &mut self.stdin {
            Some(s) => s.write_all(b).and_then(|_| s.flush()).is_ok(),
            None => false,
        }
    }

    pub fn send(&mut self, v: &serde_json::Value) -> bool {
        self.write(&frame(v.to_string().as_bytes()))
    }

    /// The next message; None at the end of the output.
    pub fn next(&mut self) -> Result<Option<serde_json::Value>, String> {
        // Counted in short waits: the machine may stand still between them.
        let mut waits = 0;
        loop {
            if let Some((v, n)) = parse_frame(&self.raw[self.at..])? {
                self.at += n;
                return Ok(Some(v));
            }
            match self.rx.recv_timeout(Duration::from_millis(250)) {
                Ok(b) => self.raw.extend(b),
                Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => {
                    if self.at != self.raw.len() {
                        return Err(format!("the output of the server ends within a message: {:?}", String::from_utf8_lossy(&self.raw[self.at..])));
                    }
                    return Ok(None);
                }
                Err(_) if waits < 120 => waits += 1,
                Err(_) => return Err("the language server does not answer within 30 s".into()),
            }
        }
    }

    /// Sends a request of a method that does not exist and reads up to its answer: everything the
    /// server had to say to what was sent before.
    pub fn sync(&mut self, tag: &str) -> Result<Vec<serde_json::Value>, String> {
        let id = serde_json::json!(format!("sync-{tag}"));
        self.send(&serde_json::json!({"jsonrpc": "2.0", "id": id, "method": "vh/sync"}));
        let mut v = vec![];
        loop {
            match self.next()? {
                None => return Err("the language server has ended".into()),
                Some(m) if m["id"] == id => return Ok(v),
                Some(m) => v.push(m),
            }
        }
    }

    /// Closes the input; the rest of the output. Err if the server ends with a failure.
    pub fn finish(&mut self) -> Result<Vec<serde_json::Value>, String> {
        self.stdin = None;
        let mut v = vec![];
        while let Some(m) = self.next()? {
            v.push(m);
        }
        let st = wait(&mut self.ch, 20)?;
        if !st.success() {
            return Err(format!("the language server ends with {st}"));
        }
        Ok(v)
    }
}

impl Drop for Lsp {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
