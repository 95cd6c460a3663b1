//! A stand-in for github.com: an HTTPS proxy on the loopback network that answers for every host
//! itself, with a certificate brack is told to trust. It records requests and can fail in the
//! middle of an answer.
use crate::cli::must;
use openssl::asn1::Asn1Time;
use openssl::bn::BigNum;
use openssl::ec::{EcGroup, EcKey};
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{PKey, Private};
use openssl::ssl::{SslAcceptor, SslMethod};
use openssl::x509::extension::{BasicConstraints, SubjectAlternativeName};
use openssl::x509::{X509NameBuilder, X509};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use vh_core::src_choice::Src;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Reply {
    /// 200 with the whole body
    Ok,
    /// 200 without a length; the end of the connection ends the body
    OkUntilClose,
    /// 200 in chunks
    Chunked,
    /// a redirect to another host, which answers 200
    Redirect(u16),
    Status(u16),
    /// 200, but the connection ends after that many thousandths of the body
    Cut(u32),
    /// a chunked body that ends without its last chunk
    CutChunked(u32),
    /// the connection ends before an answer
    Reset,
    /// not HTTP
    Garbage,
    /// a redirect to itself
    Loop,
}

impl Reply {
    pub fn good(&self) -> bool {
        matches!(self, Reply::Ok | Reply::OkUntilClose | Reply::Chunked | Reply::Redirect(_))
    }
}

#[derive(Default)]
pub struct State {
    /// By URL.
    pub replies: HashMap<String, (Reply, Vec<u8>)>,
    pub log: Vec<String>,
}

pub struct Net {
    pub port: u16,
    pub state: Arc<Mutex<State>>,
}

struct Certs {
    ca: PathBuf,
    acceptor: SslAcceptor,
}

fn key() -> PKey<Private> {
    let g = must(EcGroup::from_curve_name(Nid::X9_62_PRIME256V1), "make a key");
    must(PKey::from_ec_key(must(EcKey::generate(&g), "make a key")), "make a key")
}

fn cert(cn: &str, k: &PKey<Private>, issuer: Option<(&X509, &PKey<Private>)>) -> X509 {
    let e = "make a certificate";
    let mut n = must(X509NameBuilder::new(), e);
    must(n.append_entry_by_text("CN", cn), e);
    let n = n.build();
    let mut b = must(X509::builder(), e);
    must(b.set_version(2), e);
    let serial = must(must(BigNum::from_u32(if issuer.is_some() { 2 } else { 1 }), e).to_asn1_integer(), e);
    must(b.set_serial_number(&serial), e);
    must(b.set_subject_name(&n), e);
    must(b.set_issuer_name(issuer.map(|i| i.0.subject_name()).unwrap_or(&n)), e);
    must(b.set_pubkey(k), e);
    // The clock of the sandbox may be anything.
    let (from, to) = (must(Asn1Time::from_str("19800101000000Z"), e), must(Asn1Time::from_str("21500101000000Z"), e));
    must(b.set_not_before(&from), e);
    must(b.set_not_after(&to), e);
    match issuer {
        None => must(b.append_extension(must(BasicConstraints::new().critical().ca().build(), e)), e),
        Some((i, _)) => {
            let x = {
                let c = b.x509v3_context(Some(i), None);
                must(SubjectAlternativeName::new().dns("github.com").dns("objects.githubusercontent.com").build(&c), e)
            };
            must(b.append_extension(x), e)
        }
    }
    must(b.sign(issuer.map(|i| i.1).unwrap_or(k), MessageDigest::sha256()), e);
    b.build()
}

fn certs() -> &'static Certs {
    static C: OnceLock<Certs> = OnceLock::new();
    C.get_or_init(|| {
        let (ck, lk) = (key(), key());
        let ca = cert("vh test authority", &ck, None);
        let leaf = cert("github.com", &lk, Some((&ca, &ck)));
        let f = PathBuf::from(std::env::var("VH_WORK").unwrap_or("/tmp".into())).join("ca.pem");
        must(std::fs::write(&f, must(ca.to_pem(), "write the certificate")), "write the certificate");
        let mut a = must(SslAcceptor::mozilla_intermediate_v5(SslMethod::tls()), "set up TLS");
        must(a.set_private_key(&lk), "set up TLS");
        must(a.set_certificate(&leaf), "set up TLS");
        Certs { ca: f, acceptor: a.build() }
    })
}

fn read_head(s: &mut impl Read) -> Option<String> {
    let mut v = vec![];
    let mut b = [0];
    while !v.ends_with(b"\r\n\r\n") {
        if s.read(&mut b).ok()? == 0 || v.len() > 65536 {
            return None;
        }
        v.push(b[0]);
    }
    Some(String::from_utf8_lossy(&v).into_owned())
}

fn serve(mut tcp: TcpStream, st: Arc<Mutex<State>>) -> Option<()> {
    let _ = tcp.set_read_timeout(Some(Duration::from_secs(20)));
    let head = read_head(&mut tcp)?;
    let host = head.strip_prefix("CONNECT ")?.split(' ').next()?.trim_end_matches(":443").to_string();
    tcp.write_all(b"HTTP/1.1 200 OK\r\n\r\n").ok()?;
    let mut s = certs().acceptor.accept(tcp).ok()?;
    let head = read_head(&mut s)?;
    let path = head.split(' ').nth(1)?.to_string();
    let url = format!("https://{host}{path}");
    let found = {
        let mut g = st.lock().unwrap();
        g.log.push(format!("{} {url}", head.split(' ').next().unwrap_or("")));
        g.replies.get(&url).cloned()
    };
    let (reply, body) = found.unwrap_or((Reply::Status(404), b"not here".to_vec()));
    let part = |k: u32| &body[..(body.len() * k as usize / 1000).min(body.len().saturating_sub(1))];
    let chunked = |b: &[u8], last: bool| {
        let mut v = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".to_vec();
        for c in b.chunks(777) {
            v.extend(format!("{:x}\r\n", c.len()).bytes());
            v.extend(c);
            v.extend(b"\r\n");
        }
        if last {
            v.extend(b"0\r\n\r\n");
        }
        v
    };
    let status = |n: u16, extra: &str, b: &[u8]| {
        let mut v = format!("HTTP/1.1 {n} Some Reason\r\nContent-Length: {}\r\nConnection: close\r\n{extra}\r\n", b.len()).into_bytes();
        v.extend(b);
        v
    };
    let out = match &reply {
        Reply::Ok => status(200, "", &body),
        Reply::OkUntilClose => {
            let mut v = b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".to_vec();
            v.extend(&body);
            v
        }
        Reply::Chunked => chunked(&body, true),
        Reply::Redirect(n) => {
            let to = format!("https://objects.githubusercontent.com{path}?signed=1");
            st.lock().unwrap().replies.insert(to.clone(), (Reply::Ok, body.clone()));
            status(*n, &format!("Location: {to}\r\n"), b"moved")
        }
        Reply::Loop => status(302, &format!("Location: {url}\r\n"), b"again"),
        Reply::Status(n) => status(*n, "", b"<html>not a plugin</html>"),
        Reply::Cut(k) => {
            let mut v = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
            v.extend(part(*k));
            v
        }
        Reply::CutChunked(k) => chunked(part(*k), false),
        Reply::Reset => return None,
        Reply::Garbage => b"\x00\x01 hello\r\n\r\n".to_vec(),
    };
    s.write_all(&out).ok()?;
    let _ = s.flush();
    let _ = s.shutdown();
    Some(())
}

impl Net {
    fn start() -> Net {
        let l = must(TcpListener::bind("127.0.0.1:0"), "listen");
        let port = must(l.local_addr(), "listen").port();
        let state: Arc<Mutex<State>> = Default::default();
        let st = state.clone();
        certs();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let st = st.clone();
                std::thread::spawn(move || serve(c, st));
            }
        });
        Net { port, state }
    }

    pub fn env(&self) -> Vec<(String, String)> {
        let p = format!("http://127.0.0.1:{}", self.port);
        vec![
            ("HTTPS_PROXY".into(), p.clone()),
            ("HTTP_PROXY".into(), p),
            ("SSL_CERT_FILE".into(), certs().ca.display().to_string()),
        ]
    }

    /// Forgets what it answered and what was asked.
    pub fn reset(&self) {
        let mut g = self.state.lock().unwrap();
        g.replies.clear();
        g.log.clear();
    }

    pub fn set(&self, url: &str, r: Reply, body: &[u8]) {
        self.state.lock().unwrap().replies.insert(url.into(), (r, body.to_vec()));
    }

    pub fn take_log(&self) -> Vec<String> {
        std::mem::take(&mut self.state.lock().unwrap().log)
    }
}

thread_local! {
    static NET: std::cell::OnceCell<Net> = const { std::cell::OnceCell::new() };
}

/// The server of this thread.
pub fn with<T>(f: impl FnOnce(&Net) -> T) -> T {
    NET.with(|n| f(n.get_or_init(Net::start)))
}

/// A library that makes the n-th change to the file system fail, or end the process.
pub fn fault_lib() -> &'static Path {
    static L: OnceLock<PathBuf> = OnceLock::new();
    L.get_or_init(|| {
        let w = PathBuf::from(std::env::var("VH_WORK").unwrap_or("/tmp".into()));
        let (c, so) = (w.join("fault.c"), w.join("fault.so"));
        must(std::fs::write(&c, include_str!("fault.c")), "write fault.c");
        let o = must(
            std::process::Command::new("gcc").args(["-shared", "-fPIC", "-O1", "-o"]).arg(&so).arg(&c).arg("-ldl").output(),
            "run gcc",
        );
        if !o.status.success() {
            vh_core::runner::harness_error(format!("gcc: {}", String::from_utf8_lossy(&o.stderr)));
        }
        so
    })
}

/// The at-th change of the file system fails or ends the process.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub at: u64,
    pub kind: String,
}

pub fn gen_fault(s: &mut Src, max: usize) -> Fault {
    Fault { at: s.range(1, max) as u64, kind: s.pick(&["kill", "kill-half", "enospc", "eio"]).to_string() }
}

impl Fault {
    pub fn env(&self, root: &Path, count: &Path) -> Vec<(String, String)> {
        vec![
            ("LD_PRELOAD".into(), fault_lib().display().to_string()),
            ("VH_FAULT_ROOT".into(), root.display().to_string()),
            ("VH_FAULT_AT".into(), self.at.to_string()),
            ("VH_FAULT_KIND".into(), self.kind.clone()),
            ("VH_FAULT_COUNT".into(), count.display().to_string()),
        ]
    }
    /// Runs it; tells whether the fault came and whether it ended the process. A crash is an Err.
    pub fn run(&self, mut c: crate::cli::Cmd, root: &Path, count: &Path) -> Result<(crate::cli::Out, bool, bool), String> {
        let _ = std::fs::remove_file(count);
        c.env.extend(self.env(root, count));
        let o = c.run_raw()?;
        let injected = changes(count) >= self.at;
        let killed = o.signal == Some(9) && injected && self.kills();
        if !killed && (o.signal.is_some() || o.code == Some(101) || o.stderr.contains("panicked at")) {
            return Err(format!("brack crashes ({:?}): {}", o.signal, o.stderr.trim()));
        }
        Ok((o, injected, killed))
    }
    pub fn kills(&self) -> bool {
        self.kind.starts_with("kill")
    }
}

/// How many changes to the file system a run of brack made.
pub fn changes(count: &Path) -> u64 {
    std::fs::read_to_string(count).ok().and_then(|t| t.trim().parse().ok()).unwrap_or(0)
}
