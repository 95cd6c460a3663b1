//! The language server, talked to over its standard input and output.
use crate::cli::*;
use crate::cmdline::*;
use crate::net::{self, Reply};
use crate::universe::*;
use crate::wat::plugin_wat;
use brack_plugin::types::Type;
use brack_tokenizer::tokens::Token;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::path::{Path, PathBuf};
use std::time::Duration;
use unicode_segmentation::UnicodeSegmentation;
use vh_core::doc::{emit, gen_doc, Opts};
use vh_core::judge::{check_lexical, check_positions, judged};
use vh_core::node::tokenize;
use vh_core::runner::{pass, Ctx, Res};
use vh_core::src_choice::Src;
use vh_core::text::{gen_soup, gen_word};

pub fn uri(p: &Path) -> String {
    url::Url::from_file_path(p).map(|u| u.to_string()).unwrap_or_default()
}

/// The ways in which clients write one URI.
fn uri_as(style: u8, p: &Path) -> String {
    let hex = |s: &str, keep: &dyn Fn(u8) -> bool, upper: bool| -> String {
        s.bytes()
            .map(|b| match (keep(b), upper) {
                (true, _) => (b as char).to_string(),
                (_, true) => format!("%{b:02X}"),
                _ => format!("%{b:02x}"),
            })
            .collect()
    };
    let path = p.to_str().unwrap_or_default();
    let unreserved = |b: u8| b.is_ascii_alphanumeric() || b"-._~/".contains(&b);
    match style {
        1 => format!("file://{}", hex(path, &unreserved, true)),
        2 => format!("file://{}", hex(path, &unreserved, false)),
        3 => {
            let (dir, name) = path.rsplit_once('/').unwrap_or_default();
            // a segment of dots would be read as a step up or down
            format!("file://{}/{}", hex(dir, &unreserved, true), hex(name, &|_| false, true))
        }
        _ => uri(p),
    }
}

fn gen_style(s: &mut Src) -> u8 {
    *s.pick(&[0, 0, 0, 1, 2, 3])
}

fn initialize(id: J, diagnostics: bool) -> J {
    initialize_as(0, id, diagnostics)
}

/// `initialize` as clients send it that say little (0), what they know (1, 2) or something on every subject (3 and more).
fn initialize_as(client: u8, id: J, diagnostics: bool) -> J {
    let kinds: Vec<u8> = (1..=25).collect();
    let link = json!({"dynamicRegistration": true, "linkSupport": true});
    let dynamic = json!({"dynamicRegistration": true});
    let mut params = match client {
        0 => json!({"processId": null, "rootUri": null, "capabilities": {}}),
        1 => json!({"processId": 4711, "clientInfo": {"name": "Neovim", "version": "0.10"}, "rootPath": "/w", "rootUri": "file:///w",
            "workspaceFolders": [{"uri": "file:///w", "name": "/w"}], "trace": "off",
            "capabilities": {
                "general": {"positionEncodings": ["utf-16"]},
                "textDocument": {"synchronization": {"dynamicRegistration": false, "willSave": true, "willSaveWaitUntil": true, "didSave": true}},
                "workspace": {"applyEdit": true, "configuration": true}}}),
        2 => json!({"processId": 1, "rootUri": null, "workspaceFolders": null, "initializationOptions": {"x": [1, "y"]},
            "capabilities": {
                "experimental": {"anything": true},
                "textDocument": {"completion": {}, "semanticTokens": {"requests": {"full": true}, "tokenTypes": [], "tokenModifiers": [], "formats": []}},
                "unknownSubject": {"a": 1}, "window": {"workDoneProgress": true}}}),
        _ => json!({"processId": 99, "clientInfo": {"name": "Visual Studio Code", "version": "1.89"}, "locale": "ja", "rootPath": "/w s", "rootUri": "file:///w%20s",
            "workspaceFolders": [{"uri": "file:///w%20s", "name": "w s"}, {"uri": "file:///%E6%97%A5", "name": "日"}], "trace": "verbose",
            "capabilities": {
                "general": {"staleRequestSupport": {"cancel": true, "retryOnContentModified": ["textDocument/semanticTokens/full"]},
                    "regularExpressions": {"engine": "ECMAScript", "version": "ES2020"}, "markdown": {"parser": "marked", "version": "1.1.0"},
                    "positionEncodings": ["utf-16", "utf-8", "utf-32"]},
                "notebookDocument": {"synchronization": {"dynamicRegistration": true, "executionSummarySupport": true}},
                "window": {"workDoneProgress": true, "showDocument": {"support": true}, "showMessage": {"messageActionItem": {"additionalPropertiesSupport": true}}},
                "workspace": {"applyEdit": true, "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create", "rename", "delete"],
                        "failureHandling": "textOnlyTransactional", "normalizesLineEndings": true, "changeAnnotationSupport": {"groupsOnLabel": true}},
                    "didChangeConfiguration": dynamic, "didChangeWatchedFiles": {"dynamicRegistration": true, "relativePatternSupport": true},
                    "symbol": {"dynamicRegistration": true, "symbolKind": {"valueSet": kinds}, "tagSupport": {"valueSet": [1]}},
                    "executeCommand": dynamic, "configuration": true, "workspaceFolders": true, "semanticTokens": {"refreshSupport": true},
                    "codeLens": {"refreshSupport": true}, "fileOperations": {"dynamicRegistration": true, "didCreate": true, "willDelete": true}},
                "textDocument": {
                    "synchronization": {"dynamicRegistration": true, "willSave": true, "willSaveWaitUntil": true, "didSave": true},
                    "completion": {"dynamicRegistration": true, "contextSupport": true,
                        "completionItem": {"snippetSupport": true, "commitCharactersSupport": true, "documentationFormat": ["markdown", "plaintext"],
                            "deprecatedSupport": true, "preselectSupport": true, "tagSupport": {"valueSet": [1]}, "insertReplaceSupport": true,
                            "resolveSupport": {"properties": ["documentation", "detail"]}, "insertTextModeSupport": {"valueSet": [1, 2]}, "labelDetailsSupport": true},
                        "insertTextMode": 2, "completionItemKind": {"valueSet": kinds}, "completionList": {"itemDefaults": ["editRange", "data"]}},
                    "hover": {"dynamicRegistration": true, "contentFormat": ["markdown", "plaintext"]},
                    "signatureHelp": {"dynamicRegistration": true, "contextSupport": true},
                    "definition": link, "typeDefinition": link, "implementation": link, "declaration": link,
                    "references": dynamic, "documentHighlight": dynamic, "formatting": dynamic, "colorProvider": dynamic, "selectionRange": dynamic,
                    "documentSymbol": {"dynamicRegistration": true, "symbolKind": {"valueSet": kinds}, "hierarchicalDocumentSymbolSupport": true, "labelSupport": true},
                    "codeAction": {"dynamicRegistration": true, "isPreferredSupport": true, "codeActionLiteralSupport": {"codeActionKind": {"valueSet": ["", "quickfix", "refactor"]}}},
                    "rename": {"dynamicRegistration": true, "prepareSupport": true, "prepareSupportDefaultBehavior": 1, "honorsChangeAnnotations": true},
                    "foldingRange": {"dynamicRegistration": true, "rangeLimit": 5000, "lineFoldingOnly": true},
                    "semanticTokens": {"dynamicRegistration": true, "tokenTypes": ["namespace", "type", "class", "macro", "something"],
                        "tokenModifiers": ["declaration", "async"], "formats": ["relative"], "requests": {"range": true, "full": {"delta": true}},
                        "multilineTokenSupport": false, "overlappingTokenSupport": false, "serverCancelSupport": true, "augmentsSyntaxTokens": true},
                    "linkedEditingRange": dynamic, "inlayHint": {"dynamicRegistration": true, "resolveSupport": {"properties": ["tooltip"]}},
                    "diagnostic": {"dynamicRegistration": true, "relatedDocumentSupport": false}}}}),
    };
    if diagnostics {
        params["capabilities"]["textDocument"]["publishDiagnostics"] = match client {
            0 => json!({}),
            1 => json!({"relatedInformation": true}),
            2 => json!({"relatedInformation": false, "versionSupport": false, "codeDescriptionSupport": true, "dataSupport": false}),
            _ => json!({"relatedInformation": true, "versionSupport": true, "tagSupport": {"valueSet": [1, 2]}, "codeDescriptionSupport": true, "dataSupport": true}),
        };
    }
    json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": params})
}

fn gen_client(s: &mut Src) -> u8 {
    *s.pick(&[0, 0, 1, 2, 3])
}

/// A message of the client. Paths are names of files in the directory of the session.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Msg {
    /// With diagnostics or not, as which client.
    Initialize(J, bool, u8),
    Request(J, String, Option<J>),
    Tokens(J, String),
    Complete(J, String, Option<String>),
    Notify(String, Option<J>),
    Open(String),
    Save(String),
    /// Bytes that are not JSON, in a correct frame.
    NotJson(String),
    /// JSON that is neither a request, a notification nor a response.
    Neither(J),
    Response(J),
}

impl Msg {
    fn body(&self, dir: &Path) -> Vec<u8> {
        let u = |f: &str| if let Some(x) = f.strip_prefix("raw:") { x.to_string() } else { uri(&dir.join(f)) };
        let req = |id: &J, method: &str, params: Option<J>| {
            let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
            if let Some(p) = params {
                v["params"] = p;
            }
            v
        };
        match self {
            Msg::Initialize(id, d, c) => initialize_as(*c, id.clone(), *d),
            Msg::Request(id, m, p) => {
                let mut v = req(id, m, p.clone());
                // members that belong to other messages, or to none
                if let Some(J::String(more)) = p.as_ref().and_then(|p| p.get("vh more")) {
                    v[more] = json!(null);
                }
                v
            }
            Msg::Tokens(id, f) => req(id, "textDocument/semanticTokens/full", Some(json!({"textDocument": {"uri": u(f)}}))),
            Msg::Complete(id, f, t) => {
                let mut p = json!({"textDocument": {"uri": u(f)}, "position": {"line": 0, "character": 0}});
                if let Some(t) = t {
                    p["context"] = json!({"triggerKind": 2, "triggerCharacter": t});
                }
                req(id, "textDocument/completion", Some(p))
            }
            Msg::Notify(m, p) => {
                let mut v = json!({"jsonrpc": "2.0", "method": m});
                if let Some(p) = p {
                    v["params"] = p.clone();
                }
                v
            }
            Msg::Open(f) => json!({"jsonrpc": "2.0", "method": "textDocument/didOpen",
                "params": {"textDocument": {"uri": u(f), "languageId": "brack", "version": 1, "text": ""}}}),
            Msg::Save(f) => json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u(f)}}}),
            Msg::NotJson(t) => return t.clone().into_bytes(),
            Msg::Neither(v) => v.clone(),
            Msg::Response(id) => json!({"jsonrpc": "2.0", "id": id, "result": null}),
        }
        .to_string()
        .into_bytes()
    }

    fn request_id(&self) -> Option<&J> {
        match self {
            Msg::Initialize(i, ..) | Msg::Request(i, ..) | Msg::Tokens(i, _) | Msg::Complete(i, ..) => Some(i),
            _ => None,
        }
    }
}

fn gen_id(s: &mut Src, n: usize) -> J {
    match s.below(6) {
        0..=2 => json!(n as i64),
        3 => json!(-(n as i64) - 1),
        4 => match s.below(4) {
            0 => json!(format!("id-{n}{}", gen_word(s))),
            // texts that look like something else
            1 => json!(n.to_string()),
            2 => json!(format!("{}{n}", s.pick(&["-", "+", " ", "0", "0x", "1e", "\"", "\\", "\u{0}"]))),
            _ => json!(s.pick(&["", " ", "null", "true", "{}", "\n", "id", "-0", "1.5", "日本"])),
        },
        _ => json!(i32::MAX as i64 - n as i64),
    }
}

fn gen_params(s: &mut Src) -> Option<J> {
    match s.below(8) {
        0 => None,
        7 => Some(json!({"vh more": s.pick(&["result", "error", "trace", "x", "version"])})),
        1 => Some(J::Null),
        2 => Some(json!({})),
        3 => Some(json!([1, "x", gen_word(s)])),
        4 => Some(json!({"textDocument": {"uri": *s.pick(&["", "not a uri", "file:", "http://a/b.[]", "untitled:1", "file:///"])}})),
        5 => Some(json!({"textDocument": {"uri": 1}, "x": gen_word(s)})),
        _ => Some(json!({"capabilities": "none", "text": gen_soup(s, 20)})),
    }
}

const METHODS: &[&str] = &[
    "textDocument/hover", "workspace/symbol", "textDocument/semanticTokens/full", "textDocument/completion", "initialize", "$/x", "", "textDocument/definition",
    "日本", "textDocument/semanticTokens/range",
];
const NOTES: &[&str] = &[
    "initialized", "textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "textDocument/didClose", "$/cancelRequest", "$/setTrace", "", "unknown",
];
const FILES: &[&str] = &[
    "docs/a.[]", "docs/b c.[]", "docs/日本.[]", "docs/missing.[]", "docs", "docs/broken.[]", "none/x.[]", "raw:http://example.org/a.[]", "raw:untitled:Untitled-1", "raw:file:///",
];

fn gen_msg(s: &mut Src, n: usize) -> Msg {
    match s.below(12) {
        0 => Msg::Initialize(gen_id(s, n), s.bool(), gen_client(s)),
        1 | 2 => Msg::Request(gen_id(s, n), s.pick(METHODS).to_string(), gen_params(s)),
        3 | 4 => Msg::Tokens(gen_id(s, n), s.pick(FILES).to_string()),
        5 => {
            let t = s.pick(&["[", "{", "<", " ", ".", "x", "none"]).to_string();
            Msg::Complete(gen_id(s, n), s.pick(FILES).to_string(), if t == "none" { None } else { Some(t) })
        }
        6 => Msg::Notify(s.pick(NOTES).to_string(), gen_params(s)),
        7 => Msg::Open(s.pick(FILES).to_string()),
        8 => Msg::Save(s.pick(FILES).to_string()),
        9 => Msg::NotJson(match s.below(5) {
            0 => "".into(),
            1 => "{".into(),
            2 => format!("{{\"id\": 1, \"method\": \"{}", gen_word(s)),
            3 => gen_soup(s, 10) + "]",
            _ => "Content-Length: 3\r\n\r\n{}}".into(),
        }),
        10 => Msg::Neither(match s.below(5) {
            0 => json!({}),
            1 => json!([]),
            2 => json!("x"),
            3 => json!({"jsonrpc": "2.0", "params": {}}),
            _ => json!([{"jsonrpc": "2.0", "id": 1, "method": "textDocument/hover"}]),
        }),
        _ => Msg::Response(gen_id(s, n)),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    texts: Vec<String>,
    msgs: Vec<Msg>,
    /// Of the header of each message.
    headers: Vec<u8>,
    /// Lengths of the pieces in which the bytes are sent; empty: message by message.
    pieces: Vec<usize>,
    config: usize,
}

fn gen_session(s: &mut Src, max: usize) -> Session {
    let n = s.range(1, max);
    let first = if s.chance(3, 4) { vec![Msg::Initialize(json!("init"), s.chance(3, 4), gen_client(s))] } else { vec![] };
    let mut msgs = first;
    for k in 0..n {
        msgs.push(gen_msg(s, k));
    }
    Session {
        texts: (0..3).map(|_| gen_soup(s, 10)).collect(),
        headers: msgs.iter().map(|_| if s.chance(1, 20) { s.range(6, 15) } else { s.below(6) as usize } as u8).collect(),
        msgs,
        pieces: vec![],
        config: s.usize(4),
    }
}

fn lay_out(x: &Session, dir: &Path) {
    for (f, t) in FILES.iter().zip(&x.texts) {
        put(dir, f, t);
    }
    put(dir, "docs/broken.[]", b"text \xff\xfe");
    match x.config {
        0 => {}
        1 => put(dir, "Brack.toml", "[document"),
        _ => put(dir, "Brack.toml", "[document]\nname = \"n\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n"),
    }
}

fn framed(style: u8, body: &[u8]) -> Vec<u8> {
    let n = body.len();
    let mut v = match style {
        0 => format!("Content-Length: {n}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"),
        1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {n}\r\n\r\n"),
        2 => format!("content-length: {n}\r\n\r\n"),
        4 => format!("X-Note: Content-Length: 3\r\nContent-Length: {n}\r\nX-More: a: b\r\n\r\n"),
        5 => format!("CONTENT-LENGTH:{n}\r\n\r\n"),
        // long fields and many, before and after the one that counts
        6..=15 => {
            let long = [500, 1000, 1020, 4090, 8190][style as usize % 5];
            let pad = if style % 2 == 0 { format!("X-Pad: {}\r\n", "p".repeat(long)) } else { "X-Pad: é p\r\n".repeat(long / 12) };
            if style < 11 {
                format!("{pad}Content-Length: {n}\r\n\r\n")
            } else {
                format!("Content-Length: {n}\r\n{pad}\r\n")
            }
        }
        _ => format!("Content-Length: {n}\r\n\r\n"),
    }
    .into_bytes();
    v.extend(body);
    v
}

/// All the server says to the session, and whether it ended well.
fn converse(x: &Session, dir: &Path) -> Result<Vec<J>, String> {
    let all: Vec<Vec<u8>> = x.msgs.iter().zip(&x.headers).map(|(m, h)| framed(*h, &m.body(dir))).collect();
    let mut l = Lsp::start(dir, vec![]);
    if x.pieces.is_empty() {
        for m in &all {
            l.write(m);
        }
    } else {
        let bytes: Vec<u8> = all.concat();
        let mut at = 0;
        for (k, p) in x.pieces.iter().cycle().enumerate() {
            if at >= bytes.len() {
                break;
            }
            let end = (at + p.max(&1)).min(bytes.len());
            l.write(&bytes[at..end]);
            at = end;
            // let the server read what is there, for the first pieces
            if k < 60 {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
    }
    l.finish()
}

fn show_all(v: &[J]) -> String {
    v.iter().map(|m| m.to_string()).collect::<Vec<_>>().join("\n  ")
}

pub const R24: &str = "generated sessions (requests, notifications, invalid messages) whose bytes arrive in generated pieces; non-trivial: some message is cut or two arrive together";

pub fn c24(c: &mut Ctx) {
    c.sub(
        "pieces",
        "the same session sent message by message and in pieces of generated lengths is answered alike",
        600,
        20_000,
        |s| {
            let mut x = gen_session(s, 8);
            if s.chance(1, 4) {
                // longer than any buffer
                let n = s.range(1000, 9000);
                x.msgs.push(Msg::Request(json!("long"), "x".into(), Some(json!({"text": "日本 x".repeat(n / 8)}))));
                x.headers.push(3);
                let k = x.msgs.len();
                x.msgs.push(Msg::Request(json!(k as i64 + 1000), "after".into(), None));
                x.headers.push(3);
            }
            let n = s.range(1, 12);
            x.pieces = (0..n)
                .map(|_| match s.below(5) {
                    0 => 1,
                    1 => s.range(1, 20),
                    2 => s.range(20, 300),
                    3 => *s.pick(&[1023, 1024, 1025, 2048]),
                    _ => s.range(300, 100_000),
                })
                .collect();
            x
        },
        |x: &Session| {
            let dir = fresh("lsp");
            lay_out(x, &dir);
            let mut whole = x.clone();
            whole.pieces.clear();
            let a = converse(&whole, &dir)?;
            let b = converse(x, &dir)?;
            if a != b {
                return Err(format!("in pieces {:?} the session is answered\n  {}\nmessage by message\n  {}", x.pieces, show_all(&b), show_all(&a)));
            }
            pass(x.msgs.len() > 1, format!("{} messages", if x.msgs.len() > 5 { "6+" } else { "1-5" }))
        },
    );
    c.sub(
        "headers",
        "a header without a usable length does not swallow the messages after it",
        300,
        8_000,
        |s| {
            let bad = s.pick(&["X: y\r\n\r\n", "Content-Length: x\r\n\r\n", "\r\n\r\n", "Content-Length: -1\r\n\r\n", "hello\r\n\r\n", "Content-Length\r\n\r\n", "Content-Length: 99999999999999999999999\r\n\r\n"]).to_string();
            let mut x = gen_session(s, 3);
            x.msgs.push(Msg::Request(json!("after"), "vh/after".into(), None));
            x.headers.push(3);
            (x, bad, s.usize(4))
        },
        |(x, bad, at): &(Session, String, usize)| {
            let dir = fresh("lsp");
            lay_out(x, &dir);
            let clean = converse(x, &dir)?;
            let all: Vec<Vec<u8>> = x.msgs.iter().zip(&x.headers).map(|(m, h)| framed(*h, &m.body(&dir))).collect();
            let at = *at % all.len();
            let mut l = Lsp::start(&dir, vec![]);
            for (i, m) in all.iter().enumerate() {
                if i == at {
                    l.write(bad.as_bytes());
                }
                l.write(m);
            }
            let got = l.finish()?;
            let said = |v: &[J]| -> Vec<J> { v.iter().filter(|m| m.get("method").map(|x| x != "window/logMessage").unwrap_or(true)).cloned().collect() };
            let (a, b) = (said(&clean), said(&got));
            let b: Vec<J> = b.into_iter().filter(|m| !m["id"].is_null() || a.contains(m) || m.get("error").is_none()).collect();
            if a != b {
                return Err(format!("after the header {bad:?} the session is answered\n  {}\nwithout it\n  {}", show_all(&b), show_all(&a)));
            }
            pass(true, "bad header")
        },
    );
    c.sub(
        "prompt",
        "a message is answered as soon as its last byte has arrived, whatever its length",
        150,
        4_000,
        |s| {
            let n = s.range(1, 5);
            (0..n)
                .map(|_| {
                    let base = match s.below(16) {
                        0 => *s.pick(&[131_072, 1 << 20, 2_500_000, 1 << 22]),
                        _ => *s.pick(&[1024, 1024, 2048, 4096, 512, 8192, 65536, 300]),
                    };
                    Prompt { length: base + *s.pick(&[0, 0, 0, 1, 2]) - s.usize(2), first: *s.pick(&[0, 0, 1, 20, 200, 299]), header: s.below(6) as u8 }
                })
                .collect()
        },
        |x: &Vec<Prompt>| {
            let dir = fresh("lsp");
            let mut l = Lsp::start(&dir, vec![]);
            for (k, m) in x.iter().enumerate() {
                let body = |pad: usize| json!({"jsonrpc": "2.0", "id": k, "method": "vh/x", "params": {"text": "x".repeat(pad)}}).to_string().into_bytes();
                let mut pad = m.length.saturating_sub(300);
                while framed(m.header, &body(pad)).len() < m.length {
                    pad += (m.length - framed(m.header, &body(pad)).len()).div_ceil(2);
                }
                let f = framed(m.header, &body(pad));
                if m.first > 0 {
                    l.write(&f[..m.first.min(f.len() - 1)]);
                    std::thread::sleep(Duration::from_millis(2));
                }
                l.write(&f[m.first.min(f.len() - 1)..]);
                match l.next().map_err(|e| format!("a message of {} bytes, {} of them sent before: {e}", f.len(), m.first))? {
                    Some(a) if a["id"] == k => {}
                    a => return Err(format!("a message of {} bytes is answered by {a:?}", f.len())),
                }
            }
            l.finish()?;
            pass(true, format!("{} messages", x.len()))
        },
    );
    c.sub(
        "cut",
        "input that ends within a message: what came before is answered, and the server ends without error",
        300,
        8_000,
        |s| (gen_session(s, 5), s.below(1 << 20), s.usize(4)),
        |(x, cut, more): &(Session, u64, usize)| {
            let dir = fresh("lsp");
            lay_out(x, &dir);
            let clean = converse(x, &dir)?;
            let last = framed(*more as u8, &Msg::Request(json!("cut"), "vh/cut".into(), None).body(&dir));
            let mut l = Lsp::start(&dir, vec![]);
            for (m, h) in x.msgs.iter().zip(&x.headers) {
                l.write(&framed(*h, &m.body(&dir)));
            }
            let n = *cut as usize % last.len();
            l.write(&last[..n]);
            let got = l.finish().map_err(|e| format!("input that ends after {n} bytes of a message of {}: {e}", last.len()))?;
            if got != clean {
                return Err(format!("with {n} bytes of another message the session is answered\n  {}\nwithout them\n  {}", show_all(&got), show_all(&clean)));
            }
            pass(n > 0, "cut")
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prompt {
    length: usize,
    /// Bytes sent before the rest.
    first: usize,
    header: u8,
}

pub const R25: &str = "generated sessions of valid and invalid requests, notifications, responses and junk about existing, missing and unreadable files; non-trivial: at least one request";

pub fn c25(c: &mut Ctx) {
    c.sub("sessions", "the answers are counted and matched with the requests; the last request is always answered", 900, 30_000, |s| gen_session(s, 14), |x: &Session| {
        let dir = fresh("lsp");
        lay_out(x, &dir);
        let mut y = x.clone();
        y.msgs.push(Msg::Request(json!("last"), "vh/last".into(), None));
        y.headers.push(3);
        let out = converse(&y, &dir)?;
        for m in &out {
            if m["jsonrpc"] != "2.0" {
                return Err(format!("a message without the version of the protocol: {m}"));
            }
        }
        // requests, invalid messages and their answers, in order
        let mut want: Vec<J> = vec![];
        for m in &y.msgs {
            match m {
                Msg::NotJson(t) => {
                    // what happens to be JSON is a message of its own kind
                    if serde_json::from_str::<J>(t).is_err() {
                        want.push(json!([null, "parse"]));
                    } else {
                        want.push(json!([null, "invalid"]));
                    }
                }
                Msg::Neither(_) => want.push(json!([null, "invalid"])),
                _ => {
                    if let Some(id) = m.request_id() {
                        want.push(json!([id, "answer"]));
                    }
                }
            }
        }
        let mut got: Vec<J> = vec![];
        for m in &out {
            if m.get("method").is_some() {
                if m.get("id").is_some() {
                    return Err(format!("the server sends a request: {m}"));
                }
                continue;
            }
            let (r, e) = (m.get("result").is_some(), m.get("error").is_some());
            if r == e {
                return Err(format!("an answer with both or neither of result and error: {m}"));
            }
            if e && !(m["error"]["code"].is_i64() && m["error"]["message"].is_string()) {
                return Err(format!("an error without code and message: {m}"));
            }
            let kind = match (&m["id"], m["error"]["code"].as_i64()) {
                (J::Null, Some(-32700)) => "parse",
                (J::Null, Some(-32600)) => "invalid",
                (J::Null, _) => return Err(format!("an answer without id: {m}")),
                _ => "answer",
            };
            got.push(json!([m["id"], kind]));
        }
        if want != got {
            return Err(format!("the requests and invalid messages need the answers\n  {}\nbut get\n  {}\nin full:\n  {}", show_all(&want), show_all(&got), show_all(&out)));
        }
        // what is known to be impossible or unknown gets an error, the rest its result
        let answers: Vec<&J> = out.iter().filter(|m| m.get("method").is_none() && !m["id"].is_null()).collect();
        let reqs: Vec<&Msg> = y.msgs.iter().filter(|m| m.request_id().is_some()).collect();
        for (m, a) in reqs.iter().zip(answers) {
            let known = ["textDocument/semanticTokens/full", "textDocument/completion", "initialize"];
            match m {
                Msg::Initialize(..) => {
                    if !a["result"]["capabilities"].is_object() {
                        return Err(format!("`initialize` is answered with {a}"));
                    }
                }
                Msg::Request(_, meth, _) if !known.contains(&meth.as_str()) => {
                    if a["error"]["code"] != -32601 {
                        return Err(format!("a request of the unknown method {meth:?} is answered with {a}"));
                    }
                }
                Msg::Tokens(_, f) => {
                    let file = dir.join(f);
                    let readable = !f.starts_with("raw:") && std::fs::read_to_string(&file).is_ok();
                    if readable && !a["result"]["data"].is_array() {
                        return Err(format!("the semantic tokens of {f:?} are answered with {a}"));
                    }
                    if !readable && a["result"]["data"].is_array() {
                        return Err(format!("the semantic tokens of {f:?}, which cannot be read, are answered with {a}"));
                    }
                }
                _ => {}
            }
        }
        pass(y.msgs.len() > 1 && x.msgs.iter().any(|m| m.request_id().is_some()), format!("{} requests", match reqs.len() { 0..=1 => "0", 2..=4 => "1-3", _ => "4+" }))
    });
}

/// The place of a grapheme position in UTF-16 units.
struct Utf16 {
    /// By line: the offsets of the start of each grapheme, and of the end.
    lines: Vec<Vec<u32>>,
}

impl Utf16 {
    fn new(text: &str) -> Self {
        let mut lines = vec![vec![0]];
        for g in text.graphemes(true) {
            if g == "\n" || g == "\r\n" {
                lines.push(vec![0]);
            } else {
                let l = lines.last_mut().unwrap();
                l.push(l.last().unwrap() + g.encode_utf16().count() as u32);
            }
        }
        Utf16 { lines }
    }
    fn at(&self, (line, ch): (usize, usize)) -> (u64, u64) {
        let l = self.lines.get(line);
        let c = match l {
            Some(l) => l.get(ch).copied().unwrap_or_else(|| l.last().unwrap() + (ch + 1 - l.len()) as u32),
            None => ch as u32,
        };
        (line as u64, c as u64)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// Writes the n-th file and tells it was saved, once or twice, maybe with a text.
    Save(usize, String, bool, Option<String>),
    /// Tells it was saved when it is not there, or not UTF-8.
    Unreadable(usize, bool),
    /// Opens or changes it in the editor; the file is not touched.
    Open(usize, String),
    Change(usize, String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Saves {
    /// With the way their URIs are written.
    files: Vec<(String, u8)>,
    announce: bool,
    client: u8,
    edits: Vec<Edit>,
}

fn gen_saves(s: &mut Src) -> Saves {
    let files: Vec<(String, u8)> = (0..s.range(1, 3)).map(|_| (gen_doc_path(s), gen_style(s))).collect();
    let most = if s.chance(1, 12) { 20 } else { 4 };
    let n = s.range(1, most);
    let edits = (0..n)
        .map(|_| {
            let k = s.usize(files.len());
            match s.below(12) {
                0 => Edit::Unreadable(k, s.bool()),
                1 => Edit::Open(k, gen_text(s)),
                2 => Edit::Change(k, gen_text(s)),
                _ => {
                    let t = if s.chance(1, 20) { gen_text(s).repeat(s.range(2, 6)) } else { gen_text(s) };
                    // what the client says the text is does not count, but the file
                    let said = s.chance(1, 4).then(|| if s.bool() { t.clone() } else { gen_text(s) });
                    Edit::Save(k, t, s.chance(1, 4), said)
                }
            }
        })
        .collect();
    Saves { files, announce: s.chance(7, 8), client: gen_client(s), edits }
}

fn gen_text(s: &mut Src) -> String {
    match s.below(4) {
        0 => emit(&gen_doc(s, &Opts { depth: 3, paras: 3, ..Opts::default() })).source,
        1 => {
            let mut t = emit(&gen_doc(s, &Opts { depth: 2, paras: 2, ..Opts::default() })).source;
            t.push_str(*s.pick(&["]", "[a.b", "{x}", "\\q", ">", "🐦[", "e\u{301}}"]));
            t
        }
        _ => gen_soup(s, 14),
    }
}

fn gen_doc_path(s: &mut Src) -> String {
    s.pick(&["docs/a.[]", "d x/b c.[]", "日本/é#?.[]", "docs/100%.[]", "docs/[x].[]", "plain"]).to_string()
}

type Diag = ((u64, u64), (u64, u64), String);

fn want_diags(text: &str) -> Result<Vec<Diag>, String> {
    let u = Utf16::new(text);
    let mut v: Vec<Diag> = judged(text)?.errors.iter().map(|e| (u.at(e.span.0), u.at(e.span.1), e.message.clone())).collect();
    v.sort();
    Ok(v)
}

fn pos(v: &J) -> (u64, u64) {
    (v["line"].as_u64().unwrap_or(u64::MAX), v["character"].as_u64().unwrap_or(u64::MAX))
}

pub const R26: &str = "histories of saving generated documents and texts under generated paths; non-trivial: some version has diagnostics";

pub fn c26(c: &mut Ctx) {
    c.sub(
        "saves",
        "each save publishes the diagnostics of what the file then holds, in UTF-16 positions, for the URI saved",
        900,
        30_000,
        gen_saves,
        |x: &Saves| {
            let dir = fresh("lsp");
            let mut l = Lsp::start(&dir, vec![]);
            l.send(&initialize_as(x.client, json!(1), x.announce));
            l.sync("init")?;
            let mut any = false;
            let mut saved = 0;
            for (k, e) in x.edits.iter().enumerate() {
                let (Edit::Save(n, ..) | Edit::Unreadable(n, _) | Edit::Open(n, _) | Edit::Change(n, _)) = e;
                let (name, style) = &x.files[*n];
                let file = dir.join(name);
                let u = uri_as(*style, &file);
                let mut save = json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": u}}});
                if let Edit::Save(.., Some(said)) = e {
                    save["params"]["text"] = json!(said);
                }
                let (t, twice) = match e {
                    Edit::Save(_, t, twice, _) => (t, *twice),
                    Edit::Unreadable(_, gone) => {
                        put(&dir, name, b"[a.b \xff");
                        if *gone {
                            must(std::fs::remove_file(&file), "remove a document");
                        }
                        l.send(&save);
                        l.sync(&k.to_string())?;
                        continue;
                    }
                    Edit::Open(_, t) => {
                        l.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": u, "languageId": "brack", "version": k, "text": t}}}));
                        l.sync(&k.to_string())?;
                        continue;
                    }
                    Edit::Change(_, t) => {
                        l.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didChange", "params": {"textDocument": {"uri": u, "version": k}, "contentChanges": [{"text": t}]}}));
                        l.sync(&k.to_string())?;
                        continue;
                    }
                };
                put(&dir, name, t);
                saved += 1;
                let want = want_diags(t)?;
                any |= !want.is_empty();
                for _ in 0..=twice as usize {
                    l.send(&save);
                    let out = l.sync(&k.to_string())?;
                    let pubs: Vec<&J> = out.iter().filter(|m| m["method"] == "textDocument/publishDiagnostics").collect();
                    if pubs.len() != x.announce as usize {
                        return Err(format!("{} publications for one save by a client that {} diagnostics", pubs.len(), if x.announce { "accepts" } else { "does not accept" }));
                    }
                    let Some(p) = pubs.first() else { continue };
                    if p["params"]["uri"] != u {
                        return Err(format!("diagnostics are published for {}, saved was {u:?}", p["params"]["uri"]));
                    }
                    let list = p["params"]["diagnostics"].as_array().ok_or(format!("no list of diagnostics: {p}"))?;
                    let mut got: Vec<Diag> = list.iter().map(|d| (pos(&d["range"]["start"]), pos(&d["range"]["end"]), d["message"].as_str().unwrap_or("?").to_string())).collect();
                    got.sort();
                    if got != want {
                        return Err(format!("version {k} of the file is diagnosed {got:?}\nexpected {want:?}\ntext {t:?}"));
                    }
                }
            }
            l.finish()?;
            pass(any, format!("{saved} saves, {}", if any { "some wrong" } else { "all right" }))
        },
    );
    c.sub(
        "long",
        "texts with mistakes and lines of up to 10000 characters",
        24,
        600,
        |s| {
            let mut t = String::new();
            for _ in 0..s.range(1, 3) {
                t.push_str(&s.pick(&["x", "é", "😀", "e\u{301}", " "]).repeat(*s.pick(&[255, 256, 1000, 4096, 10_000])));
                t.push_str(*s.pick(&["[a.b", "]", "{x}", "[a.b ,]", "\n", "\\x", "[a.b]", "[a]"]));
            }
            t
        },
        |t: &String| {
            let dir = fresh("lsp");
            put(&dir, "a.[]", t);
            let mut l = Lsp::start(&dir, vec![]);
            l.send(&initialize(json!(1), true));
            l.sync("init")?;
            l.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didSave", "params": {"textDocument": {"uri": uri(&dir.join("a.[]"))}}}));
            let out = l.sync("x")?;
            let p = out.iter().find(|m| m["method"] == "textDocument/publishDiagnostics").ok_or("nothing is published")?;
            let list = p["params"]["diagnostics"].as_array().ok_or(format!("no list of diagnostics: {p}"))?;
            let mut got: Vec<Diag> = list.iter().map(|d| (pos(&d["range"]["start"]), pos(&d["range"]["end"]), d["message"].as_str().unwrap_or("?").to_string())).collect();
            got.sort();
            let want = want_diags(t)?;
            if got != want {
                return Err(format!("diagnosed {got:?}\nexpected {want:?}"));
            }
            pass(!want.is_empty(), format!("{} errors", want.len()))
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Colour {
    file: String,
    /// Of its URI.
    style: u8,
    client: u8,
    texts: Vec<String>,
}

/// (line, start, length, type)
fn want_tokens(text: &str, legend: &[String]) -> Result<Vec<(u64, u64, u64, u64)>, String> {
    let u = Utf16::new(text);
    let ty = |n: &str| legend.iter().position(|l| l == n).map(|i| i as u64).ok_or(format!("the legend has no {n}"));
    let mut v = vec![];
    check_positions(text)?;
    check_lexical(text)?;
    for t in tokenize(text)? {
        let n = match &t {
            Token::Module(..) => "namespace",
            Token::Ident(..) => "variable",
            Token::AngleBracketOpen(_) | Token::AngleBracketClose(_) => "macro",
            Token::CurlyBracketOpen(_) | Token::CurlyBracketClose(_) => "method",
            Token::SquareBracketOpen(_) | Token::SquareBracketClose(_) => "function",
            _ => continue,
        };
        let l = t.get_location();
        let (a, b) = (u.at((l.start.line, l.start.character)), u.at((l.end.line, l.end.character)));
        v.push((a.0, a.1, b.1 - a.1, ty(n)?));
    }
    Ok(v)
}

fn check_colour(x: &Colour) -> Res {
    let dir = fresh("lsp");
    let mut l = Lsp::start(&dir, vec![]);
    l.send(&initialize_as(x.client, json!("i"), false));
    let out = l.sync("init")?;
    let caps = out.iter().find(|m| m["id"] == "i").map(|m| m["result"]["capabilities"].clone()).unwrap_or_default();
    let legend: Vec<String> = serde_json::from_value(caps["semanticTokensProvider"]["legend"]["tokenTypes"].clone()).map_err(|_| format!("no legend: {caps}"))?;
    let mut n = 0;
    for (k, t) in x.texts.iter().enumerate() {
        put(&dir, &x.file, t);
        l.send(&json!({"jsonrpc": "2.0", "id": k, "method": "textDocument/semanticTokens/full", "params": {"textDocument": {"uri": uri_as(x.style, &dir.join(&x.file))}}}));
        let out = l.sync(&k.to_string())?;
        let a = out.iter().find(|m| m["id"] == k).ok_or("no answer")?;
        let data: Vec<u64> = serde_json::from_value(a["result"]["data"].clone()).map_err(|_| format!("no tokens: {a}\ntext {t:?}"))?;
        if data.len() % 5 != 0 {
            return Err(format!("{} numbers", data.len()));
        }
        let (mut line, mut ch) = (0, 0);
        let got: Vec<(u64, u64, u64, u64)> = data
            .chunks(5)
            .map(|d| {
                if d[0] > 0 {
                    ch = 0;
                }
                line += d[0];
                ch += d[1];
                (line, ch, d[2], d[3])
            })
            .collect();
        let want = want_tokens(t, &legend)?;
        if got != want {
            return Err(format!("semantic tokens {got:?}\nexpected {want:?}\ntext {t:?}"));
        }
        n = n.max(got.len());
    }
    l.finish()?;
    pass(n > 1, format!("{} tokens", match n { 0 => "0", 1..=4 => "1-4", _ => "5+" }))
}

pub const R27: &str = "generated documents and texts; non-trivial: at least two semantic tokens";

pub fn c27(c: &mut Ctx) {
    c.sub(
        "tokens",
        "the semantic tokens are decoded with the announced legend and compared with the places of names and brackets in UTF-16 units",
        900,
        30_000,
        |s| Colour { file: gen_doc_path(s), style: gen_style(s), client: gen_client(s), texts: (0..s.range(1, 3)).map(|_| gen_text(s)).collect() },
        check_colour,
    );
    c.sub(
        "documents",
        "well-formed documents: the tokens of names and brackets where the generator wrote them",
        500,
        15_000,
        |s| gen_doc(s, &Opts { depth: 4, paras: 4, ..Opts::default() }),
        |d: &vh_core::doc::Doc| {
            let dir = fresh("lsp");
            let e = emit(d);
            put(&dir, "a.[]", &e.source);
            let u = Utf16::new(&e.source);
            let mut l = Lsp::start(&dir, vec![]);
            l.send(&json!({"jsonrpc": "2.0", "id": 1, "method": "textDocument/semanticTokens/full", "params": {"textDocument": {"uri": uri(&dir.join("a.[]"))}}}));
            let out = l.sync("x")?;
            let a = out.iter().find(|m| m["id"] == 1).ok_or("no answer")?;
            let data: Vec<u64> = serde_json::from_value(a["result"]["data"].clone()).map_err(|_| format!("no tokens: {a}"))?;
            let (mut line, mut ch) = (0, 0);
            let mut got = vec![];
            for d in data.chunks(5) {
                if d[0] > 0 {
                    ch = 0;
                }
                line += d[0];
                ch += d[1];
                got.push(((line, ch), (line, ch + d[2])));
            }
            let want: Vec<((u64, u64), (u64, u64))> = e
                .tokens
                .iter()
                .filter(|t| t.kind.contains("Bracket") || t.kind == "Module" || t.kind == "Ident")
                .map(|t| (u.at(t.span.0), u.at(t.span.1)))
                .collect();
            if got != want {
                return Err(format!("semantic tokens at {got:?}\nexpected {want:?}\ntext {:?}", e.source));
            }
            pass(want.len() > 1, format!("{} tokens", match want.len() { 0 => "0", 1..=4 => "1-4", _ => "5+" }))
        },
    );
    c.sub(
        "far-apart",
        "names and brackets many lines or columns apart, long names, and many of them",
        120,
        1_500,
        |s| {
            let n = s.range(1, 4);
            let mut t = String::new();
            for _ in 0..n {
                let big = *s.pick(&[127, 128, 255, 256, 257, 300, 511, 512, 1000]);
                match s.below(9) {
                    // two of them exactly so many lines apart, the second to the right of the first
                    7 | 8 => {
                        let lines = *s.pick(&[10, 16, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 4096]);
                        let at = s.range(1, 6);
                        let two = s.pick(&["[a.b]", "{x.y z}", "]", "<m.n>", "a[b.c]"]).to_string();
                        t.push_str(&format!("\n{}{two}{}{}", " ".repeat(at), s.pick(&["\n", "\r\n"]).repeat(lines), " ".repeat(at + s.range(0, 4))));
                    }
                    6 => t.push_str(&s.pick(&["x", "é", "😀", "e\u{301}", " "]).repeat(*s.pick(&[4096, 10_000, 20_000]))),
                    0 | 1 => t.push_str(&s.pick(&["\n", "\n\n", "x\n", "\r\n"]).repeat(big)),
                    2 => t.push_str(&s.pick(&["x", " ", "é", "😀", "e\u{301}"]).repeat(big)),
                    3 => t.push_str(&format!("[{}.{} x]", "m".repeat(big), "漢".repeat(s.range(1, 300)))),
                    4 => t.push_str(&s.pick(&["[a.b]", "{a.b c}\n", "<a.b>", "[a.b {c.d e}]\n\n"]).repeat(big / 4)),
                    _ => t.push_str(&format!("[a.b {} {{c.d}}]", s.pick(&["\n", "x", " ", "\r\n  "]).repeat(big))),
                }
                t.push_str(*s.pick(&["[a.b]", "]", "{x.y z}", "<m.n>", "   [a.b]"]));
            }
            Colour { file: "a.[]".into(), style: 0, client: 0, texts: vec![t] }
        },
        check_colour,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Proj {
    u: Universe,
    conf: Conf,
    /// Per plugin: stored before, or downloaded when a document is opened.
    stored: Vec<bool>,
    reply: Reply,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act2 {
    /// Opens a document of the n-th project, or of none.
    Open(usize),
    Complete(Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Completion {
    projects: Vec<Proj>,
    acts: Vec<Act2>,
}

fn gen_arg_type(s: &mut Src, depth: usize) -> Type {
    match s.below(if depth > 0 { 7 } else { 5 }) {
        0 => Type::TInline,
        1 => Type::TBlock,
        2 => Type::TAST,
        3 => Type::TInlineCmd(s.pick(&["x", "", "std.a"]).to_string()),
        4 => Type::TBlockCmd(s.pick(&["x", "", "std.a"]).to_string()),
        5 => Type::TOption(Box::new(gen_arg_type(s, depth - 1))),
        _ => Type::TArray(Box::new(gen_arg_type(s, depth - 1))),
    }
}

fn gen_proj(s: &mut Src) -> Proj {
    let mut u = if s.chance(1, 10) { Universe { plugins: vec![] } } else { gen_universe(s, true) };
    // names that may stand in a URL
    for (k, p) in u.plugins.iter_mut().enumerate() {
        p.name = format!("{}{k}", s.pick(&["std", "x_y", "a-b", "M", &"long".repeat(30)]));
        if s.chance(1, 4) {
            for c in &mut p.specs {
                if s.bool() {
                    c.name = c.name.repeat(*s.pick(&[2, 10, 30, 80, 300]));
                }
            }
        }
        let mut extra = vec![];
        if s.chance(1, 4) && !p.specs.is_empty() {
            let k = s.usize(p.specs.len());
            p.specs[k].name.push_str(s.pick(&["$1", "$0", "$x", "${1", "$$"]));
        }
        for c in &p.specs {
            if s.chance(1, 3) {
                let mut c = c.clone();
                let inline = || Box::new(Type::TInline);
                c.ret = match s.below(6) {
                    k @ 0..=2 => [Type::TInline, Type::TBlock, Type::TAST][k as usize].clone(),
                    3 => Type::TOption(inline()),
                    4 => Type::TArray(inline()),
                    _ => [Type::TInlineCmd("x".into()), Type::TBlockCmd("x".into())][s.usize(2)].clone(),
                };
                if s.bool() {
                    c.args = (0..s.range(1, 3)).map(|_| gen_arg_type(s, 2)).collect();
                }
                extra.push(c);
            }
        }
        for c in extra {
            if !p.specs.iter().any(|x| x.name == c.name && x.ret == c.ret) {
                p.specs.push(c);
            }
        }
    }
    let names: Vec<(String, [bool; 4])> = u.plugins.iter().map(|p| (p.name.clone(), [false; 4])).collect();
    let mut conf = gen_conf(s, &names);
    conf.backend = s.pick(&["html", "tex"]).to_string();
    let stored = u.plugins.iter().map(|_| s.chance(3, 4)).collect();
    Proj { u, conf, stored, reply: if s.chance(7, 8) { Reply::Ok } else { Reply::Status(404) } }
}

pub const R28: &str = "one or two projects with generated plugins, stored or to be downloaded, documents of which are opened in any order, and completion requests with all triggers; non-trivial: some completion offers a command";

pub fn c28(c: &mut Ctx) {
    c.sub(
        "histories",
        "opening documents of projects and of none, and completing with each trigger character",
        500,
        12_000,
        |s| {
            let n = s.range(1, 2);
            let projects: Vec<Proj> = (0..n).map(|_| gen_proj(s)).collect();
            let early = s.chance(5, 6);
            let most = if s.chance(1, 12) { 40 } else { 8 };
            let acts = (0..s.range(2, most))
                .map(|k| match s.below(3) {
                    _ if k == 0 && early => Act2::Open(s.usize(n)),
                    0 => Act2::Open(s.usize(n + 4)),
                    _ => Act2::Complete(match s.below(7) {
                        0 | 1 => Some("[".into()),
                        2 | 3 => Some("{".into()),
                        4 => Some("<".into()),
                        5 => Some(s.pick(&[" ", ".", "x", "]"]).to_string()),
                        _ => None,
                    }),
                })
                .collect();
            Completion { projects, acts }
        },
        |x: &Completion| net::with(|net| run_completion(x, net)),
    );
}

/// What a client inserts for a snippet, NUL standing for the place of the cursor.
fn inserted(snippet: &str) -> String {
    let mut out = String::new();
    let mut it = snippet.chars().peekable();
    while let Some(c) = it.next() {
        match (c, it.peek().copied()) {
            ('\\', Some(e)) if "$}\\".contains(e) => {
                out.push(e);
                it.next();
            }
            ('$', Some('0')) => {
                out.push('\0');
                it.next();
            }
            ('$', Some(e)) if e.is_alphanumeric() || e == '_' || e == '{' => out.push_str("(a variable)"),
            _ => out.push(c),
        }
    }
    out
}

fn run_completion(x: &Completion, net: &net::Net) -> Res {
    net.reset();
    let dir = fresh("lsp");
    let mut ready: Vec<bool> = vec![];
    for (i, p) in x.projects.iter().enumerate() {
        let root = dir.join(format!("p{i}"));
        put(&root, "Brack.toml", p.conf.toml(i));
        put(&root, "docs/a b.[]", "");
        for (plug, st) in p.u.plugins.iter().zip(&p.stored) {
            let w = plugin_wat(&plug.specs);
            if *st {
                put(&root, &p.conf.stored(&plug.name), &w);
            } else {
                let c = &p.conf.plugins.as_ref().unwrap()[&plug.name];
                let u = format!("https://github.com/{}/{}/releases/download/{}/{}.{}.wasm", c.owner, c.repo, c.version, plug.name, p.conf.backend);
                // two projects may want different things from one place
                if net.state.lock().unwrap().replies.get(&u).is_some_and(|(r, b)| *r != p.reply || b != w.as_bytes()) {
                    return pass(false, "two projects, one URL");
                }
                net.set(&u, p.reply.clone(), w.as_bytes());
            }
        }
        ready.push(p.reply.good() || p.stored.iter().all(|s| *s));
    }
    let n = x.projects.len();
    put(&dir, "alone/docs/x.[]", "");
    // projects that do not load, and documents that are not where a project has them
    put(&dir, "bad/docs/x.[]", "");
    put(&dir, "bad/Brack.toml", "[document]\nname = \"x\"\n");
    let mut l = Lsp::start(&dir, net.env());
    l.send(&initialize(json!("i"), true));
    let out = l.sync("init")?;
    let told = out.iter().find(|m| m["id"] == "i").map(|m| m["result"]["capabilities"]["completionProvider"]["triggerCharacters"].clone()).unwrap_or_default();
    for t in ["[", "{", "<"] {
        if !told.as_array().is_some_and(|v| v.contains(&json!(t))) {
            return Err(format!("the server does not announce that {t} triggers completion, but {told}"));
        }
    }
    let mut current: Option<usize> = None;
    let mut offered = 0;
    for (k, a) in x.acts.iter().enumerate() {
        match a {
            Act2::Open(i) => {
                let f = match i.wrapping_sub(n) {
                    0 => dir.join("alone/docs/x.[]"),
                    1 => dir.join("bad/docs/x.[]"),
                    2 => dir.join("nowhere/docs/x.[]"),
                    3 => PathBuf::from("/x.[]"),
                    _ => dir.join(format!("p{i}/docs/a b.[]")),
                };
                l.send(&json!({"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": {"textDocument": {"uri": uri(&f), "languageId": "brack", "version": 1, "text": ""}}}));
                let out = l.sync(&k.to_string())?;
                if *i < n && ready[*i] {
                    current = Some(*i);
                    if let Some(m) = out.iter().find(|m| m["method"] == "window/logMessage") {
                        return Err(format!("opening a document of a correct project is answered with {m}"));
                    }
                }
            }
            Act2::Complete(t) => {
                let mut p = json!({"textDocument": {"uri": uri(&dir.join("p0/docs/a b.[]"))}, "position": {"line": 0, "character": 0}});
                p["context"] = match t {
                    Some(t) => json!({"triggerKind": 2, "triggerCharacter": t}),
                    None => json!({"triggerKind": 1}),
                };
                l.send(&json!({"jsonrpc": "2.0", "id": k, "method": "textDocument/completion", "params": p}));
                let out = l.sync(&k.to_string())?;
                let a = out.iter().find(|m| m["id"] == k).ok_or("no answer")?;
                let items: Vec<&J> = match &a["result"] {
                    J::Array(v) => v.iter().collect(),
                    J::Null if a.get("error").is_none() => vec![],
                    o => return Err(format!("completion is answered with {o} {a}")),
                };
                let (ret, close) = match t.as_deref() {
                    Some("[") => (Type::TInline, "]"),
                    Some("{") => (Type::TBlock, "}"),
                    Some("<") => (Type::TAST, ">"),
                    _ => (Type::TArray(Box::new(Type::TAST)), ""),
                };
                let mut want: Vec<(String, String)> = vec![];
                if let Some(i) = current {
                    for p in &x.projects[i].u.plugins {
                        for c in p.specs.iter().filter(|c| c.ret == ret) {
                            let label = format!("{}.{}", p.name, c.name);
                            want.push((label.clone(), format!("{label} \0{close}")));
                        }
                    }
                }
                let mut got: Vec<(String, String)> = items
                    .iter()
                    .map(|i| (i["label"].as_str().unwrap_or("?").to_string(), inserted(i["insertText"].as_str().unwrap_or("?"))))
                    .collect();
                want.sort();
                got.sort();
                if want != got {
                    return Err(format!("completing {t:?} in project {current:?} offers {got:?}\nexpected {want:?}"));
                }
                if items.iter().any(|i| i["insertTextFormat"] != 2) {
                    return Err(format!("the insertions are not marked as snippets: {a}"));
                }
                offered += got.len();
            }
        }
    }
    l.finish()?;
    for (i, p) in x.projects.iter().enumerate() {
        for (k, v) in snapshot(&dir.join(format!("p{i}/plugins"))) {
            let whole = p.u.plugins.iter().any(|g| p.conf.stored(&g.name) == format!("plugins/{k}") && v == Ent::File(plugin_wat(&g.specs).into_bytes()));
            if !whole {
                return Err(format!("the server leaves plugins/{k} in project {i}"));
            }
        }
    }
    if dir.join("plugins").exists() || dir.join("alone/plugins").exists() {
        return Err("the server stores plugins outside of the project".into());
    }
    pass(offered > 0, format!("{} offered", match offered { 0 => "0", 1..=4 => "1-4", _ => "5+" }))
}
