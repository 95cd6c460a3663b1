//! `brack compile`, `brack build`, `brack new` and the project configuration.
use crate::cli::*;
use crate::pipeline::expected;
use crate::universe::*;
use crate::wat::{plugin_wat, Act, Spec};
use brack_plugin::types::Type;
use brack_project_manager::{config::Config, plugin::PluginSchema, project::Project};
use brack_tokenizer::tokens::Token;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use vh_core::doc::{emit, gen_doc, Doc, Opts, Para};
use vh_core::judge::judged;
use vh_core::runner::{harness_error, pass, Ctx, Res};
use vh_core::src_choice::Src;
use vh_core::text::{gen_name, gen_soup, gen_word};

/// Plugins whose outputs do not depend on the random ids of the tree.
pub fn gen_det_universe(s: &mut Src) -> Universe {
    let mut u = gen_universe(s, true);
    for (p, plug) in u.plugins.iter_mut().enumerate() {
        for (k, c) in plug.specs.iter_mut().enumerate() {
            if matches!(c.act, Act::Quote(..)) {
                c.act = Act::Const(text_json(&format!("q{p}{k}"), &format!("mac{p}{k}")));
            }
        }
    }
    u
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Text {
    Doc(Doc),
    Any(String),
}

impl Text {
    pub fn source(&self) -> String {
        match self {
            Text::Doc(d) => emit(d).source,
            Text::Any(t) => t.clone(),
        }
    }
}

/// What a text compiles to, or why it does not.
pub fn compiled(u: &Universe, text: &str) -> Result<Result<String, Refusal>, String> {
    let f = judged(text)?;
    if let Some(e) = f.errors.first() {
        return Ok(Err(format!("{e:?}")));
    }
    Ok(expected(u, &f.ast).1)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compile {
    u: Universe,
    text: Text,
    suffixes: Vec<String>,
    others: Vec<(String, String)>,
    /// How the directory of the plugins is given.
    via: u8,
    file: String,
    /// How each plugin, and then the document, lies there.
    links: Vec<Link>,
}

/// How a file lies at its place.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Link {
    Itself,
    /// A symbolic link to a file elsewhere, by its absolute or relative path.
    Absolute,
    Relative,
    /// A link to a link.
    Twice,
    /// One more name of a file elsewhere.
    Hard,
}

pub fn gen_link(s: &mut Src) -> Link {
    if s.chance(3, 4) {
        return Link::Itself;
    }
    *s.pick(&[Link::Absolute, Link::Relative, Link::Twice, Link::Hard])
}

/// Puts a file below `dir`, itself or in `dir`/else where and a link to it.
pub fn put_as(dir: &Path, name: &str, body: impl AsRef<[u8]>, link: Link) {
    let at = dir.join(name);
    if link == Link::Itself || at.symlink_metadata().is_ok() {
        // through a link that is there already
        return put(dir, name, body);
    }
    if let Some(p) = at.parent() {
        must(std::fs::create_dir_all(p), "create a directory");
    }
    let n = dir.join("else where").read_dir().map(|d| d.count()).unwrap_or(0);
    let real = format!("else where/{n} x");
    put(dir, &real, body);
    let up = "../".repeat(Path::new(name).components().filter(|c| matches!(c, std::path::Component::Normal(_))).count() - 1);
    let made = match link {
        Link::Absolute | Link::Itself => std::os::unix::fs::symlink(dir.join(&real), &at),
        Link::Relative => std::os::unix::fs::symlink(format!("{up}{real}"), &at),
        Link::Hard => std::fs::hard_link(dir.join(&real), &at),
        Link::Twice => {
            let mid = format!("else where/{n} y");
            must(std::os::unix::fs::symlink(format!("{n} x"), dir.join(&mid)), "make a link");
            std::os::unix::fs::symlink(format!("{up}{mid}"), &at)
        }
    };
    must(made, "make a link");
}

fn gen_suffix(s: &mut Src) -> String {
    s.pick(&["a", "0", "html", "V1", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"]).to_string()
}

fn gen_file_name(s: &mut Src) -> String {
    let base = gen_name(s);
    match s.below(4) {
        0 => format!("{base}.x.[]"),
        1 => format!("dir {base}/y z.[]"),
        2 if s.bool() => s.pick(&[".[]", "./x.[]", "_.[]", "[].[]", ".x.[]", "A/b//c.[]", "日 本.[]"]).to_string(),
        _ => format!("{base}.[]"),
    }
}

fn gen_compile(s: &mut Src, text: impl Fn(&mut Src, &Universe) -> Text) -> Compile {
    let mut u = gen_det_universe(s);
    if s.chance(1, 4) {
        wild_macros(s, &mut u);
    }
    let text = text(s, &u);
    let suffixes = u.plugins.iter().map(|_| gen_suffix(s)).collect();
    let others = ["README.md", "x.wasm", "_abc.wasm", "a_.wasm", "a_b.wasm.tmp", "a_b-c.wasm", "a_bXwasm", ".hidden", "a_b.WASM", "a_b.wasm~", "sub/a_b.wasm", "a_b", "b\u{f8ff}.txt", "a_é.wasm", "a_b٣.wasm", "a_日本.wasm", "a_ｂ.wasm", "a_b .wasm", "a_b\n.wasm", "a_b.wasm\n"]
        .iter()
        .filter_map(|n| s.chance(1, 4).then(|| (n.to_string(), gen_word(s))))
        .collect();
    let links = (0..=u.plugins.len()).map(|_| gen_link(s)).collect();
    Compile { u, text, suffixes, others, via: *s.pick(&[0, 0, 1, 2, 3, 4]), file: gen_file_name(s), links }
}

fn lay_out(c: &Compile, dir: &Path) {
    must(std::fs::create_dir_all(dir.join("plug ins")), "create a directory");
    let mut links = c.links.iter().rev().copied().chain(std::iter::repeat(Link::Itself));
    let link = links.next().unwrap_or(Link::Itself);
    for ((p, x), l) in c.u.plugins.iter().zip(&c.suffixes).zip(links) {
        put_as(dir, &format!("plug ins/{}_{x}.wasm", p.name), plugin_wat(&p.specs), l);
    }
    for (n, t) in &c.others {
        put(dir, &format!("plug ins/{n}"), t);
    }
    put_as(dir, &c.file, c.text.source(), link);
}

fn compile_cmd<'a>(c: &Compile, dir: &'a Path, level: Option<u8>, json: bool) -> Cmd<'a> {
    let mut a = vec!["compile", "-b", "html", "-f", &c.file];
    let l = level.map(|l| l.to_string());
    if let Some(l) = &l {
        a.extend(["--output-level", l]);
    }
    if json {
        a.push("--json");
    }
    let path = dir.join("plug ins");
    a.extend(match c.via {
        1 => vec![],
        2 => vec!["-p", "./plug ins/"],
        3 => vec!["--plugins-dir-path", path.to_str().unwrap_or_default()],
        _ => vec!["-p", "plug ins"],
    });
    let cmd = Cmd::new(dir, &a);
    match c.via {
        1 => cmd.env("BRACK_PLUGINS_PATH", "plug ins"),
        // what is said in the command line counts
        4 => cmd.env("BRACK_PLUGINS_PATH", "nowhere"),
        _ => cmd,
    }
}

/// An output, or an error and no output.
fn judge(what: &str, o: &Out, want: &Result<String, Refusal>, src: &str) -> Result<(), String> {
    match want {
        Err(w) if unspecified(w) => {
            if !o.ok() && (!o.stdout.is_empty() || o.stderr.trim().is_empty()) {
                return Err(format!("{what} fails with {:?} and {:?}\nsource: {src:?}", o.text(), o.stderr));
            }
        }
        Ok(w) => {
            if !o.ok() {
                return Err(format!("{what} fails ({:?}): {}\nexpected {w:?}\nsource: {src:?}", o.code, o.stderr.trim()));
            }
            if o.stdout != format!("{w}\n").into_bytes() {
                return Err(format!("{what} gives {:?}\nexpected   {:?}\nsource: {src:?}", o.text(), format!("{w}\n")));
            }
        }
        Err(w) => {
            if o.ok() {
                return Err(format!("{what} should fail ({w}) but succeeds with {:?}\nsource: {src:?}", o.text()));
            }
            if !o.stdout.is_empty() {
                return Err(format!("{what} fails but writes {:?}\nsource: {src:?}", o.text()));
            }
            if o.stderr.trim().is_empty() {
                return Err(format!("{what} fails without saying why\nsource: {src:?}"));
            }
        }
    }
    Ok(())
}

fn check_compile(c: &Compile) -> Res {
    let dir = fresh("compile");
    lay_out(c, &dir);
    let before = snapshot(&dir);
    let src = c.text.source();
    let want = compiled(&c.u, &src)?;
    let a = compile_cmd(c, &dir, None, false).run()?;
    judge("compile", &a, &want, &src)?;
    let b = compile_cmd(c, &dir, Some(5), false).run()?;
    judge("compile, the second time,", &b, &want, &src)?;
    same_files("after compile", &before, &snapshot(&dir))?;
    pass(!src.is_empty(), if want.is_ok() { "output" } else { "refused" })
}

pub const R18: &str = "generated plugin directories (with files that are no plugins) and documents, compiled twice by the brack binary; non-trivial: the document is not empty";

fn doc_text(s: &mut Src, u: &Universe, depth: usize) -> Text {
    Text::Doc(gen_doc(s, &Opts { depth, paras: 3, table: table(u, true), ..Opts::default() }))
}

/// A text with a mistake somewhere among well-formed parts.
fn gen_mistake(s: &mut Src, u: &Universe) -> Text {
    let o = Opts { depth: 2, paras: 2, table: table(u, true), ..Opts::default() };
    let (a, b) = (emit(&gen_doc(s, &o)).source, emit(&gen_doc(s, &o)).source);
    let bad = *s.pick(&["]", "}", ">", "[a.b", "{a.b x", "<a.b", "[a.b x}", "[ab]", "[.b]", "\\x", "\\", "{a.b x, }y>", "[a.b.c d]", "[]"]);
    Text::Any(format!("{a}\n\n{bad}\n\n{b}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Invocation {
    base: Compile,
    what: usize,
    junk: String,
}

pub fn c18(c: &mut Ctx) {
    c.sub("documents", "well-formed documents using the plugins", 700, 20_000, |s| gen_compile(s, |s, u| doc_text(s, u, 3)), check_compile);
    c.sub("mistakes", "a syntax mistake between well-formed parts", 400, 10_000, |s| gen_compile(s, gen_mistake), check_compile);
    c.sub("any-text", "arbitrary texts", 400, 10_000, |s| gen_compile(s, |s, _| Text::Any(gen_soup(s, 12))), check_compile);
    c.sub(
        "long",
        "texts, arguments and outputs of up to a million bytes",
        40,
        1_000,
        |s| {
            let (u, line, long) = gen_big(s);
            let mut small = gen_compile(s, |_, _| Text::Any(String::new()));
            small.suffixes = u.plugins.iter().map(|_| gen_suffix(s)).collect();
            small.u = u;
            small.text = Text::Doc(Doc { lead: vec![], paras: vec![Para { lines: vec![line], crlf: vec![] }], seps: vec![], tail: vec![] });
            Big { small, long }
        },
        |x: &Big<Compile>| check_compile(&x.full()).map_err(brief),
    );
    c.sub(
        "unwritable",
        "standard output on a full disk or a pipe nobody reads: an error, no crash",
        150,
        3_000,
        |s| {
            let base = gen_compile(s, |s, u| doc_text(s, u, 2));
            let level = *s.pick(&[None, None, Some(1), Some(2), Some(3), Some(4), Some(5)]);
            Unwritable { base, level, json: level.is_some_and(|l| l < 5) && s.bool(), closed: s.chance(1, 4) }
        },
        check_unwritable,
    );
    c.sub(
        "bad-invocations",
        "a file of another extension, no file, a directory, a file that is not UTF-8, a missing plugin directory, a file named like a plugin that is none, bad levels: an error, no output and no change",
        500,
        10_000,
        |s| Invocation { base: gen_compile(s, |s, u| doc_text(s, u, 1)), what: s.usize(9), junk: gen_word(s) },
        |i: &Invocation| {
            let dir = fresh("compile");
            let mut c = i.base.clone();
            let mut level = None;
            let mut json = false;
            let class = match i.what {
                0 => {
                    let ext = ["", "x", ".html", "]", " ", ".[].txt"][i.junk.len() % 6];
                    c.file = format!("doc.[{}", if ext.is_empty() { "" } else { ext });
                    if c.file.ends_with(".[]") {
                        c.file.push('x');
                    }
                    lay_out(&c, &dir);
                    "extension"
                }
                1 => {
                    lay_out(&c, &dir);
                    c.file = "missing.[]".into();
                    "no file"
                }
                2 => {
                    lay_out(&c, &dir);
                    must(std::fs::create_dir_all(dir.join("d.[]")), "create a directory");
                    c.file = "d.[]".into();
                    "directory"
                }
                3 => {
                    lay_out(&c, &dir);
                    let mut b = c.text.source().into_bytes();
                    let at = i.junk.len() % (b.len() + 1);
                    b.insert(at, [0xff, 0x80, 0xc0][i.junk.len() % 3]);
                    if std::str::from_utf8(&b).is_ok() {
                        return pass(false, "still UTF-8");
                    }
                    put(&dir, &c.file, b);
                    "not UTF-8"
                }
                4 => {
                    lay_out(&c, &dir);
                    must(std::fs::remove_dir_all(dir.join("plug ins")), "remove a directory");
                    "no plugin directory"
                }
                5 => {
                    lay_out(&c, &dir);
                    put(&dir, "plug ins/broken_1.wasm", format!("{}(", i.junk));
                    "broken plugin"
                }
                6 => {
                    lay_out(&c, &dir);
                    level = Some([0, 6, 7, 200, 255][i.junk.len() % 5]);
                    json = i.junk.len() % 2 == 0;
                    "level"
                }
                7 => {
                    lay_out(&c, &dir);
                    json = true;
                    "JSON of the output"
                }
                _ => {
                    lay_out(&c, &dir);
                    must(std::fs::remove_file(dir.join(&c.file)), "remove a file");
                    must(std::os::unix::fs::symlink("nowhere", dir.join(&c.file)), "link");
                    "dangling link"
                }
            };
            let before = snapshot(&dir);
            let o = compile_cmd(&c, &dir, level, json).run()?;
            judge(&format!("compile ({class})"), &o, &Err(class.into()), &c.file)?;
            same_files("after compile", &before, &snapshot(&dir))?;
            pass(true, class)
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unwritable {
    base: Compile,
    level: Option<u8>,
    json: bool,
    closed: bool,
}

fn check_unwritable(x: &Unwritable) -> Res {
    let dir = fresh("compile");
    lay_out(&x.base, &dir);
    let c = compile_cmd(&x.base, &dir, x.level, x.json);
    let out = if x.closed {
        // a pipe nobody reads
        let (r, w) = must(std::io::pipe(), "make a pipe");
        drop(r);
        w.into()
    } else {
        must(std::fs::OpenOptions::new().write(true).open("/dev/full"), "open /dev/full").into()
    };
    let o = c.run_to(out)?;
    let what = format!("compile at level {:?} to {}", x.level, if x.closed { "a closed pipe" } else { "a full disk" });
    if o.signal.is_some() && !x.closed || o.code == Some(101) || o.stderr.contains("panicked at") {
        return Err(format!("{what} crashes: {}", o.stderr.trim()));
    }
    if o.ok() || o.stderr.trim().is_empty() && o.signal.is_none() {
        return Err(format!("{what} gives {:?} {:?}\nsource: {:?}", o.code, o.stderr, x.base.text.source()));
    }
    pass(true, if x.closed { "closed" } else { "full" })
}

fn strip_ids(v: &mut J) {
    match v {
        J::Object(o) => {
            o.remove("id");
            o.values_mut().for_each(strip_ids);
        }
        J::Array(a) => a.iter_mut().for_each(strip_ids),
        _ => {}
    }
}

fn ids(v: &J, out: &mut Vec<String>) {
    match v {
        J::Object(o) => {
            if let Some(J::String(i)) = o.get("id") {
                out.push(i.clone());
            }
            o.values().for_each(|x| ids(x, out));
        }
        J::Array(a) => a.iter().for_each(|x| ids(x, out)),
        _ => {}
    }
}

fn json_of(o: &Out, level: u8, src: &str) -> Result<J, String> {
    if !o.ok() {
        return Err(format!("level {level} fails: {}\nsource: {src:?}", o.stderr.trim()));
    }
    let t = std::str::from_utf8(&o.stdout).map_err(|_| format!("level {level} is not UTF-8"))?;
    if t.matches('\n').count() != 1 {
        return Err(format!("level {level} is not one line of JSON: {t:?}"));
    }
    serde_json::from_str(t).map_err(|e| format!("level {level} is not JSON ({e}): {t:?}"))
}

fn depth(v: &J) -> usize {
    match v {
        J::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        J::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn no_ids<T: Serialize>(x: &T) -> J {
    let mut v = serde_json::to_value(x).unwrap();
    strip_ids(&mut v);
    v
}

/// The text without the random ids of nodes.
fn no_uuids(t: &str) -> String {
    static R: std::sync::OnceLock<regex::Regex> = std::sync::OnceLock::new();
    let r = R.get_or_init(|| regex::Regex::new("[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}").unwrap());
    r.replace_all(t, "(id)").into_owned()
}

/// A level shown as text shows the value it shows as JSON.
fn same_text(level: u8, o: &Out, want: &dyn std::fmt::Debug, src: &str) -> Result<(), String> {
    let (got, want) = (no_uuids(&o.text()), no_uuids(&format!("{want:?}\n")));
    if !o.ok() || got != want {
        return Err(format!("level {level} as text gives {got:?} {:?}\nexpected {want:?}\nsource: {src:?}", o.stderr));
    }
    Ok(())
}

fn numbers(line: &str) -> Vec<usize> {
    line.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect()
}

fn place(e: &vh_core::node::Err) -> Vec<usize> {
    let ((a, b), (c, d)) = e.span;
    vec![a, b, c, d]
}

/// What a failing command says of the errors of a document: the place and the reason of each.
fn told(what: &str, stderr: &str, errors: &[vh_core::node::Err], src: &str) -> Result<(), String> {
    let lines: Vec<(Vec<usize>, &str)> = stderr.lines().map(|l| (numbers(l), l)).filter(|(n, _)| n.len() >= 4).collect();
    let mut left: Vec<&vh_core::node::Err> = errors.iter().collect();
    for (n, l) in &lines {
        match left.iter().position(|e| *n == place(e) && l.contains(&e.message)) {
            Some(i) => left.remove(i),
            None => return Err(format!("{what} says {l:?}, which is no error or said before\nerrors: {errors:?}\nsource: {src:?}")),
        };
    }
    match left.first() {
        Some(e) => Err(format!("{what} does not say {e:?}, but {stderr:?}\nsource: {src:?}")),
        None => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Telling {
    base: Compile,
    /// Further documents of the project, without numbers in their names.
    more: Vec<(String, Text)>,
}

fn check_telling(x: &Telling) -> Res {
    let dir = fresh("telling");
    lay_out(&x.base, &dir);
    let src = x.base.text.source();
    let errors = judged(&src)?.errors;
    if !errors.is_empty() {
        for level in [None, Some(5), Some(4)] {
            let o = compile_cmd(&x.base, &dir, level, false).run()?;
            judge("compile", &o, &Err("syntax errors".into()), &src)?;
            told("compile", &o.stderr, &errors, &src)?;
        }
    }
    let root = dir.join("p");
    put(&root, "Brack.toml", "[document]\nname = \"n\"\nversion = \"1\"\nbackend = \"html\"\nauthors = []\n");
    let mut docs = vec![("main x".to_string(), x.base.text.clone())];
    docs.extend(x.more.iter().cloned());
    let mut wrong = vec![];
    for (n, t) in &docs {
        let t = t.source();
        put(&root, &format!("docs/{n}.[]"), &t);
        wrong.push((n, judged(&t)?.errors, t));
    }
    wrong.retain(|w| !w.1.is_empty());
    let o = Cmd::new(&root, &["build"]).run()?;
    if let Some((_, e, t)) = wrong.first() {
        if o.ok() {
            return Err(format!("build succeeds in spite of {e:?}\nsource: {t:?}"));
        }
        // a document without syntax errors may fail before, as there are no plugins
        let syntax = o.stderr.lines().any(|l| numbers(l).len() >= 4);
        let right = docs.iter().any(|(_, t)| vh_core::node::front(&t.source()).is_ok_and(|f| f.errors.is_empty() && !vh_core::node::ast(&f.ast).shape().lines().all(|l| ["Document", "Stmt", "Expr", "Text"].contains(&l.trim().split(' ').next().unwrap_or("")))));
        if !syntax && right {
            return pass(!errors.is_empty(), "another error first");
        }
        let all: Vec<String> = wrong.iter().filter_map(|(n, e, t)| {
            let named = o.stderr.contains(&format!("{n}.[]"));
            if !named {
                return Some(format!("build does not name {n:?}: {:?}", o.stderr));
            }
            told("build", &o.stderr, e, t).err()
        }).collect();
        if all.len() == wrong.len() {
            return Err(all.join("\n"));
        }
    }
    pass(!errors.is_empty(), format!("{} errors", match errors.len() { 0 => "0", 1 => "1", 2..=3 => "2-3", _ => "4+" }))
}

pub const R30: &str = "documents with generated mistakes and arbitrary texts, compiled and built by the brack binary; non-trivial: the document has an error";

pub fn c30(c: &mut Ctx) {
    let gen = |s: &mut Src, soup: bool| {
        let mut base = gen_compile(s, |s, u| if soup { Text::Any(gen_soup(s, 14)) } else { gen_mistake(s, u) });
        if !soup && s.bool() {
            // several mistakes
            let (Text::Any(a), Text::Any(b)) = (gen_mistake(s, &base.u), base.text.clone()) else { unreachable!() };
            base.text = Text::Any(a + s.pick(&["\n\n", "\r\n\r\n", " ", ""]) + &b);
        }
        let u = base.u.clone();
        let more = ["a", "z y", "日本"].iter().filter_map(|n| s.chance(1, 3).then(|| (n.to_string(), if s.bool() { gen_mistake(s, &u) } else { Text::Any(gen_word(s)) }))).collect();
        Telling { base, more }
    };
    c.sub("mistakes", "mistakes between well-formed parts, in one or more documents of a project", 400, 10_000, move |s| gen(s, false), check_telling);
    c.sub("any-text", "arbitrary texts", 300, 10_000, move |s| gen(s, true), check_telling);
    c.sub(
        "far",
        "mistakes in lines and columns of up to five digits",
        30,
        600,
        |s| {
            let mut base = gen_compile(s, |_, _| Text::Any(String::new()));
            let mut t = String::new();
            let last = s.usize(2);
            for k in 0..=last {
                let n = *s.pick(&[1, 9, 99, 999, 9_999]);
                t.push_str(&s.pick(&["x\n", "\n", "é y\n", "\r\n"]).repeat(n));
                let n = *s.pick(&[0, 9, 99, 999, 9_999]);
                t.push_str(&s.pick(&["x", "y ", "é", "日"]).repeat(n));
                // lexing within an open bracket takes quadratic time
                let open = if k == last { "{a.b" } else { "}" };
                t.push_str(s.pick(&["]", "}", ">", "\\x", "\\x", "[a]", "{b}", "[a.b ,]", "a\n]", "\n\n<x>", "\\", open]));
            }
            base.text = Text::Any(t);
            Telling { base, more: vec![] }
        },
        |x: &Telling| check_telling(x).map_err(brief),
    );
    c.sub(
        "many",
        "up to three hundred mistakes in a document",
        40,
        1_200,
        |s| {
            let mut base = gen_compile(s, |_, _| Text::Any(String::new()));
            let n = *s.pick(&[9, 10, 11, 32, 33, 64, 99, 100, 101, 128, 129, 255, 256, 257, 300]);
            let kinds: Vec<&str> = (0..s.range(1, 3)).map(|_| *s.pick(&["]", "}", ">", "\\x", "[a]", "{b}", "[a.b ,]", "a\n]", "\n\n<x>"])).collect();
            base.text = Text::Any((0..n).map(|k| kinds[k % kinds.len()].to_string() + s.pick(&["", "", " ", "x"])).collect());
            Telling { base, more: vec![] }
        },
        check_telling,
    );
}

fn check_levels(c: &Compile) -> Res {
    let dir = fresh("levels");
    lay_out(c, &dir);
    let src = c.text.source();
    let f = judged(&src)?;
    let run = |l: u8, json: bool| compile_cmd(c, &dir, Some(l), json).run();
    // JSON is not read deeper than 128 levels; a bracket takes up to seven
    if depth(&no_ids(&f.cst)).max(depth(&no_ids(&f.ast))) > 120 {
        return pass(false, "nested too deep for JSON");
    }
    // 1: tokens, read back to the same tokens
    let v1 = json_of(&run(1, true)?, 1, &src)?;
    let toks: Vec<Token> = serde_json::from_value(v1).map_err(|e| format!("level 1 is not a list of tokens: {e}"))?;
    if toks != f.tokens {
        return Err(format!("level 1 gives the tokens {toks:?}\nexpected {:?}\nsource: {src:?}", f.tokens));
    }
    let t1 = run(1, false)?;
    let want: String = f.tokens.iter().map(|t| format!("{t:?}\n")).collect();
    if t1.stdout != want.as_bytes() {
        return Err(format!("level 1 as text gives {:?}\nexpected {want:?}\nsource: {src:?}", t1.text()));
    }
    // 2 and 3: the trees
    for (l, want) in [(2, no_ids(&f.cst)), (3, no_ids(&f.ast))] {
        let mut v = json_of(&run(l, true)?, l, &src)?;
        let mut all = vec![];
        ids(&v, &mut all);
        let n = all.len();
        if all.iter().collect::<BTreeSet<_>>().len() != n {
            return Err(format!("level {l}: two nodes have the same id\nsource: {src:?}"));
        }
        let bad = |e: serde_json::Error| format!("level {l} does not read back: {e}\n{v}\nsource: {src:?}");
        let (shown, is) = if l == 2 {
            let t: brack_parser::cst::CST = serde_json::from_value(v.clone()).map_err(bad)?;
            (vh_core::node::cst(&t), vh_core::node::cst(&f.cst))
        } else {
            let t: brack_transformer::ast::AST = serde_json::from_value(v.clone()).map_err(bad)?;
            (vh_core::node::ast(&t), vh_core::node::ast(&f.ast))
        };
        if shown.shape_spans() != is.shape_spans() {
            return Err(format!("level {l} reads back as\n{}expected\n{}source: {src:?}", shown.shape_spans(), is.shape_spans()));
        }
        strip_ids(&mut v);
        if v != want {
            return Err(format!("level {l} gives {v}\nexpected {want}\nsource: {src:?}"));
        }
    }
    let (t2, t3) = (run(2, false)?, run(3, false)?);
    for (l, t) in [(2, &t2), (3, &t3)] {
        if !t.ok() {
            return Err(format!("level {l} fails: {}\nsource: {src:?}", t.stderr.trim()));
        }
    }
    same_text(2, &t2, &f.cst, &src)?;
    if f.errors.is_empty() {
        same_text(3, &t3, &f.ast, &src)?;
    } else {
        let mut got: Vec<Vec<usize>> = t3.text().lines().map(numbers).collect();
        let mut want: Vec<Vec<usize>> = f.errors.iter().map(place).collect();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("level 3 reports {:?}\nexpected {:?}\nsource: {src:?}", t3.text(), f.errors));
        }
    }
    // 4 and 5: the expanded tree generates the output
    let (ex, out) = if f.errors.is_empty() {
        let (ex, out, _) = expected(&c.u, &f.ast);
        (ex, out)
    } else {
        (Err("syntax errors".into()), Err("syntax errors".into()))
    };
    let (o4, o5) = (run(4, true)?, run(5, false)?);
    match &ex {
        Err(_) => judge("level 4", &o4, &Err("it has no expansion".into()), &src)?,
        Ok(w) => {
            let v = json_of(&o4, 4, &src)?;
            let (mut a, mut b) = (v.clone(), w.clone());
            strip_ids(&mut a);
            strip_ids(&mut b);
            if a != b {
                return Err(format!("level 4 gives {a}\nexpected {b}\nsource: {src:?}"));
            }
            let tree: brack_transformer::ast::AST = serde_json::from_value(v).map_err(|e| format!("level 4 is not a tree: {e}"))?;
            same_text(4, &run(4, false)?, &tree, &src)?;
            let g = brack_codegen::generate::generate(&tree, &mut load(&c.u)?);
            match (&g, o5.ok()) {
                (Ok(g), true) if o5.stdout == format!("{g}\n").into_bytes() => {}
                (Err(_), false) => {}
                _ => return Err(format!("the tree of level 4 generates {g:?}, but level 5 gives {:?} {:?}\nsource: {src:?}", o5.text(), o5.stderr)),
            }
        }
    }
    judge("level 5", &o5, &out, &src)?;
    pass(f.tokens.len() > 1, if !f.errors.is_empty() { "syntax errors" } else if out.is_ok() { "output" } else { "refused" })
}

pub const R29: &str = "generated plugin directories and documents or arbitrary texts, run through the brack binary at every output level; non-trivial: the text is not empty";

pub fn c29(c: &mut Ctx) {
    c.sub("documents", "well-formed documents", 300, 8_000, |s| gen_compile(s, |s, u| doc_text(s, u, 3)), check_levels);
    c.sub("any-text", "arbitrary texts", 300, 8_000, |s| gen_compile(s, |s, _| Text::Any(gen_soup(s, 12) + if s.chance(1, 6) { *s.pick(&["\\", "\\x", "[", "[]", "\\\n", "\n"]) } else { "" })), check_levels);
}

// ---------------------------------------------------------------- projects

pub const BACKENDS: &[&str] = &["html", "", "tex", "a.b", "日本", "json", "HTML5", "x y", "\"q\""];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlugConf {
    pub owner: String,
    pub repo: String,
    pub version: String,
    /// document, stmt, expr, text
    pub hooks: [Option<bool>; 4],
}

impl PlugConf {
    pub fn schema(&self) -> PluginSchema {
        PluginSchema::GitHub {
            owner: self.owner.clone(),
            repo: self.repo.clone(),
            version: self.version.clone(),
            document_hook: self.hooks[0],
            stmt_hook: self.hooks[1],
            expr_hook: self.hooks[2],
            text_hook: self.hooks[3],
        }
    }
    pub fn fields(&self) -> Vec<(String, String)> {
        let mut v = vec![
            ("schema".to_string(), toml_str("github")),
            ("owner".into(), toml_str(&self.owner)),
            ("repo".into(), toml_str(&self.repo)),
            ("version".into(), toml_str(&self.version)),
        ];
        for (h, b) in ["document_hook", "stmt_hook", "expr_hook", "text_hook"].iter().zip(self.hooks) {
            if let Some(b) = b {
                v.push((h.to_string(), b.to_string()));
            }
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    pub name: String,
    pub version: String,
    pub backend: String,
    pub authors: Vec<String>,
    pub plugins: Option<BTreeMap<String, PlugConf>>,
}

pub fn gen_plain(s: &mut Src) -> String {
    s.pick(&["a", "brack-lang", "std.html", "v0.1.0", "x_y", "1", "日本", "my \"q\"", "b\\c", "A"]).to_string()
}

/// What may stand in a path of a URL as it is.
pub fn gen_ref(s: &mut Src) -> String {
    s.pick(&["a", "brack-lang", "std.html", "v0.1.0", "x_y", "1", "Repo-2", "main", "0.2.0", "std", "latest", "v1.0.0-beta.2", "HEAD"]).to_string()
}

pub fn gen_conf(s: &mut Src, names: &[(String, [bool; 4])]) -> Conf {
    let plugins: BTreeMap<String, PlugConf> = names
        .iter()
        .map(|(n, f)| {
            let mut hooks = [None; 4];
            for h in 0..4 {
                hooks[h] = if f[h] { Some(true) } else if s.chance(1, 3) { Some(false) } else { None };
            }
            (n.clone(), PlugConf { owner: gen_ref(s), repo: gen_ref(s), version: gen_ref(s), hooks })
        })
        .collect();
    Conf {
        name: gen_plain(s),
        version: gen_plain(s),
        backend: s.pick(BACKENDS).to_string(),
        authors: (0..s.usize(3)).map(|_| gen_plain(s)).collect(),
        plugins: if plugins.is_empty() && s.bool() { None } else { Some(plugins) },
    }
}

impl Conf {
    fn document_fields(&self) -> Vec<(String, String)> {
        let authors: Vec<String> = self.authors.iter().map(|a| toml_str(a)).collect();
        vec![
            ("name".into(), toml_str(&self.name)),
            ("version".into(), toml_str(&self.version)),
            ("backend".into(), toml_str(&self.backend)),
            ("authors".into(), format!("[{}]", authors.join(", "))),
        ]
    }
    /// In TOML, in one of several ways of writing it.
    pub fn toml(&self, style: usize) -> String {
        let rot = |mut v: Vec<(String, String)>, k: usize| {
            let n = v.len().max(1);
            v.rotate_left(k % n);
            v
        };
        let lines = |v: &[(String, String)]| v.iter().map(|(k, x)| format!("{k} = {x}\n")).collect::<String>();
        let mut t = format!("[document]\n{}", lines(&rot(self.document_fields(), style)));
        if let Some(p) = &self.plugins {
            if style % 2 == 0 {
                t.push_str("\n[plugins]\n");
            }
            for (k, v) in p {
                let f = rot(v.fields(), style / 3);
                if style % 2 == 0 {
                    let inner: Vec<String> = f.iter().map(|(k, x)| format!("{k} = {x}")).collect();
                    t.push_str(&format!("{} = {{ {} }} # inline\n", toml_str(k), inner.join(", ")));
                } else {
                    t.push_str(&format!("\n[plugins.{}]\n{}", toml_str(k), lines(&f)));
                }
            }
            if style % 2 == 1 && p.is_empty() {
                t.push_str("[plugins]\n");
            }
        }
        t
    }
    pub fn stored(&self, name: &str) -> String {
        let p = self.plugins.as_ref().and_then(|p| p.get(name)).unwrap_or_else(|| harness_error("no such plugin"));
        format!("plugins/{name}_{}.wasm", p.schema().hash_sha256(&self.backend))
    }
}

/// Gives the plugins hook commands; enables each hook in at most one.
pub fn add_hooks(s: &mut Src, u: &mut Universe) {
    for (h, (name, ret)) in HOOKS.iter().enumerate() {
        for p in 0..u.plugins.len() {
            if s.chance(1, 3) && !u.plugins[p].specs.iter().any(|c| c.name == *name) {
                u.plugins[p].specs.push(Spec {
                    name: name.to_string(),
                    args: vec![Type::TInline],
                    ret: ret.clone(),
                    act: Act::Echo(format!("«{p}{name}:"), "»".into()),
                });
            }
        }
        let offering: Vec<usize> = (0..u.plugins.len()).filter(|p| u.plugins[*p].specs.iter().any(|x| x.name == *name && x.ret == *ret)).collect();
        if !offering.is_empty() && s.bool() {
            let p = *s.pick(&offering);
            u.plugins[p].flags[h] = true;
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Write(String, Text, Link),
    Remove(String),
    /// A file in out or docs that is no document.
    Other(String, String),
    /// Another character at one place of the document: its length stays.
    Edit(String, usize),
    /// The time of the last change of a document (0) or of its output (1), in seconds from 1970.
    Age(String, usize, u64),
    /// Another plugin of the same commands in the place of one.
    Replug(usize),
    Backend(String),
}

/// Changes one letter such that the text still compiles, to something else, if that is possible.
fn edit(u: &Universe, t: &str, at: usize) -> Result<String, String> {
    let places: Vec<usize> = t.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|x| x.0).collect();
    let Ok(Ok(old)) = compiled(u, t) else { return Ok(t.to_string()) };
    for k in 0..places.len().min(6) {
        let i = places[(at + k) % places.len()];
        let b = if t.as_bytes()[i] == b'q' { "z" } else { "q" };
        let mut new = t.to_string();
        new.replace_range(i..i + 1, b);
        if compiled(u, &new)?.is_ok_and(|x| x != old) {
            return Ok(new);
        }
    }
    Ok(t.to_string())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    u: Universe,
    conf: Conf,
    style: usize,
    steps: Vec<Vec<Step>>,
    how: usize,
    /// How the plugins lie in the store.
    links: Vec<Link>,
}

fn gen_stateless(s: &mut Src) -> Universe {
    let mut u = gen_det_universe(s);
    for p in &mut u.plugins {
        for c in &mut p.specs {
            if let Act::Count(a, b) = &c.act {
                c.act = Act::Echo(a.clone(), b.clone());
            }
        }
    }
    add_hooks(s, &mut u);
    u
}

fn gen_stem(s: &mut Src) -> String {
    if s.chance(1, 6) {
        return s
            .pick(&[".hidden", "main.[]", "a.b.c", "out", "docs", "-x", "MAIN", "*", "x.", "日.本", "e\u{301}", "é", "a\\b", "a\"b", "$HOME", "%20", "a#b", "a?b=c", "_draft", "README", "index", "a;b", "a&b", "Brack.toml", "~", "#", " ", "a\nb", "x.html.tex"])
            .to_string();
    }
    if s.chance(1, 5) {
        let before = *s.pick(&["_", "__", "-", ".", "..", "~", "#", "@", "00-", "draft_", "tmp", "+", "!", "(", "é"]);
        let after = *s.pick(&["", "", "~", "_", ".bak", ".", "-1", " (1)", "#", ".orig", ".html", ".md", ".draft", ".swp", ".tmp"]);
        return before.to_string() + *s.pick(&["main", "a", "x.y", "", "_", "["]) + after;
    }
    s.pick(&["main", "a", "index.en", "日本", "x y", "main.html", "[]"]).to_string()
}

/// Stands for a document that is not UTF-8.
const NOT_UTF8: &str = "\u{f8fe}";

fn gen_history(s: &mut Src) -> History {
    let u = if s.chance(1, 6) { Universe { plugins: vec![] } } else { gen_stateless(s) };
    let names: Vec<(String, [bool; 4])> = u.plugins.iter().map(|p| (p.name.clone(), p.flags)).collect();
    let conf = gen_conf(s, &names);
    let n = s.range(1, 4);
    let steps = (0..n)
        .map(|_| {
            (0..s.usize(4))
                .map(|_| match s.below(13) {
                    8 | 9 => Step::Edit(gen_stem(s), s.usize(200)),
                    10 => Step::Age(gen_stem(s), s.usize(2), *s.pick(&[0, 1, 1_000_000_000, 4_000_000_000])),
                    11 => Step::Replug(s.usize(4)),
                    12 if s.chance(1, 2) => Step::Backend(s.pick(BACKENDS).to_string()),
                    0 => Step::Remove(gen_stem(s)),
                    1 => {
                        let n = s.pick(&["out/old.html", "out/main.html", "docs/note.txt", "docs/main.[].bak", "docs/sub/x.[]", "docs/x.html", "readme", "docs/main[]", "docs/[]", "docs/a.[", "docs/a.[]x", "docs/a.[].[", "docs/a.x[]", "docs/b\u{f8ff}.txt", "out/b\u{f8ff}.html", "docs/\u{f8ff}"]);
                        Step::Other(n.to_string(), gen_word(s))
                    }
                    2 if s.chance(1, 2) => Step::Write(gen_stem(s), if s.chance(1, 4) { Text::Any(NOT_UTF8.into()) } else { gen_mistake(s, &u) }, gen_link(s)),
                    _ => Step::Write(gen_stem(s), doc_text(s, &u, 2), gen_link(s)),
                })
                .collect()
        })
        .collect();
    let mut steps: Vec<Vec<Step>> = steps;
    if s.chance(1, 12) {
        // many documents
        for k in 0..s.range(8, 40) {
            let t = Text::Any(format!("{}{k}", gen_word(s)));
            steps[0].push(Step::Write(format!("d{k}"), t, Link::Itself));
        }
    }
    if s.chance(1, 20) {
        // lexing takes time quadratic in the length of a line
        let (n, line) = *s.pick(&[(4096, 8192), (8192, 8192), (20_000, 999), (66_000, 99)]);
        let word = gen_word(s) + " ";
        let t: String = (0..n / line.min(n)).map(|_| word.repeat(line.min(n) / word.len() + 1) + "\n").collect();
        let t = Text::Any(t + "end");
        steps[0].push(Step::Write(gen_stem(s), t, Link::Itself));
    }
    let links = u.plugins.iter().map(|_| gen_link(s)).collect();
    History { u, conf, style: s.usize(12), steps, how: s.usize(4), links }
}

fn run_history(h: &History) -> Res {
    let top = fresh("build");
    let root = top.join("pro ject");
    put(&root, "Brack.toml", h.conf.toml(h.style));
    must(std::fs::create_dir_all(root.join("docs")), "create docs");
    for (p, l) in h.u.plugins.iter().zip(h.links.iter().copied().chain(std::iter::repeat(Link::Itself))) {
        put_as(&root, &h.conf.stored(&p.name), plugin_wat(&p.specs), l);
    }
    let mut docs: BTreeMap<String, String> = BTreeMap::new();
    let h = &mut h.clone();
    let (mut built, mut failed) = (0, 0);
    for group in &h.steps.clone() {
        for st in group {
            match st {
                Step::Edit(n, at) => {
                    // often the stem drawn is none of the documents': take the one next to it
                    let Some(n) = docs.range(n.clone()..).next().or(docs.iter().next()).map(|x| x.0.clone()) else { continue };
                    if docs[&n] == NOT_UTF8 || docs[&n].len() > 30_000 {
                        continue;
                    }
                    let t = edit(&h.u, &docs[&n], *at)?;
                    put(&root, &format!("docs/{n}.[]"), &t);
                    docs.insert(n.clone(), t);
                }
                Step::Age(n, which, secs) => {
                    let Some(n) = docs.range(n.clone()..).next().or(docs.iter().next()).map(|x| x.0.clone()) else { continue };
                    let f = if *which == 0 { format!("docs/{n}.[]") } else { format!("out/{n}.{}", h.conf.backend) };
                    if let Ok(f) = std::fs::File::options().append(true).open(root.join(f)) {
                        must(f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(*secs)), "set a time");
                    }
                }
                Step::Replug(k) => {
                    if h.u.plugins.is_empty() {
                        continue;
                    }
                    let k = k % h.u.plugins.len();
                    for c in &mut h.u.plugins[k].specs {
                        if let Act::Echo(a, _) = &mut c.act {
                            *a = if a.contains('«') { a.replace('«', "‹") } else { a.replace('‹', "«") + "+" };
                        }
                    }
                    put(&root, &h.conf.stored(&h.u.plugins[k].name), plugin_wat(&h.u.plugins[k].specs));
                }
                Step::Backend(b) => {
                    h.conf.backend = b.clone();
                    put(&root, "Brack.toml", h.conf.toml(h.style));
                    for p in &h.u.plugins {
                        put(&root, &h.conf.stored(&p.name), plugin_wat(&p.specs));
                    }
                }
                Step::Write(n, t, l) => {
                    let t = t.source();
                    put_as(&root, &format!("docs/{n}.[]"), if t == NOT_UTF8 { b"[a.b \xff]" } else { t.as_bytes() }, *l);
                    docs.insert(n.clone(), t);
                }
                Step::Remove(n) => {
                    if docs.remove(n).is_some() {
                        must(std::fs::remove_file(root.join(format!("docs/{n}.[]"))), "remove a document");
                    }
                }
                Step::Other(n, t) => put(&root, n, t),
            }
        }
        let before = snapshot(&top);
        let o = match h.how {
            // from elsewhere, with an absolute and a relative root
            1 | 2 => {
                let r = if h.how == 1 {
                    root.clone()
                } else {
                    match root.strip_prefix(must(std::env::current_dir(), "find the directory")) {
                        Ok(r) => r.to_path_buf(),
                        Err(_) => root.clone(),
                    }
                };
                let r = in_process_build(&r);
                Out { code: Some(r.is_err() as i32), signal: None, stdout: vec![], stderr: r.err().unwrap_or_default() }
            }
            _ => Cmd::new(&root, &["build"]).run()?,
        };
        let after = snapshot(&top);
        let mut want = before.clone();
        let mut bad = vec![];
        let mut optional = vec![];
        for (n, t) in &docs {
            let key = format!("pro ject/out/{n}.{}", h.conf.backend);
            if t == NOT_UTF8 {
                bad.push(format!("{n} is not UTF-8"));
                continue;
            }
            match compiled(&h.u, t)? {
                Ok(x) => {
                    want.insert(key.clone(), Ent::File(x.into_bytes()));
                    optional.push(key);
                }
                Err(e) => bad.push(format!("{n}: {e}")),
            }
        }
        if bad.is_empty() {
            built += 1;
            if !o.ok() {
                return Err(format!("the build fails: {}", o.stderr.trim()));
            }
            want.insert("pro ject/out".into(), Ent::Dir);
            if let Some(d @ Ent::Dir) = after.get("pro ject/plugins") {
                want.insert("pro ject/plugins".into(), d.clone());
            }
            same_files("after the build", &want, &after)?;
            if h.how != 1 && h.how != 2 {
                let listed: BTreeSet<String> = o.text().lines().filter_map(|l| l.strip_prefix("  - ./out/")).map(|l| l.to_string()).collect();
                let there: BTreeSet<String> = after.keys().filter_map(|k| k.strip_prefix("pro ject/out/")).map(|k| k.to_string()).collect();
                if listed != there && !there.iter().any(|n| n.contains('\n')) {
                    return Err(format!("the build lists {listed:?}, but out holds {there:?}"));
                }
            }
        } else {
            failed += 1;
            if o.ok() {
                return Err(format!("the build succeeds in spite of {bad:?}"));
            }
            if o.text().contains("Build succeeded") {
                return Err(format!("the build claims success in spite of {bad:?}"));
            }
            if h.how != 1 && h.how != 2 && o.stderr.trim().is_empty() {
                return Err("the build fails without saying why".into());
            }
            // documents before the failing one may have been written
            let mut want2 = before.clone();
            for d in ["pro ject/out", "pro ject/plugins"] {
                if let Some(Ent::Dir) = after.get(d) {
                    want2.insert(d.into(), Ent::Dir);
                }
            }
            for k in optional {
                if after.get(&k) == want.get(&k) {
                    want2.insert(k.clone(), want[&k].clone());
                }
            }
            same_files("after the failing build", &want2, &after)?;
        }
    }
    if std::env::var("VH_WORK").is_ok() {
        for x in ["out", "docs", "plugins", "Brack.toml"] {
            if Path::new(x).exists() {
                let _ = std::fs::remove_dir_all(x);
                return Err(format!("the build left {x} in the current directory, which is not the project's"));
            }
        }
    }
    pass(!docs.is_empty(), format!("{} builds, {} failing", built + failed, failed))
}

fn in_process_build(root: &Path) -> Result<(), String> {
    let mut p = Project::new(root);
    p.load_brack_toml().map_err(|e| format!("{e:#}"))?;
    let rt = must(tokio::runtime::Builder::new_current_thread().enable_all().build(), "start the runtime");
    rt.block_on(p.download_plugins_using_config()).map_err(|e| format!("{e:#}"))?;
    p.build().map_err(|e| format!("{e:#}"))
}

pub const R19: &str = "histories of writing, editing, breaking and removing documents, changing times of files, plugins and the backend and building in between; non-trivial: there is at least one document at the end";

pub fn c19(c: &mut Ctx) {
    c.sub("histories", "projects with generated configuration, stored plugins with hooks, and one to four builds, by the binary in the project or through a project opened elsewhere", 900, 25_000, gen_history, run_history);
    c.sub(
        "unwritable",
        "builds in which the n-th change of the file system fails or ends the process, or a file or directory is in the way; non-trivial: that happens",
        300,
        8_000,
        |s| {
            let u = gen_stateless(s);
            let names: Vec<(String, [bool; 4])> = u.plugins.iter().map(|p| (p.name.clone(), p.flags)).collect();
            let conf = gen_conf(s, &names);
            let docs = |s: &mut Src| -> BTreeMap<String, Text> { (0..s.range(1, 3)).map(|_| (gen_stem(s), if s.bool() { doc_text(s, &u, 2) } else { Text::Any(gen_word(s) + "q") })).collect() };
            let (new, old) = (docs(s), if s.bool() { Some(docs(s)) } else { None });
            let (fault, obstacle) = if s.chance(1, 4) { (None, s.range(1, 4)) } else { (Some(crate::net::gen_fault(s, 8)), 0) };
            Spoilt { u, conf, docs: new, old, fault, obstacle }
        },
        run_spoilt,
    );
}

/// A build in which writing fails: by a fault, or as something else is where files have to go.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spoilt {
    u: Universe,
    conf: Conf,
    docs: BTreeMap<String, Text>,
    /// The documents before, if there was a build.
    old: Option<BTreeMap<String, Text>>,
    fault: Option<crate::net::Fault>,
    /// A file named out, or a directory in the place of that output.
    obstacle: usize,
}

fn run_spoilt(x: &Spoilt) -> Res {
    let top = fresh("unwritable");
    let root = top.join("p");
    put(&root, "Brack.toml", x.conf.toml(0));
    must(std::fs::create_dir_all(root.join("docs")), "create docs");
    for p in &x.u.plugins {
        put(&root, &x.conf.stored(&p.name), plugin_wat(&p.specs));
    }
    must(std::fs::create_dir_all(root.join("plugins")), "create plugins");
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for docs in x.old.iter().chain([&x.docs]) {
        for n in snapshot(&root.join("docs")).keys() {
            must(std::fs::remove_file(root.join("docs").join(n)), "remove a document");
        }
        let mut bad = None;
        want.clear();
        for (n, t) in docs {
            put(&root, &format!("docs/{n}.[]"), t.source());
            match compiled(&x.u, &t.source())? {
                Ok(t) => {
                    want.insert(format!("out/{n}.{}", x.conf.backend), t.into_bytes());
                }
                Err(e) => bad = Some(e),
            }
        }
        if bad.is_some() {
            return pass(false, "a document does not compile");
        }
        if !std::ptr::eq(docs, &x.docs) {
            let o = Cmd::new(&root, &["build"]).run()?;
            if !o.ok() {
                return Err(format!("the first build fails: {}", o.stderr.trim()));
            }
        }
    }
    match x.obstacle {
        0 => {}
        1 if x.old.is_none() => put(&root, "out", "a file"),
        k => {
            if let Some(f) = want.keys().nth(k % want.len().max(1)) {
                let _ = std::fs::remove_file(root.join(f));
                must(std::fs::create_dir_all(root.join(f).join("x")), "create a directory");
            }
        }
    }
    let before = snapshot(&root);
    let (o, injected, killed) = match &x.fault {
        Some(f) => f.run(Cmd::new(&root, &["build"]), &root, &top.join("count"))?,
        None => (Cmd::new(&root, &["build"]).run()?, false, false),
    };
    let after = snapshot(&root);
    let blocked = x.obstacle > 0 && !want.is_empty() || x.obstacle == 1 && x.old.is_none();
    if blocked && o.ok() {
        return Err("the build succeeds though an output cannot be written".into());
    }
    if !injected && !blocked && !o.ok() {
        return Err(format!("the build fails: {}", o.stderr.trim()));
    }
    if !o.ok() && !killed && (o.stderr.trim().is_empty() || o.text().contains("Build succeeded")) {
        return Err(format!("the build fails without saying why: {:?}", o.text()));
    }
    if o.ok() {
        for (f, b) in &want {
            if after.get(f) != Some(&Ent::File(b.clone())) {
                return Err(format!("the build succeeds, but {f:?} is not written (fault {:?})", x.fault));
            }
        }
    }
    // only the file that was being written may be cut
    let mut cut = vec![];
    for k in before.keys().chain(after.keys()).collect::<BTreeSet<_>>() {
        let (b, a) = (before.get(k), after.get(k));
        if a == b || (k == "out" && b.is_none() && a == Some(&Ent::Dir)) {
            continue;
        }
        match (want.get(k), a) {
            (Some(w), Some(Ent::File(x))) if w == x => {}
            (Some(w), Some(Ent::File(x))) if w.starts_with(x) && injected => cut.push(k),
            _ if killed && b.is_none() && k.starts_with("out/") => {}
            _ => return Err(format!("the failing build changes {k:?} (fault {:?})", x.fault)),
        }
    }
    if cut.len() > 1 {
        return Err(format!("one fault ({:?}) damages {cut:?}", x.fault));
    }
    if !blocked {
        let o = Cmd::new(&root, &["build"]).run()?;
        if !o.ok() {
            return Err(format!("after a fault ({:?}) the next build fails, too: {}", x.fault, o.stderr.trim()));
        }
        let after = snapshot(&root);
        for (f, b) in &want {
            if after.get(f) != Some(&Ent::File(b.clone())) {
                return Err(format!("after a fault ({:?}) and another build {f:?} is wrong", x.fault));
            }
        }
    }
    pass(injected || blocked, if killed { "killed" } else if injected { "fault" } else if blocked { "blocked" } else { "undisturbed" })
}

// ---------------------------------------------------------------- new

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NewCase {
    name: String,
    there: usize,
}

fn gen_project_name(s: &mut Src) -> String {
    let n = s.range(1, 5);
    let mut t = String::new();
    for _ in 0..n {
        match s.below(4) {
            0 => t.push_str(&gen_name(s)),
            1 => t.push(*s.pick(&['"', '\\', '\'', '\n', '\t', '\r', '\u{7f}', '\u{1}', '\u{85}', ' ', '.', '#', '=', '[', ']', '{', '}', '$', '\u{2028}', '\u{1f}', '-'])),
            2 => t.push_str(&gen_word(s)),
            _ => t.push_str("proj"),
        }
    }
    let t: String = t.chars().filter(|c| *c != '\0' && *c != '/').collect();
    let t = if t == "." || t == ".." || t.is_empty() || t.starts_with("..") { "p".into() } else { t };
    if s.chance(1, 16) {
        // as long as a file name may be
        let mut t = t.repeat(130);
        let n = *s.pick(&[255, 254, 250, 240, 200]);
        while t.len() > n {
            t.pop();
        }
        return t;
    }
    t.chars().take(60).collect()
}

pub const R20: &str = "project names of any characters a file name may have, in an empty directory or next to or in place of existing files; non-trivial: the name is not plain ASCII letters, or something is there already";

pub fn c20(c: &mut Ctx) {
    c.sub(
        "new",
        "`brack new`, then `brack build` in what it made",
        700,
        15_000,
        |s| NewCase { name: gen_project_name(s), there: s.usize(8) },
        |x: &NewCase| {
            let top = fresh("new");
            put(&top, "bystander.txt", "kept");
            match x.there {
                1 => put(&top, &x.name, "a file"),
                2 => must(std::fs::create_dir(top.join(&x.name)), "create a directory"),
                3 => put(&top.join(&x.name), "docs/main.[]", "precious"),
                4 => must(std::os::unix::fs::symlink("nowhere", top.join(&x.name)), "link"),
                5 => {
                    must(std::fs::create_dir(top.join("elsewhere")), "create a directory");
                    must(std::os::unix::fs::symlink("elsewhere", top.join(&x.name)), "link");
                }
                _ => {}
            }
            let taken = (1..=5).contains(&x.there);
            let before = snapshot(&top);
            let o = Cmd::new(&top, &["new", &format!("--name={}", x.name)]).run()?;
            if taken {
                if o.ok() {
                    return Err(format!("`brack new` succeeds though {:?} exists", x.name));
                }
                same_files("after the refused `brack new`", &before, &snapshot(&top))?;
                return pass(true, "taken");
            }
            if !o.ok() {
                return Err(format!("`brack new` fails for {:?}: {}", x.name, o.stderr.trim()));
            }
            let after = snapshot(&top);
            let mut want: BTreeSet<String> = before.keys().cloned().collect();
            for f in ["", "/docs", "/docs/main.[]", "/Brack.toml", "/.gitignore"] {
                want.insert(format!("{}{f}", x.name));
            }
            let got: BTreeSet<String> = after.keys().cloned().collect();
            if want != got || before.iter().any(|(k, v)| after.get(k) != Some(v)) {
                return Err(format!("`brack new` leaves {got:?}, expected {want:?}"));
            }
            let root = top.join(&x.name);
            let toml = must(std::fs::read_to_string(root.join("Brack.toml")), "read Brack.toml");
            let v: toml::Value = toml::from_str(&toml).map_err(|e| format!("the Brack.toml of a new project is not TOML: {e}\n{toml:?}"))?;
            if v.get("document").and_then(|d| d.get("name")).and_then(|n| n.as_str()) != Some(&x.name) {
                return Err(format!("the new project is named {:?}, not {:?}", v.get("document"), x.name));
            }
            let mut p = Project::new(&root);
            p.load_brack_toml().map_err(|e| format!("the new project does not load: {e:#}\n{toml:?}"))?;
            let b = Cmd::new(&root, &["build"]).run()?;
            if !b.ok() {
                return Err(format!("the new project does not build: {}", b.stderr.trim()));
            }
            let ig = String::from_utf8_lossy(match after.get(&format!("{}/.gitignore", x.name)) {
                Some(Ent::File(f)) => f,
                _ => &[],
            })
            .into_owned();
            for k in snapshot(&root).keys() {
                let first = k.split('/').next().unwrap_or("");
                if !after.contains_key(&format!("{}/{k}", x.name)) && !ig.lines().any(|l| l.trim_end_matches('/') == first) {
                    return Err(format!("the build of a new project makes {k:?}, which its .gitignore {ig:?} does not ignore"));
                }
            }
            pass(!x.name.bytes().all(|b| b.is_ascii_alphanumeric()), "made")
        },
    );
    c.sub(
        "faults",
        "the n-th change to the file system during `brack new` ends the process or fails; non-trivial: it does",
        200,
        4_000,
        |s| (gen_project_name(s), crate::net::gen_fault(s, 9)),
        |(name, fault): &(String, crate::net::Fault)| {
            let dir = fresh("new-fault");
            let top = dir.join("d");
            put(&top, "bystander.txt", "kept");
            let before = snapshot(&top);
            let arg = format!("--name={name}");
            let (o, injected, killed) = fault.run(Cmd::new(&top, &["new", &arg]), &top, &dir.join("count"))?;
            let after = snapshot(&top);
            for (k, v) in &after {
                if before.get(k) != Some(v) && k != name && !k.starts_with(&format!("{name}/")) {
                    return Err(format!("`brack new` makes {k:?} (fault {fault:?})"));
                }
            }
            if before.iter().any(|(k, v)| after.get(k) != Some(v)) {
                return Err(format!("`brack new` changes what was there (fault {fault:?})"));
            }
            if o.ok() {
                let root = top.join(name);
                Project::new(&root).load_brack_toml().map_err(|e| format!("`brack new` succeeds (fault {fault:?}), but the project does not load: {e:#}"))?;
                for f in ["docs/main.[]", ".gitignore"] {
                    if !root.join(f).is_file() {
                        return Err(format!("`brack new` succeeds (fault {fault:?}), but there is no {f}"));
                    }
                }
                if std::fs::read_to_string(root.join(".gitignore")).is_ok_and(|t| t.lines().count() < 2) {
                    return Err(format!("`brack new` succeeds (fault {fault:?}), but .gitignore is cut"));
                }
            } else if !injected {
                return Err(format!("`brack new` fails: {}", o.stderr.trim()));
            } else if !killed && o.stderr.trim().is_empty() {
                return Err("`brack new` fails without saying why".into());
            }
            pass(injected, if killed { "killed" } else if injected { "fault" } else { "undisturbed" })
        },
    );
}

// ---------------------------------------------------------------- configuration

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConfCase {
    conf: Conf,
    style: usize,
    /// How it is written, if not in the usual ways.
    text: Option<String>,
    damage: Option<(usize, usize)>,
}

/// Any string at all.
fn gen_any_str(s: &mut Src) -> String {
    let mut t = String::new();
    for _ in 0..s.usize(4) {
        match s.below(4) {
            0 => t.push_str(&gen_plain(s)),
            1 => t.push(*s.pick(&[
                '"', '\'', '\\', '\n', '\t', '\r', '\0', '\u{7f}', '\u{1}', '\u{1b}', '\u{85}', '\u{a0}', '\u{feff}', '\u{2028}', '#', '=', '[', ']', '{', '}', ',', '.', '$', ' ', '%', '~', '/',
            ])),
            2 => t.push_str(&gen_word(s)),
            _ => t.push_str(s.pick(&["true", "1", "null", "", "é", "e\u{301}", "😀", "👩‍👩‍👧", "\"\"\"", "'''", "\\u0041", "\\n", "  ", "\r\n", "${X}", "v1.0", "HTML"])),
        }
    }
    if s.chance(1, 20) {
        t = t.repeat(*s.pick(&[40, 300]));
    }
    t
}

/// A string in one of TOML's ways of writing it.
fn spell_str(s: &mut Src, t: &str, key: bool) -> String {
    let plain = !t.contains('\'') && !t.chars().any(|c| (c as u32) < 0x20 && c != '\t' || c == '\u{7f}');
    match s.below(8) {
        0 | 1 if plain => format!("'{t}'"),
        2 if key && !t.is_empty() && t.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') => t.to_string(),
        3 if !key => {
            let b = toml_str(t);
            format!("\"\"\"{}{}\"\"\"", if t.starts_with([' ', '\t', '\n', '\r']) { "\n" } else { s.pick(&["", "\n", "\\\n   "]) }, &b[1..b.len() - 1])
        }
        4 if plain && !key => format!("'''\n{t}'''"),
        5 => {
            // some of the characters by their numbers or short escapes
            let mut o = String::from("\"");
            for c in t.chars() {
                let short = ['\u{8}', '\t', '\n', '\u{c}', '\r', '"', '\\'].iter().position(|x| *x == c).map(|i| "btnfr\"\\".chars().nth(i).unwrap());
                match (s.below(4), short) {
                    (0..=1, Some(e)) => o.extend(['\\', e]),
                    (2, _) if (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    (3, _) => o.push_str(&format!("\\U{:08X}", c as u32)),
                    _ => {
                        let b = toml_str(&c.to_string());
                        o.push_str(&b[1..b.len() - 1]);
                    }
                }
            }
            o.push('"');
            o
        }
        _ => toml_str(t),
    }
}

/// The configuration in one of the many ways of writing it in TOML.
pub fn spell(s: &mut Src, c: &Conf) -> String {
    let nl = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let eq = |s: &mut Src| s.pick(&[" = ", "=", "   =\t"]).to_string();
    let end = |s: &mut Src| s.pick(&["", "", "", " ", " # a # 'comment'", "\n", "\n# [x]\n\n"]).to_string() + "\n";
    let shuffle = |s: &mut Src, mut v: Vec<(String, String)>| {
        for i in (1..v.len()).rev() {
            v.swap(i, s.usize(i + 1));
        }
        v
    };
    let mut authors: Vec<String> = c.authors.iter().map(|a| spell_str(s, a, false)).collect();
    let authors = match s.below(3) {
        0 => format!("[{}]", authors.join(", ")),
        1 => {
            authors.push(String::new());
            if authors.len() == 1 { "[ ]".into() } else { format!("[{}]", authors.join(",")) }
        }
        _ => format!("[\n{} ]", authors.iter().map(|a| format!("  {a}, # one\n")).collect::<String>()),
    };
    let mut doc: Vec<(String, String)> = vec![];
    for (k, v) in [("name", &c.name), ("version", &c.version), ("backend", &c.backend)] {
        doc.push((spell_str(s, k, true), spell_str(s, v, false)));
    }
    doc.push((spell_str(s, "authors", true), authors));
    let doc = shuffle(s, doc);
    // before the first table header, and after it
    let (mut top, mut tables): (Vec<String>, Vec<String>) = (vec![], vec![]);
    match s.below(4) {
        0 => {
            for (k, v) in &doc {
                top.push(format!("document.{k}{}{v}{}", eq(s), end(s)));
            }
        }
        1 if !doc.iter().any(|(_, v)| v.contains('\n')) => {
            top.push(format!("document = {{{}}}\n", doc.iter().map(|(k, v)| format!("{k}{}{v}", eq(s))).collect::<Vec<_>>().join(", ")));
        }
        _ => {
            let mut t = format!("{}{}", s.pick(&["[document]", "[ document ]", "[\"document\"]", "['document']"]), end(s));
            for (k, v) in &doc {
                t.push_str(&format!("{}{k}{}{v}{}", s.pick(&["", "", "  ", "\t"]), eq(s), end(s)));
            }
            tables.push(t);
        }
    }
    if let Some(ps) = &c.plugins {
        let way = s.below(4);
        let mut one = vec![];
        for (n, p) in ps {
            let mut f: Vec<(String, String)> = vec![("schema".into(), spell_str(s, "github", false))];
            for (k, v) in [("owner", &p.owner), ("repo", &p.repo), ("version", &p.version)] {
                f.push((k.into(), spell_str(s, v, false)));
            }
            for (h, b) in ["document_hook", "stmt_hook", "expr_hook", "text_hook"].iter().zip(p.hooks) {
                if let Some(b) = b {
                    f.push((h.to_string(), b.to_string()));
                }
            }
            let f: Vec<(String, String)> = f.into_iter().map(|(k, v)| (spell_str(s, &k, true), v)).collect();
            let f = shuffle(s, f);
            let n = spell_str(s, n, true);
            let flat = !f.iter().any(|(_, v)| v.contains('\n'));
            let inline = |s: &mut Src| format!("{{ {} }}", f.iter().map(|(k, v)| format!("{k}{}{v}", eq(s))).collect::<Vec<_>>().join(s.pick(&[", ", ","])));
            match way {
                0 if flat => one.push(format!("{n}{}{}{}", eq(s), inline(s), end(s))),
                0 | 1 => one.push(f.iter().map(|(k, v)| format!("{n}.{k}{}{v}{}", eq(s), end(s))).collect()),
                2 if flat => top.push(format!("plugins.{n}{}{}{}", eq(s), inline(s), end(s))),
                2 => top.push(f.iter().map(|(k, v)| format!("plugins . {n}.{k}{}{v}{}", eq(s), end(s))).collect()),
                _ => tables.push(format!("[plugins.{n}]{}{}", end(s), f.iter().map(|(k, v)| format!("{k}{}{v}{}", eq(s), end(s))).collect::<String>())),
            }
        }
        if way < 2 {
            tables.push(format!("[plugins]{}{}", end(s), one.concat()));
        } else if ps.is_empty() {
            if s.bool() { tables.push("[plugins]\n".into()) } else { top.push("plugins = {}\n".into()) }
        }
    }
    for v in [&mut top, &mut tables] {
        for i in (1..v.len()).rev() {
            v.swap(i, s.usize(i + 1));
        }
    }
    let mut t = top.concat() + &tables.concat();
    if s.chance(1, 4) {
        t = t.trim_end_matches('\n').to_string();
    }
    t.replace('\n', nl)
}

pub fn gen_any_conf(s: &mut Src) -> Conf {
    let n = if s.chance(1, 16) { s.range(4, 20) } else { s.usize(4) };
    let mut names: Vec<(String, [bool; 4])> = vec![];
    for _ in 0..n {
        let name = match s.below(3) {
            0 => gen_plain(s),
            _ => gen_name(s),
        };
        let name = if names.iter().any(|x| x.0 == name) { format!("{name}{}", names.len()) } else { name };
        if !names.iter().any(|x| x.0 == name) {
            names.push((name, [s.chance(1, 4), s.chance(1, 4), s.chance(1, 4), s.chance(1, 4)]));
        }
    }
    let mut c = gen_conf(s, &names);
    for p in c.plugins.iter_mut().flat_map(|p| p.values_mut()) {
        for f in [&mut p.owner, &mut p.repo, &mut p.version] {
            if s.chance(1, 3) {
                *f = if s.bool() { gen_plain(s) } else { gen_any_str(s) };
            }
        }
    }
    for f in [&mut c.name, &mut c.version, &mut c.backend].into_iter().chain(&mut c.authors) {
        if s.chance(1, 3) {
            *f = gen_any_str(s);
        }
    }
    if s.chance(1, 12) {
        c.authors = (0..s.range(3, 20)).map(|_| gen_any_str(s)).collect();
    }
    c
}

fn conf_json(c: &Config) -> J {
    serde_json::to_value(c).unwrap()
}

/// Written from the meaning of the keys, not through the code under test.
fn want_json(c: &Conf) -> J {
    let plugins: J = match &c.plugins {
        None => J::Null,
        Some(p) => J::Object(
            p.iter()
                .map(|(k, v)| {
                    let mut o = serde_json::json!({"schema": "github", "owner": v.owner, "repo": v.repo, "version": v.version});
                    for (h, b) in ["document_hook", "stmt_hook", "expr_hook", "text_hook"].iter().zip(v.hooks) {
                        if let Some(b) = b {
                            o[*h] = b.into();
                        }
                    }
                    (k.clone(), o)
                })
                .collect(),
        ),
    };
    serde_json::json!({"document": {"name": c.name, "version": c.version, "backend": c.backend, "authors": c.authors}, "plugins": plugins})
}

pub const R21: &str = "generated configurations (strings with quotes, backslashes and any script, up to three plugins with hook settings) in several TOML spellings; non-trivial: at least one plugin";

pub fn c21(c: &mut Ctx) {
    c.sub(
        "round-trip",
        "a configuration written in TOML, loaded by a project, written back and loaded again: the same values, and the hooks set are those of the plugins loaded",
        2000,
        60_000,
        |s| {
            let conf = gen_any_conf(s);
            let text = if s.chance(3, 4) { Some(spell(s, &conf)) } else { None };
            ConfCase { conf, style: s.usize(12), text, damage: None }
        },
        |x: &ConfCase| {
            let root = fresh("conf");
            let t = x.text.clone().unwrap_or_else(|| x.conf.toml(x.style));
            put(&root, "Brack.toml", &t);
            let mut p = Project::new(&root);
            p.load_brack_toml().map_err(|e| format!("a correct Brack.toml does not load: {e:#}\n{t}"))?;
            let want = want_json(&x.conf);
            if conf_json(&p.config) != want {
                return Err(format!("loaded {}\nexpected {want}\nfrom {t}", conf_json(&p.config)));
            }
            let back = toml::to_string(&p.config).map_err(|e| format!("the configuration cannot be written: {e}"))?;
            let again: Config = toml::from_str(&back).map_err(|e| format!("the configuration written cannot be read: {e}\n{back}"))?;
            if conf_json(&again) != want {
                return Err(format!("written and read again: {}\nexpected {want}", conf_json(&again)));
            }
            let names: Vec<String> = x.conf.plugins.iter().flat_map(|p| p.keys().cloned()).collect();
            for n in &names {
                put(&root, &x.conf.stored(n), "stored");
            }
            let rt = must(tokio::runtime::Builder::new_current_thread().enable_all().build(), "start the runtime");
            rt.block_on(p.download_plugins_using_config()).map_err(|e| format!("stored plugins are not used: {e:#}"))?;
            if p.plugins_metadata.len() != names.len() {
                return Err(format!("{} plugins are configured, {} are known", names.len(), p.plugins_metadata.len()));
            }
            for n in &names {
                let pc = &x.conf.plugins.as_ref().unwrap()[n];
                let (path, f) = p.plugins_metadata.get(n).ok_or(format!("the plugin {n:?} is not known"))?;
                let got = [f.document_hook, f.stmt_hook, f.expr_hook, f.text_hook];
                if got != pc.hooks.map(|h| h.unwrap_or(false)) {
                    return Err(format!("the plugin {n:?} has the hooks {:?} (document, stmt, expr, text), but {got:?} are enabled", pc.hooks));
                }
                if *path != root.join(x.conf.stored(n)) {
                    return Err(format!("the plugin {n:?} is taken from {path:?}"));
                }
            }
            pass(!names.is_empty(), format!("{} plugins", names.len()))
        },
    );
    c.sub(
        "invalid",
        "a configuration with one key missing, unknown, repeated, misspelt or of another type, or cut short: refused, the loaded configuration stays as it was",
        1500,
        40_000,
        |s| {
            let mut conf = gen_any_conf(s);
            if s.bool() && conf.plugins.as_ref().is_none_or(|p| p.is_empty()) {
                conf = gen_conf(s, &[("std".into(), [false, true, false, false])]);
            }
            ConfCase { conf, style: s.usize(12), text: None, damage: Some((s.usize(10), s.usize(2000))) }
        },
        |x: &ConfCase| {
            let (what, at) = x.damage.unwrap();
            let t = x.conf.toml(x.style | 1); // one key per line
            let mut lines: Vec<String> = t.lines().map(|l| l.to_string()).collect();
            let keyed: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].contains(" = ")).collect();
            let i = keyed[at % keyed.len()];
            let in_plugin = lines[..i].iter().any(|l| l.starts_with("[plugins"));
            let (k, v) = lines[i].split_once(" = ").map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
            let class = match what {
                0 => {
                    if k.ends_with("_hook") {
                        return pass(false, "optional");
                    }
                    lines.remove(i);
                    "missing"
                }
                1 => {
                    lines.insert(i + 1, lines[i].clone());
                    "repeated"
                }
                2 | 6 => {
                    const ANY: &[&str] = &["1", "\"x\"", "true", "1.5", "[]", "{}", "1979-05-27", "[\"x\"]", "[1]", "[\"x\", true]", "[[\"x\"]]", "\"true\"", "0", "{ a = \"x\" }", "nan", "\"\""];
                    let fits = |w: &str| match v.chars().next() {
                        Some('"') => w.starts_with('"'),
                        Some('[') => ["[]", "[\"x\"]"].contains(&w),
                        _ => w == "true",
                    };
                    let w = (at / keyed.len().max(1)..).map(|n| ANY[n % ANY.len()]).find(|w| !fits(w)).unwrap();
                    lines[i] = format!("{k} = {w}");
                    "type"
                }
                7 => {
                    if k.ends_with("_hook") && !in_plugin {
                        return pass(false, "nothing to misspell");
                    }
                    let first = k[..1].to_uppercase() + &k[1..];
                    let camel = k.replace("_h", "H");
                    let mut bad = vec![format!("{k}_"), k.to_uppercase(), k.replace('_', "-"), camel, first, k.replace('_', ""), format!("{k}s"), format!("_{k}"), k[..3].to_string(), format!("\"{k} \""), format!("x.{k}")];
                    bad.retain(|b| *b != k);
                    lines[i] = format!("{} = {v}", bad[at / keyed.len() % bad.len()]);
                    "misspelt"
                }
                8 => {
                    // a table of another name, or none
                    let heads: Vec<usize> = (0..lines.len()).filter(|i| lines[*i] == "[document]").collect();
                    match at % 4 {
                        0 => lines[heads[0]] = "[Document]".into(),
                        1 => lines[heads[0]] = "[[document]]".into(),
                        2 => lines.insert(0, "document = \"x\"".into()),
                        _ => lines.insert(0, if t.contains("[plugins") { "plugins = 1".into() } else { "plugins = \"std\"".to_string() }),
                    }
                    "table"
                }
                9 => {
                    // cut within the string of the last value that has one
                    let Some(i) = keyed.iter().rev().find(|i| lines[**i].ends_with('"')) else { return pass(false, "no string") };
                    lines.truncate(i + 1);
                    lines[*i].pop();
                    "cut"
                }
                3 => {
                    if !in_plugin {
                        return pass(false, "unknown document keys are allowed");
                    }
                    const KEYS: &[&str] = &["", "url", "hooks", "branch", "tag", "name", "description", "document-hook", "textHook", "stmt", "hash", "path", "hook", "backend", "macro_hook", "rev", "enabled", "x_a", "x-a", "_", "_note", "__", "#A", "comment", "notes", "metadata", "x", "日本", "A", "0", "document_hook.a", "default", "optional", "homepage", "license", "authors"];
                    lines.insert(i, match KEYS[at / keyed.len() % KEYS.len()] {
                        "" => format!("{k}x = {v}"),
                        new => format!("{} = {}", if new.is_ascii() && !new.contains('#') { new.to_string() } else { format!("{new:?}") }, ["true", "\"x\"", "false"][at % 3]),
                    });
                    "unknown"
                }
                4 => {
                    if k != "schema" {
                        return pass(false, "not a schema");
                    }
                    lines[i] = ["schema = \"gitlab\"", "schema = \"GitHub\"", "schema = \"\"", "schema = \"github \""][at % 4].into();
                    "schema"
                }
                _ => {
                    lines[i] = format!("{k} = ");
                    "syntax"
                }
            };
            let bad = lines.join("\n");
            let root = fresh("conf");
            put(&root, "Brack.toml", &t);
            let mut p = Project::new(&root);
            p.load_brack_toml().map_err(|e| format!("a correct Brack.toml does not load: {e:#}\n{t}"))?;
            let was = conf_json(&p.config);
            put(&root, "Brack.toml", &bad);
            if p.load_brack_toml().is_ok() {
                return Err(format!("a Brack.toml that is wrong ({class}) is loaded as {}\n{bad}", conf_json(&p.config)));
            }
            if conf_json(&p.config) != was {
                return Err("a failed load changes the configuration".into());
            }
            put(&root, "docs/main.[]", "text");
            let before = snapshot(&root);
            let o = Cmd::new(&root, &["build"]).run()?;
            if o.ok() {
                return Err(format!("the build accepts a Brack.toml that is wrong ({class})\n{bad}"));
            }
            same_files("after the refused build", &before, &snapshot(&root))?;
            pass(true, class)
        },
    );
}
