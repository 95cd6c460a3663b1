//! Downloading and storing plugins: `brack build` and `brack add`, with a stand-in for GitHub and
//! faults of the network, the disk and the process.
use crate::cli::*;
use crate::cmdline::*;
use crate::net::{self, gen_fault, Fault, Reply};
use crate::wat::{plugin_wat, Act, Spec};
use brack_plugin::types::Type;
use brack_project_manager::config::Config;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use vh_core::runner::{pass, Ctx, Res};
use vh_core::src_choice::Src;

fn gen_reply(s: &mut Src, good: u64) -> Reply {
    if s.chance(good, 8) {
        return match s.below(6) {
            0..=2 => Reply::Ok,
            3 => Reply::OkUntilClose,
            4 => Reply::Chunked,
            _ => Reply::Redirect(*s.pick(&[302, 301, 303, 307, 308])),
        };
    }
    match s.below(8) {
        0..=2 => Reply::Status(*s.pick(&[404, 500, 403, 401, 429, 503, 410, 300, 304, 400])),
        3 => Reply::Cut(s.below(1000) as u32),
        4 => Reply::CutChunked(s.below(1000) as u32),
        5 => Reply::Reset,
        6 => Reply::Garbage,
        _ => Reply::Loop,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Owner(usize, String),
    Repo(usize, String),
    Version(usize, String),
    Backend(String),
    Remove(usize),
    Restore(usize),
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fetch {
    names: Vec<String>,
    conf: Conf,
    /// Bytes of comment in each plugin.
    pad: usize,
    /// Edits of the configuration, then the answers the server gives for each plugin, then maybe
    /// a fault while building.
    steps: Vec<(Vec<Edit>, Vec<Reply>, Option<Fault>)>,
}

fn gen_fetch(s: &mut Src, faults: bool) -> Fetch {
    let mut names: Vec<String> = vec![];
    let many = s.chance(1, 12);
    let count = match s.below(4) {
        _ if !many => s.range(1, 3),
        0 => *s.pick(&[15, 16, 17, 20, 31, 32, 33, 40, 64, 65]),
        _ => s.range(4, 12),
    };
    for k in 0..count {
        let n = s.pick(&["math", "X", "tab-le", "_p", "q9", "std", "a-b", "my_mod", "h1", "x", "m2", "std2", "std_html"]).to_string();
        // the name of its file may have 255 bytes
        let n = if s.chance(1, 25) { n[..1].repeat(*s.pick(&[185, 184, 180, 150])) } else { n };
        let n = if k >= 12 { format!("p{k}") } else { n };
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let list: Vec<(String, [bool; 4])> = names.iter().map(|n| (n.clone(), [false; 4])).collect();
    let mut conf = gen_conf(s, &list);
    const B: &[&str] = &["html", "tex", "json", "HTML5", "md"];
    conf.backend = s.pick(B).to_string();
    let n = if faults { s.range(1, 2) } else { s.range(1, 5) };
    let steps = (0..n)
        .map(|k| {
            let edits = (0..if k == 0 { 0 } else { s.usize(3) })
                .map(|_| {
                    let i = s.usize(names.len());
                    match s.below(7) {
                        0 => Edit::Owner(i, gen_ref(s)),
                        1 => Edit::Repo(i, gen_ref(s)),
                        2 | 3 => Edit::Version(i, gen_ref(s)),
                        4 => Edit::Backend(s.pick(B).to_string()),
                        5 => Edit::Remove(i),
                        6 => Edit::Restore(i),
                        _ => Edit::Nothing,
                    }
                })
                .collect();
            let replies = names.iter().map(|_| if faults { gen_reply(s, 8) } else { gen_reply(s, 6) }).collect();
            let fault = if faults { Some(gen_fault(s, 14)) } else { None };
            (edits, replies, fault)
        })
        .collect();
    let pad = if s.chance(1, 20) { *s.pick(&[60_000, 70_000, 1 << 20, 3_000_000]) / count } else { 0 };
    Fetch { names, conf, pad, steps }
}

/// What the server has under a URL: a plugin that tells where it came from.
fn plugin_at(url: &str, pad: usize) -> Vec<u8> {
    let spec = Spec { name: "c".into(), args: vec![Type::TInline], ret: Type::TInline, act: Act::Echo(format!("<{url}|"), ">".into()) };
    let mut v = plugin_wat(&[spec]).into_bytes();
    if pad > 0 {
        // the bytes differ from place to place, so that pieces cannot be mistaken for each other
        v.extend(b"\n;; ");
        v.extend((0..pad).map(|k| b'a' + (k / 7 + k / 1000) as u8 % 26));
    }
    v
}

fn url_of(c: &Conf, name: &str) -> String {
    let p = &c.plugins.as_ref().unwrap()[name];
    format!("https://github.com/{}/{}/releases/download/{}/{}.{}.wasm", p.owner, p.repo, p.version, name, c.backend)
}

fn files_below<'a>(s: &'a Snap, dir: &str) -> BTreeMap<String, &'a Ent> {
    s.iter().filter(|(k, _)| k.starts_with(dir)).map(|(k, v)| (k.clone(), v)).collect()
}

fn run_fetch(x: &Fetch) -> Res {
    net::with(|net| {
        net.reset();
        let top = fresh("fetch");
        let root = top.join("p");
        let count = top.join("count");
        must(std::fs::create_dir_all(root.join("docs")), "create docs");
        let mut conf = x.conf.clone();
        let all = conf.plugins.clone().unwrap_or_default();
        let mut stored: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let (mut good, mut bad, mut faulty) = (0, 0, 0);
        for (k, (edits, replies, fault)) in x.steps.iter().enumerate() {
            for e in edits {
                let Some(ps) = conf.plugins.as_mut() else { continue };
                let mut set = |i: &usize, f: &dyn Fn(&mut PlugConf)| {
                    if let Some(p) = ps.get_mut(&x.names[*i]) {
                        f(p)
                    }
                };
                match e {
                    Edit::Owner(i, v) => set(i, &|p| p.owner = v.clone()),
                    Edit::Repo(i, v) => set(i, &|p| p.repo = v.clone()),
                    Edit::Version(i, v) => set(i, &|p| p.version = v.clone()),
                    Edit::Backend(b) => conf.backend = b.clone(),
                    Edit::Remove(i) => {
                        ps.remove(&x.names[*i]);
                    }
                    Edit::Restore(i) => {
                        if let Some(p) = all.get(&x.names[*i]) {
                            ps.insert(x.names[*i].clone(), p.clone());
                        }
                    }
                    Edit::Nothing => {}
                }
            }
            let mut names: Vec<String> = conf.plugins.iter().flat_map(|p| p.keys().cloned()).collect();
            names.sort();
            put(&root, "Brack.toml", conf.toml(k));
            let doc: String = names.iter().map(|n| format!("[{n}.c x]")).collect();
            put(&root, "docs/main.[]", format!("{doc}."));
            net.reset();
            let mut wanted: BTreeSet<String> = BTreeSet::new();
            let mut all_good = true;
            let mut may_store: BTreeMap<String, Vec<u8>> = BTreeMap::new();
            for n in &names {
                let u = url_of(&conf, n);
                let key = conf.stored(n);
                let r = &replies[x.names.iter().position(|m| m == n).unwrap()];
                let body = plugin_at(&u, x.pad);
                net.set(&u, r.clone(), &body);
                if !stored.contains_key(&key) {
                    wanted.insert(u);
                    all_good &= r.good();
                    if r.good() {
                        may_store.insert(key, body);
                    }
                }
            }
            let before = snapshot(&root);
            let mut c = Cmd::new(&root, &["build"]);
            c.env.extend(net.env());
            let (mut injected, mut killed) = (false, false);
            let o = match fault {
                None => c.run()?,
                Some(f) => {
                    let o;
                    (o, injected, killed) = f.run(c, &root, &count)?;
                    o
                }
            };
            let after = snapshot(&root);
            let log = net.take_log();
            let asked: BTreeSet<String> = log.iter().filter_map(|l| l.strip_prefix("GET ")).filter(|l| l.starts_with("https://github.com/")).map(|l| l.to_string()).collect();
            if !injected {
                // after one failure the others need not be requested any more
                if if all_good { asked != wanted } else { !asked.is_subset(&wanted) } {
                    return Err(format!("requested {asked:?}\nexpected  {wanted:?}\nbuild {k}: {}", o.stderr.trim()));
                }
                let looping = replies.contains(&Reply::Loop);
                if !looping && log.iter().filter(|l| l.contains("//github.com/")).count() != asked.len() {
                    return Err(format!("a plugin is requested more than once: {log:?}"));
                }
            }
            let success = all_good && !injected;
            if success && !o.ok() {
                return Err(format!("build {k} fails: {}\nanswers {replies:?}", o.stderr.trim()));
            }
            if !all_good && o.ok() {
                return Err(format!("build {k} succeeds though a plugin could not be downloaded: {replies:?}"));
            }
            if !success && !killed && !o.ok() && o.stderr.trim().is_empty() {
                return Err("the build fails without saying why".into());
            }
            // the store: whole files only, what was there stays
            let mut want = before.clone();
            for (key, body) in &may_store {
                let there = after.get(key) == Some(&Ent::File(body.clone()));
                if there || success {
                    want.insert(key.clone(), Ent::File(body.clone()));
                    stored.insert(key.clone(), body.clone());
                }
            }
            if after.get("plugins") == Some(&Ent::Dir) {
                want.insert("plugins".into(), Ent::Dir);
            }
            let (mut a, w) = (files_below(&after, "plugins"), files_below(&want, "plugins"));
            if killed {
                // what an ended process left under other names is no plugin
                a.retain(|f, _| w.contains_key(f) || f.ends_with(".wasm"));
            }
            for f in a.keys().chain(w.keys()) {
                if a.get(f) != w.get(f) {
                    return Err(format!("after build {k} ({}), {f:?} is {}", if success { "succeeding" } else { "failing" }, match (a.get(f), w.get(f)) {
                        (None, _) => "missing".to_string(),
                        (Some(Ent::File(b)), _) => format!("a file of {} bytes that should not be there", b.len()),
                        _ => "wrong".into(),
                    }));
                }
            }
            let out = format!("out/main.{}", conf.backend);
            if o.ok() {
                let text: String = names.iter().map(|n| format!("<{}|[{}]>.", url_of(&conf, n), json!({"Text": "x"}))).collect::<Vec<_>>().join("").replace(">.<", "><");
                let text = if names.is_empty() { ".".to_string() } else { text };
                if after.get(&out) != Some(&Ent::File(text.clone().into_bytes())) {
                    return Err(format!("build {k} gives {:?}, expected {text:?}", after.get(&out).map(|e| if let Ent::File(b) = e { String::from_utf8_lossy(b).into_owned() } else { "?".into() })));
                }
                good += 1;
            } else if !injected && files_below(&after, "out") != files_below(&before, "out") {
                return Err("a failing build changes the output".into());
            } else {
                bad += 1;
            }
            if injected {
                faulty += 1;
                // the next build, undisturbed, puts everything right
                for n in &names {
                    let u = url_of(&conf, n);
                    net.set(&u, Reply::Ok, &plugin_at(&u, x.pad));
                }
                let mut c = Cmd::new(&root, &["build"]);
                c.env.extend(net.env());
                let o = c.run()?;
                if !o.ok() {
                    return Err(format!("after a fault ({fault:?}) the next build fails, too: {}", o.stderr.trim()));
                }
                let after = snapshot(&root);
                let text: String = names.iter().map(|n| format!("<{}|[{}]>", url_of(&conf, n), json!({"Text": "x"}))).collect::<String>() + ".";
                if after.get(&out) != Some(&Ent::File(text.clone().into_bytes())) {
                    return Err(format!("after a fault ({fault:?}) the next build does not give {text:?}"));
                }
                for n in &names {
                    let (key, body) = (conf.stored(n), plugin_at(&url_of(&conf, n), x.pad));
                    if after.get(&key) != Some(&Ent::File(body.clone())) {
                        return Err(format!("after a fault ({fault:?}) and another build the stored plugin {n} is damaged"));
                    }
                    stored.insert(key, body);
                }
            }
        }
        pass(good + bad + faulty > 0 && !x.names.is_empty(), format!("{good} built, {bad} refused, {faulty} disturbed"))
    })
}

/// Where a run is held, and whether it goes on or is ended there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hold {
    at: u64,
    half: bool,
    kill: bool,
}

fn gen_hold(s: &mut Src, max: usize) -> Hold {
    Hold { at: s.range(1, max) as u64, half: s.bool(), kill: s.chance(1, 5) }
}

struct Held {
    run: Running,
    go: std::path::PathBuf,
    kill: bool,
}

/// Starts brack and returns once it waits at the given change of the file system, or has ended.
fn start_held(net: &net::Net, root: &Path, args: &[&str], h: Option<&Hold>, go: std::path::PathBuf) -> Held {
    let mut c = Cmd::new(root, args);
    c.env.extend(net.env());
    if let Some(h) = h {
        c.env.extend([
            ("LD_PRELOAD".to_string(), net::fault_lib().display().to_string()),
            ("VH_FAULT_ROOT".into(), root.display().to_string()),
            ("VH_FAULT_AT".into(), h.at.to_string()),
            ("VH_FAULT_KIND".into(), if h.half { "pause-half" } else { "pause" }.to_string()),
            ("VH_FAULT_GO".into(), go.display().to_string()),
        ]);
    }
    let mut run = c.start();
    let at = go.with_extension("at");
    let t0 = std::time::Instant::now();
    while !at.exists() && !run.ended() && t0.elapsed().as_secs() < 20 {
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    Held { run, go, kill: h.is_some_and(|h| h.kill) }
}

impl Held {
    /// None: it was ended by us.
    fn finish(mut self) -> Result<Option<Out>, String> {
        let waits = self.go.with_extension("at").exists();
        if self.kill && waits && !self.run.ended() {
            self.run.kill();
            self.run.end()?;
            return Ok(None);
        }
        let _ = std::fs::write(&self.go, "");
        let o = self.run.end()?;
        if o.signal.is_some() || o.code == Some(101) || o.stderr.contains("panicked at") {
            return Err(format!("brack crashes ({:?}): {}", o.signal, o.stderr.trim()));
        }
        Ok(Some(o))
    }
}

/// Two runs of brack in one project. The first is held at one change, then the second starts, and
/// is maybe held, too; then they end in this order or the other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AtOnce {
    names: Vec<String>,
    pad: usize,
    conf: Conf,
    /// What is there of it before: an earlier build.
    built: bool,
    first: Hold,
    second: Option<Hold>,
    second_ends_first: bool,
}

fn run_at_once(x: &AtOnce) -> Res {
    net::with(|net| {
        net.reset();
        let top = fresh("at-once");
        let root = top.join("p");
        put(&root, "Brack.toml", x.conf.toml(0));
        let doc: String = x.names.iter().map(|n| format!("[{n}.c x]")).collect();
        put(&root, "docs/main.[]", format!("{doc}."));
        let mut whole: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for n in &x.names {
            let u = url_of(&x.conf, n);
            net.set(&u, Reply::Ok, &plugin_at(&u, x.pad));
            whole.insert(x.conf.stored(n), plugin_at(&u, x.pad));
        }
        let out = format!("out/main.{}", x.conf.backend);
        let text: String = x.names.iter().map(|n| format!("<{}|[{}]>", url_of(&x.conf, n), json!({"Text": "x"}))).collect::<String>() + ".";
        if x.built {
            let mut c = Cmd::new(&root, &["build"]);
            c.env.extend(net.env());
            let o = c.run()?;
            if !o.ok() {
                return Err(format!("the build fails: {}", o.stderr.trim()));
            }
        }
        let look = |when: &str| -> Result<(), String> {
            for (f, e) in files_below(&snapshot(&root), "plugins/") {
                if let (Some(b), true) = (whole.get(&f), f.ends_with(".wasm")) {
                    if *e != Ent::File(b.clone()) {
                        return Err(format!("{when}, the stored plugin {f:?} is not whole"));
                    }
                }
            }
            Ok(())
        };
        let a = start_held(net, &root, &["build"], Some(&x.first), top.join("go-a"));
        look("while the first build waits")?;
        let b = start_held(net, &root, &["build"], x.second.as_ref(), top.join("go-b"));
        look("while a build waits")?;
        let mut runs = vec![("first", a), ("second", b)];
        if x.second_ends_first {
            runs.reverse();
        }
        let mut ended = 0;
        for (name, r) in runs {
            match r.finish()? {
                Some(o) if !o.ok() => return Err(format!("of two builds at once the {name} fails: {}", o.stderr.trim())),
                Some(_) => ended += 1,
                None => {}
            }
            look(&format!("after the {name} of two builds"))?;
        }
        if ended == 0 {
            let mut c = Cmd::new(&root, &["build"]);
            c.env.extend(net.env());
            let o = c.run()?;
            if !o.ok() {
                return Err(format!("after two builds that were ended the next fails: {}", o.stderr.trim()));
            }
        }
        let after = snapshot(&root);
        for (f, b) in &whole {
            if after.get(f) != Some(&Ent::File(b.clone())) {
                return Err(format!("in the end the stored plugin {f:?} is missing or not whole"));
            }
        }
        if !(x.first.kill || x.second.as_ref().is_some_and(|h| h.kill)) && after.get(&out) != Some(&Ent::File(text.clone().into_bytes())) {
            return Err(format!("in the end the output is not {text:?}"));
        }
        pass(true, format!("{} plugins, {ended} ended", x.names.len()))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: (PlugConf, String),
    b: (PlugConf, String),
}

pub const R22: &str = "projects whose plugins are served by a stand-in for GitHub, built repeatedly while versions, repositories and backend change; non-trivial: the project has plugins";

pub fn c22(c: &mut Ctx) {
    c.sub("histories", "one to five builds with edits of the configuration between them; the server answers well, with errors, cut short or not at all", 400, 12_000, |s| gen_fetch(s, false), run_fetch);
    c.sub("faults", "the n-th change to the file system during a build ends the process or fails (disk full, input/output error)", 500, 15_000, |s| gen_fetch(s, true), run_fetch);
    c.sub(
        "at-once",
        "two builds of one project at the same time, held at generated changes of the file system (also within a write), ended in either order or killed",
        300,
        9_000,
        |s| {
            let mut f = gen_fetch(s, true);
            f.names.truncate(3);
            if let Some(p) = f.conf.plugins.as_mut() {
                p.retain(|k, _| f.names.contains(k));
            }
            AtOnce {
                names: {
                    f.names.sort();
                    f.names
                },
                conf: f.conf,
                pad: f.pad,
                built: s.chance(1, 6),
                first: gen_hold(s, 12),
                second: if s.bool() { Some(gen_hold(s, 12)) } else { None },
                second_ends_first: s.bool(),
            }
        },
        run_at_once,
    );
    c.sub(
        "store-names",
        "pairs of plugin entries and backends, equal or different in one place, or with characters moved between neighbouring fields",
        4000,
        200_000,
        |s| {
            let mk = |s: &mut Src| PlugConf { owner: gen_plain(s), repo: gen_plain(s), version: gen_plain(s), hooks: [None; 4] };
            let a = (mk(s), gen_ref(s));
            let mut b = a.clone();
            match s.below(8) {
                0 => b.0.owner = gen_plain(s),
                1 => b.0.repo = gen_plain(s),
                2 => b.0.version = gen_plain(s),
                3 => b.1 = gen_ref(s),
                4 => std::mem::swap(&mut b.0.owner, &mut b.0.repo),
                5 => {
                    let c = b.0.owner.pop();
                    if let Some(c) = c {
                        b.0.repo.insert(0, c);
                    }
                }
                6 => {
                    let c = b.0.version.pop();
                    if let Some(c) = c {
                        b.1.insert(0, c);
                    }
                }
                _ => {}
            }
            Pair { a, b }
        },
        |p: &Pair| {
            let name = |x: &(PlugConf, String)| x.0.schema().hash_sha256(&x.1);
            let same = serde_json::to_string(&p.a).unwrap() == serde_json::to_string(&p.b).unwrap();
            let (m, n) = (name(&p.a), name(&p.b));
            if same != (m == n) {
                return Err(format!("{:?} and {:?} are stored as {m} and {n}", p.a, p.b));
            }
            if !m.bytes().all(|b| b.is_ascii_alphanumeric()) || m.is_empty() {
                return Err(format!("the store name {m:?} is not alphanumeric, so `brack compile` does not find the plugin"));
            }
            pass(!same, if same { "same" } else { "different" })
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Add {
    conf: Option<Conf>,
    style: usize,
    /// Brack.toml, if not written in the usual ways.
    text: Option<String>,
    schema: Schema,
    reply: Reply,
    /// How long the plugin is, and what is in it.
    body: (usize, usize),
    plugins_dir: usize,
    fault: Option<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Schema {
    Good { owner: String, repo: String, version: String },
    /// With what lies where it may be taken to point.
    Bad(String, String),
}

fn gen_add(s: &mut Src, fault: bool) -> Add {
    let mut names: Vec<(String, [bool; 4])> = vec![];
    for _ in 0..s.usize(3) {
        let n = s.pick(&["std", "a", "x_y", "other", "日本", "*"]).to_string();
        if !names.iter().any(|x| x.0 == n) {
            names.push((n, [s.chance(1, 3), false, s.chance(1, 3), false]));
        }
    }
    let conf = if s.chance(1, 12) && !fault {
        None
    } else if s.chance(1, 4) {
        Some(gen_any_conf(s))
    } else {
        Some(gen_conf(s, &names))
    };
    let text = match &conf {
        Some(c) if s.bool() => Some(spell(s, c)),
        _ => None,
    };
    let (owner, repo, version) = (gen_ref(s), s.pick(&["std.html", "std", "new-plugin", "plug.tex.x", "other", "x_y.json", "N"]).to_string().repeat(if s.chance(1, 25) { 18 } else { 1 }), s.pick(&["v0.1.0", "main", "1", "feature/x", "v1+b", "latest"]).to_string());
    let schema = if s.chance(1, 5) && !fault {
        let g = format!("github:{owner}/{repo}@{version}");
        let bad = match s.below(10) {
            0 | 8 | 9 => {
                let kind = s.pick(&["gitlab", "github-enterprise", "githubs", "git", "GitHub", "GITHUB", " github", "github ", "xgithub", "github.com", "hub", "http", "https", "file", "", "git+github", "github\u{301}", "githu", "github/github"]);
                format!("{kind}:{owner}/{repo}@{version}")
            }
            1 => format!("github:{owner}/{repo}"),
            2 => format!("github:{owner}"),
            3 => format!("{owner}/{repo}@{version}"),
            4 => "".into(),
            5 => "github:".into(),
            6 => g.replace('/', ""),
            _ => g.replace(':', ""),
        };
        Schema::Bad(bad, format!("https://github.com/{owner}/{repo}/releases/download/{version}/{repo}.wasm"))
    } else {
        Schema::Good { owner, repo, version }
    };
    let reply = if fault { gen_reply(s, 8) } else { gen_reply(s, 5) };
    let n = if s.chance(1, 60) { 3_000_000 } else { *s.pick(&[0usize, 1, 100, 5000, 70_000]) };
    let n = if matches!(reply, Reply::Cut(_)) { n.max(1) } else { n }; // nothing cannot be cut
    let seed = s.below(256) as usize;
    Add {
        conf,
        style: s.usize(12),
        text,
        schema,
        reply,
        body: (n, seed),
        plugins_dir: s.usize(if fault { 3 } else { 5 }),
        fault: if fault { Some(gen_fault(s, 8)) } else { None },
    }
}

fn toml_of(s: &Snap) -> Result<Option<J>, String> {
    match s.get("Brack.toml") {
        Some(Ent::File(b)) => {
            let t = String::from_utf8_lossy(b).into_owned();
            toml::from_str::<Config>(&t).map_err(|e| format!("Brack.toml is damaged ({e}): {t:?}"))?;
            // the file itself, not what the code under test makes of it
            let mut v: J = toml::from_str(&t).map_err(|e| format!("Brack.toml is damaged ({e}): {t:?}"))?;
            if v.get("plugins").is_none() {
                v["plugins"] = json!({});
            }
            Ok(Some(v))
        }
        _ => Ok(None),
    }
}

fn run_add(x: &Add) -> Res {
    net::with(|net| {
        net.reset();
        let top = fresh("add");
        let root = top.join("p");
        let count = top.join("count");
        must(std::fs::create_dir_all(root.join("docs")), "create docs");
        put(&root, "docs/main.[]", "precious");
        if let Some(c) = &x.conf {
            put(&root, "Brack.toml", x.text.clone().unwrap_or_else(|| c.toml(x.style)));
        }
        let (arg, repo, url) = match &x.schema {
            Schema::Good { owner, repo, version } => (
                format!("github:{owner}/{repo}@{version}"),
                repo.clone(),
                format!("https://github.com/{owner}/{repo}/releases/download/{version}/{repo}.wasm"),
            ),
            Schema::Bad(b, url) => (b.clone(), "none".into(), url.clone()),
        };
        let file = format!("plugins/{repo}.wasm");
        match x.plugins_dir {
            1 => put(&root, "plugins/other_1.wasm", "kept"),
            2 => put(&root, &file, "an older one"),
            3 => put(&root, "plugins", "a file"),
            _ => {}
        }
        let bytes: Vec<u8> = (0..x.body.0).map(|i| ((i * 31 + i / 251 + x.body.1) % 251) as u8).collect();
        net.set(&url, x.reply.clone(), &bytes);
        let name = repo.split('.').next().unwrap_or("").to_string();
        let known = x.conf.as_ref().is_some_and(|c| c.plugins.as_ref().is_some_and(|p| p.contains_key(&name)));
        let asks = matches!(x.schema, Schema::Good { .. }) && x.conf.is_some() && !known;
        let should = asks && x.reply.good() && x.plugins_dir != 3;
        let before = snapshot(&root);
        let old = toml_of(&before)?;
        let mut new = old.clone();
        if let (Some(v), Schema::Good { owner, repo, version }) = (&mut new, &x.schema) {
            v["plugins"][&name] = json!({"schema": "github", "owner": owner, "repo": repo, "version": version});
        }
        let mut c = Cmd::new(&root, &["add", &arg]);
        c.env.extend(net.env());
        let (mut injected, mut killed) = (false, false);
        let o = match &x.fault {
            None => c.run()?,
            Some(f) => {
                let o;
                (o, injected, killed) = f.run(c, &root, &count)?;
                o
            }
        };
        let after = snapshot(&root);
        let log = net.take_log();
        if !asks && !log.is_empty() && matches!(x.schema, Schema::Good { .. }) {
            return Err(format!("`brack add` that cannot succeed asks the server: {log:?}"));
        }
        if asks && (log.first() != Some(&format!("GET {url}")) || (x.reply != Reply::Loop && log.iter().filter(|l| l.contains("//github.com/")).count() != 1)) {
            return Err(format!("`brack add {arg}` requests {log:?}, expected {url}"));
        }
        let have = toml_of(&after)?;
        let body = Ent::File(bytes.clone());
        if should && !injected {
            if !o.ok() {
                return Err(format!("`brack add {arg}` fails: {}", o.stderr.trim()));
            }
            let mut want = before.clone();
            want.insert("plugins".into(), Ent::Dir);
            want.insert(file.clone(), body.clone());
            want.insert("Brack.toml".into(), after.get("Brack.toml").cloned().unwrap_or(Ent::Dir));
            same_files("after `brack add`", &want, &after)?;
            if have != new {
                return Err(format!("after `brack add {arg}` Brack.toml is {have:?}\nexpected {new:?}"));
            }
            return pass(true, "added");
        }
        if !should {
            if o.ok() {
                return Err(format!("`brack add {arg}` succeeds, with {:?} from the server", x.reply));
            }
            if o.stderr.trim().is_empty() && !killed {
                return Err("`brack add` fails without saying why".into());
            }
            same_files("after `brack add` that failed", &before, &after)?;
            return pass(asks, if !asks { "refused" } else { "server failure" });
        }
        // a fault while the files were written
        if have != old && have != new {
            return Err(format!("after a fault ({:?}) Brack.toml is {have:?}", x.fault));
        }
        let there = after.get(&file);
        if there != before.get(&file) && there != Some(&body) {
            return Err(format!("after a fault ({:?}) {file:?} is a part of the plugin: {:?}", x.fault, there.map(|e| if let Ent::File(b) = e { b.len() } else { 0 })));
        }
        if have == new && there != Some(&body) {
            return Err(format!("after a fault ({:?}) Brack.toml lists a plugin that is not stored", x.fault));
        }
        if !killed {
            if o.ok() && have != new {
                return Err(format!("`brack add` succeeds without adding (fault {:?})", x.fault));
            }
            if !o.ok() && have != old {
                return Err(format!("`brack add` fails, but adds (fault {:?})", x.fault));
            }
            for k in after.keys() {
                if !before.contains_key(k) && *k != file && k != "plugins" {
                    return Err(format!("`brack add` leaves {k:?} behind (fault {:?})", x.fault));
                }
            }
        }
        for (k, v) in &before {
            if *k != file && k != "Brack.toml" && after.get(k) != Some(v) {
                return Err(format!("`brack add` changes {k:?}"));
            }
        }
        let mut c = Cmd::new(&root, &["add", &arg]);
        c.env.extend(net.env());
        let o2 = c.run()?;
        if o2.ok() != (have == old) {
            return Err(format!("after a fault ({:?}) `brack add` again {}: {}", x.fault, if o2.ok() { "succeeds" } else { "fails" }, o2.stderr.trim()));
        }
        let last = snapshot(&root);
        if toml_of(&last)? != new || last.get(&file) != Some(&body) {
            return Err(format!("after a fault ({:?}) `brack add` again does not put things right", x.fault));
        }
        pass(true, if killed { "killed" } else { "disk fault" })
    })
}

/// Two `brack add` in one project at the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AddsAtOnce {
    conf: Conf,
    /// owner, repo and version
    adds: [(String, String, String); 2],
    sizes: [usize; 2],
    first: Hold,
    second: Option<Hold>,
    second_ends_first: bool,
}

fn run_adds_at_once(x: &AddsAtOnce) -> Res {
    net::with(|net| {
        net.reset();
        let top = fresh("adds");
        let root = top.join("p");
        put(&root, "docs/main.[]", "precious");
        put(&root, "Brack.toml", x.conf.toml(0));
        let before = snapshot(&root);
        let old = toml_of(&before)?.unwrap();
        let mut files: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
        let mut entries = vec![];
        for (k, ((o, r, v), size)) in x.adds.iter().zip(&x.sizes).enumerate() {
            let url = format!("https://github.com/{o}/{r}/releases/download/{v}/{r}.wasm");
            let same = k == 1 && x.adds[0] == x.adds[1];
            let bytes: Vec<u8> = (0..if same { x.sizes[0] } else { *size }).map(|i| ((i * 31 + i / 251 + if same { 0 } else { k * 7 }) % 251) as u8).collect();
            net.set(&url, Reply::Ok, &bytes);
            files.entry(format!("plugins/{r}.wasm")).or_default().insert(bytes);
            entries.push((r.split('.').next().unwrap_or("").to_string(), json!({"schema": "github", "owner": o, "repo": r, "version": v})));
        }
        // each entry may be there or not, but nothing else may change
        let look = |when: &str| -> Result<J, String> {
            let after = snapshot(&root);
            let have = toml_of(&after).map_err(|e| format!("{when}: {e}"))?.ok_or(format!("{when}, Brack.toml is gone"))?;
            let mut rest = have.clone();
            for (name, e) in &entries {
                if have["plugins"].get(name).is_some_and(|p| p == e || entries.iter().any(|(n, e)| n == name && p == e)) && old["plugins"].get(name).is_none() {
                    rest["plugins"].as_object_mut().unwrap().remove(name);
                    if !files.keys().any(|f| after.contains_key(f)) {
                        return Err(format!("{when}, Brack.toml lists {name:?}, but no plugin is stored"));
                    }
                }
            }
            if rest != old {
                return Err(format!("{when}, Brack.toml is {have}"));
            }
            for (f, e) in files_below(&after, "plugins/") {
                let whole = match e {
                    Ent::File(b) => !f.ends_with(".wasm") || files.get(&f).is_some_and(|w| w.contains(b)),
                    _ => false,
                };
                if !whole {
                    return Err(format!("{when}, {f:?} is not a whole plugin"));
                }
            }
            Ok(have)
        };
        let arg = |k: usize| format!("github:{}/{}@{}", x.adds[k].0, x.adds[k].1, x.adds[k].2);
        let a = start_held(net, &root, &["add", &arg(0)], Some(&x.first), top.join("go-a"));
        look("while the first `brack add` waits")?;
        let b = start_held(net, &root, &["add", &arg(1)], x.second.as_ref(), top.join("go-b"));
        look("while a `brack add` waits")?;
        let mut runs = vec![(0, a), (1, b)];
        if x.second_ends_first {
            runs.reverse();
        }
        let mut ended = 0;
        let name = |k: usize| entries[k].0.clone();
        let clash = name(0) == name(1);
        for (k, r) in runs {
            match r.finish()? {
                Some(o) if !o.ok() && (!clash || o.stderr.trim().is_empty()) => return Err(format!("of two `brack add` at once `brack add {}` fails: {}", arg(k), o.stderr.trim())),
                Some(o) if o.ok() => {
                    ended += 1;
                    // what is added later may not know of it, but the last one always lists its own
                    let have = look(&format!("after `brack add {}`", arg(k)))?;
                    if have["plugins"].get(name(k)).is_none() && have["plugins"].get(name(1 - k)).is_none() {
                        return Err(format!("after `brack add {}` no plugin is listed", arg(k)));
                    }
                }
                _ => {
                    look(&format!("after `brack add {}`", arg(k)))?;
                }
            }
        }
        pass(true, format!("{ended} added"))
    })
}

pub const R23: &str = "`brack add` with generated configurations, plugin names and answers of a stand-in for GitHub; non-trivial: the server is asked";

pub fn c23(c: &mut Ctx) {
    c.sub("add", "good and bad plugin references, known and new plugins, all kinds of answers", 900, 20_000, |s| gen_add(s, false), run_add);
    c.sub(
        "at-once",
        "two `brack add` at the same time, held at generated changes of the file system (also within a write), ended in either order or killed",
        300,
        8_000,
        |s| {
            let mut one = || (gen_ref(s), s.pick(&["std.html", "new-plugin", "plug.tex.x", "x_y.json", "N"]).to_string(), gen_ref(s));
            let first = one();
            let second = one();
            let names: Vec<(String, [bool; 4])> = ["other", "日本"].iter().filter(|_| s.bool()).map(|n| (n.to_string(), [false; 4])).collect();
            AddsAtOnce {
                conf: gen_conf(s, &names),
                adds: [first.clone(), if s.chance(1, 4) { first } else { second }],
                sizes: [*s.pick(&[0, 1, 100, 70_000]), *s.pick(&[0, 1, 100, 5000])],
                first: gen_hold(s, 7),
                second: if s.bool() { Some(gen_hold(s, 7)) } else { None },
                second_ends_first: s.bool(),
            }
        },
        run_adds_at_once,
    );
    c.sub("faults", "the n-th change to the file system during `brack add` ends the process or fails", 900, 20_000, |s| gen_add(s, true), run_add);
}
