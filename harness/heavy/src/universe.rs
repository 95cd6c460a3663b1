//! Generated sets of plugins, and the reference evaluation of documents with them.
use crate::wat::{plugin_wat, Act, Spec};
use brack_plugin::{feature_flag::FeatureFlag, plugin::Plugin, plugins::Plugins, types::Type, value::Value};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Arc;
use vh_core::doc::{Entry, Kind};
use vh_core::node::Node;
use vh_core::runner::{harness_error, scratch};
use vh_core::src_choice::Src;
use vh_core::text::gen_name;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plug {
    pub name: String,
    pub specs: Vec<Spec>,
    /// document, stmt, expr, text
    pub flags: [bool; 4],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Universe {
    pub plugins: Vec<Plug>,
}

pub const HOOKS: [(&str, Type); 4] = [
    ("document", Type::TBlock),
    ("stmt", Type::TBlock),
    ("expr", Type::TInline),
    ("text", Type::TInline),
];

pub fn ret_of(k: Kind) -> Type {
    match k {
        Kind::Square => Type::TInline,
        Kind::Curly => Type::TBlock,
        Kind::Angle => Type::TAST,
    }
}

pub fn kind_of(t: &Type) -> Option<Kind> {
    Some(match t {
        Type::TInline => Kind::Square,
        Type::TBlock => Kind::Curly,
        Type::TAST => Kind::Angle,
        _ => return None,
    })
}

pub fn arity(args: &[Type]) -> (usize, usize) {
    let min = args.iter().filter(|t| !matches!(t, Type::TOption(_) | Type::TArray(_))).count();
    let max = if args.iter().any(|t| matches!(t, Type::TArray(_))) { usize::MAX } else { args.len() };
    (min, max)
}

fn required(s: &mut Src) -> Type {
    match s.below(8) {
        0..=5 => Type::TInline,
        6 => Type::TBlock,
        _ => Type::TInlineCmd("x".into()),
    }
}

/// Parameters as plugins have them: required ones, optional ones, then at most one array.
pub fn gen_params(s: &mut Src) -> Vec<Type> {
    let mut v = vec![];
    let r = if s.chance(1, 16) { s.range(4, 12) } else { *s.pick(&[1, 0, 2, 3]) };
    for _ in 0..r {
        v.push(required(s));
    }
    if s.chance(1, 3) {
        let n = if s.chance(1, 10) { 9 } else { 2 };
        for _ in 0..s.range(1, n) {
            v.push(Type::TOption(Box::new(required(s))));
        }
    }
    if s.chance(1, 4) {
        v.push(Type::TArray(Box::new(required(s))));
    }
    v
}

pub fn gen_any_params(s: &mut Src) -> Vec<Type> {
    let n = if s.chance(1, 10) { 14 } else { 5 };
    (0..s.usize(n))
        .map(|_| match s.below(3) {
            0 => required(s),
            1 => Type::TOption(Box::new(required(s))),
            _ => Type::TArray(Box::new(required(s))),
        })
        .collect()
}

/// One to three plugins (now and then up to seven) sharing command names; every command tags its output with its own name.
pub fn gen_universe(s: &mut Src, macros: bool) -> Universe {
    let n = if s.chance(1, 16) { s.range(4, 7) } else { *s.pick(&[1, 2, 3]) };
    let mut names: Vec<String> = vec![];
    while names.len() < n {
        let mut c = gen_name(s);
        while names.contains(&c) {
            c.push('x');
        }
        names.push(c);
    }
    let many = s.chance(1, 16);
    let pool: Vec<String> = (0..if many { 16 } else { 3 }).map(|_| gen_name(s)).collect();
    let plugins = names
        .into_iter()
        .enumerate()
        .map(|(p, name)| {
            let mut specs: Vec<Spec> = vec![];
            // a plugin may have no commands
            let first = if p > 0 && s.chance(1, 8) { 0 } else { s.range(1, if many { 24 } else { 4 }) };
            for c in 0..first {
                let cname = s.pick(&pool).clone();
                let kind = if macros { *s.pick(&Kind::ALL) } else { *s.pick(&Kind::ALL[..2]) };
                let ret = ret_of(kind);
                if specs.iter().any(|x| x.name == cname && x.ret == ret) {
                    continue;
                }
                let act = if kind == Kind::Angle {
                    gen_macro(s, p, c)
                } else {
                    let (a, b) = (format!("⟨{p}{c}{}", kind.open()), format!("{}⟩", kind.close()));
                    match s.below(12) {
                        0..=6 => Act::Echo(a, b),
                        7..=10 => Act::Count(a, b),
                        _ => Act::Const(gen_output(s)),
                    }
                };
                specs.push(Spec { name: cname, args: gen_params(s), ret, act });
            }
            Plug { name, specs, flags: [false; 4] }
        })
        .collect();
    Universe { plugins }
}

/// Outputs that a later stage could take for something else: empty, blank, or like source.
pub fn gen_output(s: &mut Src) -> String {
    s.pick(&["", "", " ", "\n\n", "\\", "\"", "[a.b c]", "null", "é漢😀", "a\r\nb\t"]).to_string()
}

pub const LOC: &str = r#""location":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}"#;

pub fn text_json(id: &str, v: &str) -> String {
    format!(r#"{{"Text":{{"id":{},{LOC},"value":{}}}}}"#, serde_json::to_string(id).unwrap(), serde_json::to_string(v).unwrap())
}

fn gen_macro(s: &mut Src, p: usize, c: usize) -> Act {
    let id = format!("m{p}{c}");
    match s.below(4) {
        0 => Act::Const(text_json(&id, &format!("macro {p}{c} \"\\"))),
        1 => {
            let kids: Vec<String> = (0..s.usize(4)).map(|k| text_json(&format!("{id}-{k}"), &format!("part{k};"))).collect();
            Act::Const(format!(r#"{{"Expr":{{"id":"{id}",{LOC},"children":[{}]}}}}"#, kids.join(",")))
        }
        _ => Act::Quote(
            format!(r#"{{"Text":{{"id":"{id}",{LOC},"value":"#) + "\"",
            "\"}}".into(),
        ),
    }
}

/// Any tree a macro could return: using commands of the plugins, and, unless it is tame, with nodes
/// in places where no document has them, without values, or with further macros.
pub fn gen_tree(s: &mut Src, table: &[Entry], id: &str, depth: usize, tame: bool) -> serde_json::Value {
    use serde_json::json;
    let loc = json!({"start": {"line": s.usize(3), "character": s.usize(3)}, "end": {"line": 3, "character": s.usize(3)}});
    let leaf = |kind: &str, n: &str, v: serde_json::Value| json!({kind: {"id": format!("{id}{n}"), "location": loc, "value": v}});
    let kids = |s: &mut Src, n: usize| -> Vec<serde_json::Value> { (0..n).map(|k| gen_tree(s, table, &format!("{id}.{k}"), depth - 1, tame)).collect() };
    let inner = |kind: &str, c: Vec<serde_json::Value>| json!({kind: {"id": id, "location": loc, "children": c}});
    if depth == 0 || s.chance(1, 4) {
        let v = if !tame && s.chance(1, 20) { json!(null) } else { json!(s.pick(&["t", "", " ", "\"\\", "漢😀"])) };
        let kind = if !tame && s.chance(1, 12) { *s.pick(&["Module", "Ident", "Invalid", "Ignored"]) } else { "Text" };
        return leaf(kind, "", v);
    }
    match s.below(12) {
        0..=3 => {
            let n = s.usize(4);
            inner("Expr", kids(s, n))
        }
        4..=8 if !table.is_empty() => {
            let e = s.pick(table).clone();
            let n = if !tame && s.chance(1, 12) { s.usize(3) } else { s.range(e.min, e.max.min(e.min + 2)) };
            let head = |k: &str, v: &str, s: &mut Src| leaf(k, k, if !tame && s.chance(1, 40) { json!(null) } else { json!(v) });
            let mut c = vec![head("Module", &e.module, s), head("Ident", &e.ident, s)];
            let mut args = kids(s, n);
            if s.bool() {
                args = args.into_iter().enumerate().map(|(k, a)| json!({"Expr": {"id": format!("{id}/{k}"), "location": loc, "children": [a]}})).collect();
            }
            c.extend(args);
            if !tame && s.chance(1, 20) {
                c.truncate(s.usize(2));
            }
            inner(match e.kind { Kind::Square => "Square", Kind::Curly => "Curly", Kind::Angle => "Angle" }, c)
        }
        9 if !tame => inner(*s.pick(&["Stmt", "Document"]), kids(s, 1)),
        _ => inner("Expr", kids(s, 1)),
    }
}

/// Lets some macros return any tree.
pub fn wild_macros(s: &mut Src, u: &mut Universe) {
    let tables = [entries(u, true), entries(u, false)];
    for (p, plug) in u.plugins.iter_mut().enumerate() {
        for (k, c) in plug.specs.iter_mut().enumerate() {
            if c.ret == Type::TAST && s.bool() {
                let tame = s.bool();
                let t = &tables[(tame || s.chance(3, 4)) as usize];
                c.act = Act::Const(gen_tree(s, t, &format!("w{p}{k}"), 3, tame).to_string());
            }
        }
    }
}

pub fn entries(u: &Universe, macros: bool) -> Vec<Entry> {
    let mut v = vec![];
    for p in &u.plugins {
        for c in &p.specs {
            let Some(kind) = kind_of(&c.ret) else { continue };
            if kind == Kind::Angle && !macros {
                continue;
            }
            let (min, max) = arity(&c.args);
            v.push(Entry { kind, module: p.name.clone(), ident: c.name.clone(), min, max });
        }
    }
    v
}

pub fn table(u: &Universe, macros: bool) -> Option<Arc<Vec<Entry>>> {
    Some(Arc::new(entries(u, macros)))
}

pub fn flags(f: &[bool; 4]) -> FeatureFlag {
    FeatureFlag { document_hook: f[0], stmt_hook: f[1], expr_hook: f[2], text_hook: f[3] }
}

pub fn load_plug(p: &Plug) -> anyhow::Result<Plugin> {
    let f = scratch("plugin.wasm");
    if let Err(e) = std::fs::write(&f, plugin_wat(&p.specs)) {
        harness_error(format!("cannot write a plugin: {e}"));
    }
    Plugin::new(&p.name, &f, flags(&p.flags))
}

pub fn load(u: &Universe) -> Result<Plugins, String> {
    let mut v = vec![];
    for p in &u.plugins {
        v.push(load_plug(p).map_err(|e| format!("plugin {:?} does not load: {e:#}", p.name))?);
    }
    Plugins::new(v).map_err(|e| format!("the plugins do not load: {e:#}"))
}

/// The state of the reference evaluation: calls made so far, by plugin.
pub struct Eval<'a> {
    pub u: &'a Universe,
    pub calls: HashMap<String, usize>,
    pub total: usize,
}

/// Why a document has no output.
pub type Refusal = String;

/// Whether it has one is not specified: only documents with macros that return odd trees.
pub fn unspecified(r: &Refusal) -> bool {
    r.starts_with("unspecified")
}

impl<'a> Eval<'a> {
    pub fn new(u: &'a Universe) -> Self {
        Eval { u, calls: HashMap::new(), total: 0 }
    }

    pub fn spec(&self, module: &str, ident: &str, ret: &Type) -> Result<&'a Spec, Refusal> {
        let p = self.u.plugins.iter().rfind(|p| p.name == module).ok_or(format!("no plugin {module}"))?;
        p.specs.iter().rfind(|c| c.name == ident && c.ret == *ret).ok_or(format!("no command {ident}"))
    }

    pub fn call(&mut self, module: &str, spec: &Spec, input: &str) -> Result<String, Refusal> {
        self.total += 1;
        Ok(match &spec.act {
            Act::Echo(a, b) => format!("{a}{input}{b}"),
            Act::Quote(a, b) => format!("{a}{}{b}", input.replace('\\', "\\\\").replace('"', "\\\"")),
            Act::Const(c) => c.clone(),
            Act::Count(a, b) => {
                let n = self.calls.entry(module.into()).or_default();
                *n += 1;
                format!("{a}{:04}{input}{b}", *n % 10000)
            }
            Act::Trap => return Err("trap".into()),
            Act::Fail => return Err("fail".into()),
        })
    }

    fn hook(&mut self, which: usize, value: String) -> Result<String, Refusal> {
        let (name, ret) = &HOOKS[which];
        let Some(p) = self.u.plugins.iter().find(|p| p.flags[which]) else {
            return Ok(value);
        };
        let spec = self.spec(&p.name, name, ret)?;
        let input = serde_json::to_string(&vec![Value::Text(value)]).unwrap();
        let name = p.name.clone();
        self.call(&name, spec, &input)
    }

    /// The output of an abstract tree (already expanded).
    pub fn node(&mut self, n: &Node) -> Result<String, Refusal> {
        self.below(n, "")
    }

    fn below(&mut self, n: &Node, parent: &str) -> Result<String, Refusal> {
        match n.kind {
            "Text" => match &n.value {
                Some(v) => self.hook(3, v.clone()),
                None => Err("unspecified: a text without a value".into()),
            },
            "Document" if !parent.is_empty() => Err("unspecified: a document within a tree".into()),
            "Stmt" if parent != "Document" => Err("unspecified: a statement within a line".into()),
            "Document" | "Stmt" | "Expr" => {
                let mut out = String::new();
                for c in &n.children {
                    out.push_str(&self.below(c, n.kind)?);
                }
                let which = match n.kind {
                    "Document" => 0,
                    "Stmt" => 1,
                    _ => 2,
                };
                self.hook(which, out)
            }
            "Square" | "Curly" => {
                let mut args = vec![];
                for c in n.children.iter().skip(2) {
                    args.push(self.below(c, n.kind)?);
                }
                let name = |i: usize, k: &str| match n.children.get(i) {
                    Some(c) if c.kind == k => c.value.clone().ok_or(format!("a {k} without a value")),
                    _ => Err(format!("no {k}")),
                };
                let (m, i) = (name(0, "Module")?, name(1, "Ident")?);
                let ret = if n.kind == "Square" { Type::TInline } else { Type::TBlock };
                let spec = self.spec(&m, &i, &ret)?;
                let values = bind(&spec.args, &args)?;
                let input = serde_json::to_string(&values).unwrap();
                self.call(&m, spec, &input)
            }
            k => Err(format!("a {k} in the tree")),
        }
    }
}

/// Parameters from left to right take the argument at their place; an array takes all from there.
pub fn bind(params: &[Type], args: &[String]) -> Result<Vec<Value>, Refusal> {
    let (min, max) = arity(params);
    if args.len() < min {
        return Err("too few arguments".into());
    }
    if args.len() > max {
        return Err("too many arguments".into());
    }
    params
        .iter()
        .enumerate()
        .map(|(i, t)| {
            Ok(match t {
                Type::TOption(_) => Value::TextOption(args.get(i).cloned()),
                Type::TArray(_) => Value::TextArray(args.iter().skip(i).cloned().collect()),
                _ => Value::Text(args.get(i).cloned().ok_or("missing argument")?),
            })
        })
        .collect()
}

/// A case in which two private characters stand for long texts.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big<T> {
    pub small: T,
    pub long: [(String, usize); 2],
}

pub const LONG: [&str; 2] = ["\u{f8f0}", "\u{f8f1}"];

impl<T: Serialize + serde::de::DeserializeOwned> Big<T> {
    pub fn full(&self) -> T {
        let mut j = serde_json::to_string(&self.small).unwrap_or_default();
        for (mark, (unit, n)) in LONG.iter().zip(&self.long) {
            let u = serde_json::to_string(unit).unwrap_or_default();
            j = j.replace(mark, &u[1..u.len() - 1].repeat(*n));
        }
        serde_json::from_str(&j).unwrap_or_else(|e| harness_error(format!("a case does not read back: {e}")))
    }
}

/// A universe in whose first plugin `big` gives a long output, and a line of text, `big` and commands around both;
/// the first of the long texts is a word, the second an output.
pub fn gen_big(s: &mut Src) -> (Universe, Vec<vh_core::doc::Item>, [(String, usize); 2]) {
    use vh_core::doc::{Arg, Cmd, Head, Item};
    let mut u = gen_universe(s, false);
    let inline = || Type::TArray(Box::new(Type::TInline));
    let act = match s.below(3) {
        0 => Act::Const(LONG[1].into()),
        1 => Act::Echo(LONG[1].into(), "!".into()),
        _ => Act::Echo("!".into(), format!("{}.", LONG[1])),
    };
    let name = "big".to_string();
    for p in &mut u.plugins {
        p.specs.retain(|x| !["big", "round"].contains(&x.name.as_str()));
    }
    u.plugins[0].specs.push(Spec { name: name.clone(), args: vec![inline()], ret: Type::TInline, act });
    u.plugins[0].specs.push(Spec { name: "round".into(), args: vec![inline()], ret: Type::TInline, act: Act::Echo("(".into(), ")".into()) });
    let m = u.plugins[0].name.clone();
    let cmd = |n: &str, args: Vec<Item>| {
        let args = if args.is_empty() { vec![] } else { vec![Arg { lead: vec![Item::Sp], items: args, trail: vec![] }] };
        Item::Cmd(Cmd { kind: vh_core::doc::Kind::Square, module: Head::Name(m.clone()), ident: Head::Name(n.into()), args, tail: vec![] })
    };
    let mut line = vec![];
    let mut text = false;
    for _ in 0..s.range(1, 5) {
        let word = Item::Text(s.pick(&[LONG[0], "short", LONG[0]]).to_string());
        match s.below(5) {
            0 if !text => line.push(word),
            1 => line.push(cmd("big", vec![])),
            2 => line.push(cmd("round", vec![word])),
            3 => line.push(cmd("round", vec![cmd("big", vec![]), Item::Text("x".into()), cmd("round", vec![word])])),
            _ => line.push(cmd("big", vec![word])),
        }
        text = matches!(line.last(), Some(Item::Text(_)));
    }
    let long = [
        (s.pick(&["x", "é", "日", "\u{1f426}", "e\u{301}", "ab"]).to_string(), *s.pick(&[1, 255, 256, 1023, 4096, 8191, 16_384, 40_000])),
        (s.pick(&["x", "\n", "日本\n", "a b ", "line\r\n", "\u{1f426}", "\"\\"]).to_string(), *s.pick(&[1, 1023, 1024, 1025, 4096, 8192, 21_846, 65_536, 65_537, 300_000])),
    ];
    (u, line, long)
}

/// A message, shortened if it has long texts in it.
pub fn brief(m: String) -> String {
    let n = m.chars().count();
    if n < 4000 {
        return m;
    }
    let short = |it: &mut dyn Iterator<Item = char>| it.take(1500).collect::<String>();
    let end: String = short(&mut m.chars().rev()).chars().rev().collect();
    format!("{} ... ({n} characters) ... {end}", short(&mut m.chars()))
}
