//! Macro expansion, code generation and plugins, in process.
use crate::universe::*;
use crate::wat::{metadata_json, plugin_wat, plugin_wat_with, Act, Spec};
use brack_plugin::{plugin::Plugin, plugins::Plugins, types::Type};
use brack_transformer::ast::AST;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use vh_core::doc::*;
use vh_core::judge::judged;
use vh_core::node::{self, diff};
use vh_core::runner::{pass, scratch, Ctx, Res};
use vh_core::src_choice::Src;
use vh_core::text::{gen_many, gen_name, gen_word};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub u: Universe,
    pub doc: Doc,
}

pub const R: &str = "generated plugin sets (1-3 plugins sharing command names, random parameter lists, echoing, counting and constant commands) and documents using them; non-trivial: at least one plugin command or hook is called";

pub fn gen_case(s: &mut Src, macros: bool) -> Case {
    let u = gen_universe(s, macros);
    let o = Opts { depth: 3, paras: 3, table: table(&u, macros), ..Opts::default() };
    let doc = gen_doc(s, &o);
    Case { u, doc }
}

pub fn ast_of(doc: &Doc) -> Result<AST, String> {
    let e = emit(doc);
    let f = judged(&e.source)?;
    if let Some(x) = f.errors.first() {
        return Err(format!("a well-formed document is diagnosed: {x:?}\nsource: {:?}", e.source));
    }
    Ok(f.ast)
}

/// What the expander has to give: every outermost macro replaced by what its plugin returns for
/// the whole document and the macro's id; everything else as it was.
fn ref_expand(v: &J, overall: &J, ev: &mut Eval) -> Result<J, Refusal> {
    let (kind, body) = v.as_object().and_then(|o| o.iter().next()).ok_or("not a node")?;
    if kind == "Angle" {
        let head = |k: &str| -> Option<String> {
            body["children"].as_array()?.iter().rev().find_map(|c| c.get(k)).and_then(|c| c["value"].as_str()).map(|s| s.to_string())
        };
        let (m, i) = (head("Module").unwrap_or_default(), head("Ident").unwrap_or_default());
        let spec = ev.spec(&m, &i, &Type::TAST)?;
        let input = serde_json::to_string(&(
            serde_json::from_value::<AST>(overall.clone()).map_err(|e| e.to_string())?,
            body["id"].as_str().unwrap_or(""),
        ))
        .map_err(|e| e.to_string())?;
        let out = ev.call(&m, spec, &input)?;
        let ast: AST = serde_json::from_str(&out).map_err(|_| "not a tree")?;
        return Ok(serde_json::to_value(ast).unwrap());
    }
    let mut body = body.clone();
    if let Some(ch) = body.get("children").and_then(|c| c.as_array()).cloned() {
        let mut kids = vec![];
        for c in &ch {
            kids.push(ref_expand(c, overall, ev)?);
        }
        body["children"] = J::Array(kids);
    }
    Ok(json!({ kind: body }))
}

pub fn expected(u: &Universe, ast: &AST) -> (Result<J, Refusal>, Result<String, Refusal>, usize) {
    let v = serde_json::to_value(ast).unwrap();
    let mut ev = Eval::new(u);
    let ex = ref_expand(&v, &v, &mut ev);
    let out = match &ex {
        Err(e) => Err(e.clone()),
        Ok(v) => {
            let ast: AST = serde_json::from_value(v.clone()).unwrap();
            ev.node(&node::ast(&ast))
        }
    };
    (ex, out, ev.total)
}

fn compare<T: PartialEq + std::fmt::Debug>(what: &str, want: &Result<T, Refusal>, got: &anyhow::Result<T>, src: &str, show: impl Fn(&T) -> String) -> Result<(), String> {
    match (want, got) {
        (Err(w), _) if unspecified(w) => Ok(()),
        (Ok(w), Ok(g)) if w == g => Ok(()),
        (Ok(w), Ok(g)) => Err(format!("{what} differs: {}\nexpected {}\ngot      {}\nsource: {src:?}", diff(&show(w), &show(g)), show(w), show(g))),
        (Ok(w), Err(e)) => Err(format!("{what} fails: {e:#}\nexpected {}\nsource: {src:?}", show(w))),
        (Err(w), Ok(g)) => Err(format!("{what} should fail ({w}) but gives {}\nsource: {src:?}", show(g))),
        (Err(_), Err(_)) => Ok(()),
    }
}

/// Expands and generates `ast` and compares with the reference.
fn check_ast(u: &Universe, ast: &AST, src: &str) -> Result<(usize, bool), String> {
    let mut plugins = load(u)?;
    let (ex, out, calls) = expected(u, ast);
    let got = brack_expander::expand::expander(ast, &mut plugins);
    let got_v = match &got {
        Ok(a) => Ok(serde_json::to_value(a).unwrap()),
        Err(e) => Err(anyhow::anyhow!("{e:#}")),
    };
    compare("the expanded tree", &ex, &got_v, src, |v| serde_json::to_string_pretty(v).unwrap())?;
    if let Ok(a) = got {
        let g = brack_codegen::generate::generate(&a, &mut plugins);
        compare("the output", &out, &g, src, |v| v.clone())?;
    }
    Ok((calls, out.is_ok()))
}

fn check(c: &Case) -> Result<(usize, bool), String> {
    let ast = ast_of(&c.doc)?;
    check_ast(&c.u, &ast, &emit(&c.doc).source)
}

fn outcome(r: (usize, bool)) -> Res {
    pass(r.0 > 0, format!("{} calls, {}", match r.0 { 0 => "0", 1 => "1", 2..=4 => "2-4", _ => "5+" }, if r.1 { "output" } else { "refused" }))
}

fn one_line(items: Vec<Item>) -> Doc {
    Doc { lead: vec![], paras: vec![Para { lines: vec![items], crlf: vec![] }], seps: vec![], tail: vec![] }
}

pub fn c12(c: &mut Ctx) {
    c.sub("documents", "documents with macros among commands; the expanded tree is compared node by node", 1200, 60_000, |s| gen_case(s, true), |x: &Case| outcome(check(x)?));
    c.sub(
        "macro-heavy",
        "lines of macros, nested in arguments of macros and commands, whose plugin quotes all it was given",
        600,
        30_000,
        |s| {
            let mut u = gen_universe(s, true);
            let q = |id: &str| Act::Quote(format!(r#"{{"Text":{{"id":"{id}",{LOC},"value":"#) + "\"", "\"}}".into());
            u.plugins[0].specs.retain(|x| x.ret != Type::TAST);
            for n in ["q1", "q2"] {
                u.plugins[0].specs.push(Spec { name: n.into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret: Type::TAST, act: q(n) });
            }
            let o = Opts { depth: 3, paras: 2, table: table(&u, true), ..Opts::default() };
            Case { doc: gen_doc(s, &o), u }
        },
        |x: &Case| outcome(check(x)?),
    );
    c.sub(
        "any-tree",
        "macros that return any tree: with commands and macros, with nodes in odd places or without values",
        800,
        40_000,
        |s| {
            let mut u = gen_universe(s, true);
            for (k, p) in u.plugins.iter_mut().enumerate() {
                p.specs.push(Spec { name: format!("w{k}"), args: vec![], ret: Type::TAST, act: Act::Const(text_json("w", "w")) });
            }
            wild_macros(s, &mut u);
            let o = Opts { depth: 2, paras: 2, table: table(&u, true), ..Opts::default() };
            Case { doc: gen_doc(s, &o), u }
        },
        |x: &Case| outcome(check(x)?),
    );
    c.sub(
        "failing",
        "macros that trap, report an error, return no tree or are not known: expansion fails as a whole",
        400,
        20_000,
        |s| {
            let mut u = gen_universe(s, true);
            let act = match s.below(4) {
                0 => Act::Trap,
                1 => Act::Fail,
                2 => Act::Const("".into()),
                _ => Act::Const(s.pick(&["null", "{\"Text\":", "{\"Nothing\":{}}", "\"x\"", "[1]", "{}"]).to_string()),
            };
            let p = s.usize(u.plugins.len());
            let spec = Spec { name: "bad".into(), args: vec![Type::TInline], ret: Type::TAST, act };
            let known = s.chance(3, 4);
            if known {
                u.plugins[p].specs.push(spec);
            }
            let mut o = Opts { depth: 3, paras: 2, table: None, ..Opts::default() };
            let mut t = entries(&u, true);
            t.push(Entry { kind: Kind::Angle, module: u.plugins[p].name.clone(), ident: "bad".into(), min: 1, max: 1 });
            o.table = Some(std::sync::Arc::new(t));
            let doc = gen_doc(s, &o);
            Case { u, doc }
        },
        |x: &Case| outcome(check(x)?),
    );
}

pub fn c13(c: &mut Ctx) {
    let gen = |s: &mut Src, any: bool| -> Case {
        let kind = *s.pick(&Kind::ALL[..2]);
        let args = if any { gen_any_params(s) } else { gen_params(s) };
        let (min, max) = arity(&args);
        let (name, cmd) = (gen_name(s), gen_name(s));
        let spec = Spec { name: cmd.clone(), args, ret: ret_of(kind), act: Act::Echo("(".into(), ")".into()) };
        let mut specs = vec![spec];
        for _ in 0..s.usize(3) {
            specs.push(Spec { name: gen_name(s) + "q", args: vec![], ret: Type::TInline, act: Act::Const(gen_output(s)) });
        }
        let u = Universe { plugins: vec![Plug { name: name.clone(), specs, flags: [false; 4] }] };
        let top = if max == usize::MAX { min + 4 } else { max + 2 };
        let o = Opts { depth: 2, table: table(&u, false), ..Opts::default() };
        let n = s.range(if min > 1 { min - 2 } else { 0 }, top);
        let depth = s.usize(2);
        let mut cmd = gen_cmd_with(s, &o, depth, kind, Head::Name(name.clone()), Head::Name(cmd), n);
        // arguments that are the output of one command, often an empty one
        if let (Some(q), true) = (u.plugins[0].specs.get(1).map(|x| x.name.clone()), s.chance(1, 3)) {
            for a in &mut cmd.args {
                if s.chance(1, 3) {
                    a.items = vec![Item::Cmd(gen_cmd_with(s, &o, 0, Kind::Square, Head::Name(name.clone()), Head::Name(q.clone()), 0))];
                }
            }
        }
        Case { u, doc: one_line(vec![Item::Cmd(cmd)]) }
    };
    let rule = "one command with a random parameter list called with from too few to too many arguments";
    c.sub("usual", rule, 1200, 60_000, move |s| gen(s, false), |x: &Case| outcome(check(x)?));
    c.sub(
        "many",
        "one command with up to 200 required, up to 100 optional and then any number of further parameters, called with up to 300 arguments",
        200,
        8_000,
        |s| {
            let kind = *s.pick(&Kind::ALL[..2]);
            let mut args = vec![];
            let required = if s.chance(1, 3) { gen_many(s, 200) } else { s.usize(3) };
            args.resize(required, Type::TInline);
            if s.chance(1, 2) {
                for _ in 0..gen_many(s, 100) {
                    args.push(Type::TOption(Box::new(Type::TInline)));
                }
            }
            if s.chance(2, 3) {
                args.push(Type::TArray(Box::new(Type::TInline)));
            }
            let (min, max) = arity(&args);
            let n = match s.below(4) {
                0 => min,
                1 if max < usize::MAX => max,
                2 if max < usize::MAX => max + 1,
                _ => min.max(gen_many(s, max.saturating_add(3).min(300))),
            };
            let (name, cmd) = (gen_name(s), gen_name(s));
            let spec = Spec { name: cmd.clone(), args, ret: ret_of(kind), act: Act::Echo("(".into(), ")".into()) };
            let u = Universe { plugins: vec![Plug { name: name.clone(), specs: vec![spec], flags: [false; 4] }] };
            let o = Opts { depth: 0, table: table(&u, false), ..Opts::default() };
            let cmd = gen_cmd_with(s, &o, 0, kind, Head::Name(name), Head::Name(cmd), n);
            Case { u, doc: one_line(vec![Item::Cmd(cmd)]) }
        },
        |x: &Case| outcome(check(x)?),
    );
    c.sub("any-list", "as before, with optional and array parameters anywhere in the list", 800, 40_000, move |s| gen(s, true), |x: &Case| outcome(check(x)?));
}

/// A name that is nearly the given one.
fn near(s: &mut Src, n: &str) -> String {
    let odd = *s.pick(&["z", "z", "\u{a0}", "\u{3000}", "\t", "\u{200b}", "\u{feff}", "\u{301}", "_", "-", "0", "/", ":", "\u{2003}", "\u{c}", "\u{b}", "\u{85}", "\u{2028}"]);
    let new = match s.below(8) {
        0 => format!("{odd}{n}"),
        1 => n.to_uppercase(),
        2 => n.to_lowercase(),
        3 => n.chars().skip(1).chain(n.chars().take(1)).collect(),
        4 => n.chars().take(n.chars().count().max(2) - 1).collect(),
        5 => format!("{n}{n}"),
        _ => format!("{n}{odd}"),
    };
    // a mark in front would join the bracket or dot before it
    if new.starts_with(['\u{301}', '\u{200d}', '\u{fe0f}']) { format!("z{new}") } else { new }
}

pub fn c14(c: &mut Ctx) {
    c.sub(
        "known-or-not",
        "commands whose module, name and bracket kind are drawn independently from those that exist and some that do not",
        1500,
        80_000,
        |s| {
            let u = gen_universe(s, true);
            let o = Opts { depth: 2, table: table(&u, true), ..Opts::default() };
            let mut items = vec![];
            let kinds = Kind::ALL;
            for _ in 0..s.range(1, 3) {
                let e = s.pick(&entries(&u, true)).clone();
                let e2 = s.pick(&entries(&u, true)).clone();
                let (mut m, mut i, mut k) = (e.module.clone(), e.ident.clone(), e.kind);
                match s.below(8) {
                    0 => m = e2.module,
                    1 => i = e2.ident,
                    2 => k = *s.pick(&kinds),
                    3 => m = near(s, &m),
                    4 => i = near(s, &i),
                    _ => {}
                }
                let (lo, hi) = u
                    .plugins
                    .iter()
                    .find(|p| p.name == m)
                    .and_then(|p| p.specs.iter().find(|c| c.name == i && c.ret == ret_of(k)))
                    .map(|c| arity(&c.args))
                    .unwrap_or((e.min, e.max));
                let n = s.range(lo, hi.min(lo + 2));
                items.push(Item::Cmd(gen_cmd_with(s, &o, 1, k, Head::Name(m), Head::Name(i), n)));
            }
            Case { u, doc: one_line(items) }
        },
        |x: &Case| outcome(check(x)?),
    );
    c.sub(
        "heads-from-macros",
        "commands whose module or name is given by a macro that returns it",
        500,
        30_000,
        |s| {
            let mut u = gen_universe(s, false);
            let es = entries(&u, false);
            let o = Opts { depth: 2, table: table(&u, false), ..Opts::default() };
            let mut items = vec![];
            let mut specs = vec![];
            for k in 0..s.range(1, 3) {
                let e = s.pick(&es).clone();
                let mut head = |kind: &str, v: &str, s: &mut Src| -> Head {
                    if s.bool() {
                        return Head::Name(v.to_string());
                    }
                    let kind = if s.chance(1, 8) { "Text" } else { kind };
                    let name = format!("h{k}{}", specs.len());
                    specs.push(Spec {
                        name: name.clone(),
                        args: vec![],
                        ret: Type::TAST,
                        act: Act::Const(text_json(&name, v).replacen("Text", kind, 1)),
                    });
                    Head::Macro(Box::new(Cmd { kind: Kind::Angle, module: Head::Name("heads".into()), ident: Head::Name(name), args: vec![], tail: vec![] }))
                };
                let m = head("Module", &e.module, s);
                let i = head("Ident", &e.ident, s);
                let n = s.range(e.min, e.max.min(e.min + 2));
                items.push(Item::Cmd(gen_cmd_with(s, &o, 1, e.kind, m, i, n)));
            }
            u.plugins.push(Plug { name: "heads".into(), specs, flags: [false; 4] });
            Case { u, doc: one_line(items) }
        },
        |x: &Case| outcome(check(x)?),
    );
}

pub fn c15(c: &mut Ctx) {
    c.sub("commands", "documents of text and nested commands, some of which count their calls; output compared byte by byte", 1500, 80_000, |s| gen_case(s, false), |x: &Case| outcome(check(x)?));
    c.sub(
        "text-only",
        "documents without commands: the output is the text without escapes and line ends",
        1500,
        80_000,
        |s| Case { u: Universe { plugins: vec![] }, doc: gen_doc(s, &Opts { depth: 0, ..Opts::default() }) },
        |x: &Case| {
            let want: String = x
                .doc
                .paras
                .iter()
                .flat_map(|p| p.lines.iter().flatten())
                .map(|i| match i {
                    Item::Text(t) => t.clone(),
                    Item::Esc(c) => c.to_string(),
                    _ => String::new(),
                })
                .collect();
            let ast = ast_of(&x.doc)?;
            let mut p = Plugins::new(vec![]).map_err(|e| e.to_string())?;
            let got = brack_codegen::generate::generate(&ast, &mut p).map_err(|e| format!("{e:#}"))?;
            if got != want {
                return Err(format!("the output is {got:?}, the text {want:?}"));
            }
            pass(!want.is_empty(), "text")
        },
    );
    c.sub(
        "returned-trees",
        "documents with macros that return trees of text and commands, wrapped or not; what they produce stands in their place",
        500,
        30_000,
        |s| {
            let mut u = gen_universe(s, true);
            u.plugins[0].specs.push(Spec { name: "w".into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret: Type::TAST, act: Act::Const(text_json("w", "w")) });
            wild_macros(s, &mut u);
            let o = Opts { depth: 2, paras: 2, table: table(&u, true), ..Opts::default() };
            Case { doc: gen_doc(s, &o), u }
        },
        |x: &Case| outcome(check(x)?),
    );
    c.sub(
        "long",
        "texts, arguments and outputs of up to a million bytes",
        40,
        1_200,
        |s| {
            let (u, line, long) = gen_big(s);
            Big { small: Case { u, doc: one_line(line) }, long }
        },
        |x: &Big<Case>| outcome(check(&x.full()).map_err(brief)?),
    );
    c.sub(
        "failing",
        "one command of the document traps or reports an error: no output",
        500,
        30_000,
        |s| {
            let mut u = gen_universe(s, false);
            let p = s.usize(u.plugins.len());
            let act = if s.bool() { Act::Trap } else { Act::Fail };
            let kind = *s.pick(&Kind::ALL[..2]);
            u.plugins[p].specs.push(Spec { name: "bad".into(), args: vec![Type::TArray(Box::new(Type::TInline))], ret: ret_of(kind), act });
            let o = Opts { depth: 3, paras: 2, table: table(&u, false), ..Opts::default() };
            Case { doc: gen_doc(s, &o), u }
        },
        |x: &Case| outcome(check(x)?),
    );
}

pub fn c16(c: &mut Ctx) {
    let gen = |s: &mut Src| -> Case {
        let macros = s.chance(1, 4);
        let mut u = gen_universe(s, macros);
        if macros {
            wild_macros(s, &mut u);
        }
        // every plugin may offer hook commands; each hook is enabled in at most one
        for (h, (name, ret)) in HOOKS.iter().enumerate() {
            for p in 0..u.plugins.len() {
                if s.bool() {
                    let (a, b) = (format!("«{p}{name}:"), "»".to_string());
                    let act = match s.below(16) {
                        0..=8 => Act::Echo(a, b),
                        9..=13 => Act::Count(a, b),
                        14 => Act::Const(gen_output(s)),
                        _ if s.chance(1, 4) => Act::Fail,
                        _ => Act::Const(String::new()),
                    };
                    u.plugins[p].specs.push(Spec { name: name.to_string(), args: vec![Type::TInline], ret: ret.clone(), act });
                }
            }
            let offering: Vec<usize> = (0..u.plugins.len()).filter(|p| u.plugins[*p].specs.iter().any(|x| x.name == *name && x.ret == *ret)).collect();
            if !offering.is_empty() && s.chance(2, 3) {
                let p = *s.pick(&offering);
                u.plugins[p].flags[h] = true;
            }
        }
        let o = Opts { depth: 2, paras: 2, table: table(&u, macros), ..Opts::default() };
        Case { doc: gen_doc(s, &o), u }
    };
    c.sub("hooks", "plugin sets with any of the four hooks enabled in one plugin, others offering them without", 1200, 60_000, gen, |x: &Case| {
        check(x)?;
        let on: Vec<&str> = HOOKS.iter().enumerate().filter(|(h, _)| x.u.plugins.iter().any(|p| p.flags[*h])).map(|(_, h)| h.0).collect();
        pass(!on.is_empty(), format!("hooks: {}", if on.is_empty() { "none".into() } else { on.join("+") }))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Loading {
    u: Universe,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    Cut(usize),
    Flip(usize, u8),
    NotWasm(String),
    NoMetadata,
    Metadata(String),
}

pub fn c17(c: &mut Ctx) {
    c.sub(
        "hook-rules",
        "plugins offering commands with hook names and any return types, any hooks enabled in any of them",
        1500,
        60_000,
        |s| {
            let n = if s.chance(1, 16) { s.range(4, 6) } else { s.range(1, 3) };
            let plugins = (0..n)
                .map(|p| {
                    let mut specs: Vec<Spec> = vec![];
                    let mut flags = [false; 4];
                    for (h, (name, ret)) in HOOKS.iter().enumerate() {
                        flags[h] = s.chance(1, 3);
                        match s.below(6) {
                            0..=3 => {
                                let other = if *ret == Type::TBlock { Type::TInline } else { Type::TBlock };
                                let r = match s.below(8) {
                                    0..=5 => ret.clone(),
                                    6 => other,
                                    _ => Type::TAST,
                                };
                                specs.push(Spec { name: name.to_string(), args: gen_any_params(s), ret: r, act: Act::Echo(format!("{p}"), "".into()) });
                            }
                            _ => {}
                        }
                    }
                    let n = if s.chance(1, 16) { s.range(4, 60) } else { s.range(0, 3) };
                    for _ in 0..n {
                        let (name, ret) = (gen_name(s), ret_of(*s.pick(&Kind::ALL)));
                        if !specs.iter().any(|x| x.name == name && (x.ret == ret || HOOKS.iter().any(|h| h.0 == name))) {
                            let at = s.usize(specs.len() + 1);
                            specs.insert(at, Spec { name, args: gen_any_params(s), ret, act: Act::Const("".into()) });
                        }
                    }
                    Plug { name: format!("p{p}"), specs, flags }
                })
                .collect();
            Loading { u: Universe { plugins } }
        },
        |x: &Loading| {
            let mut loaded = vec![];
            for p in &x.u.plugins {
                // a hook that is enabled must be offered, and offered with its return type
                let ok = HOOKS.iter().enumerate().all(|(h, (name, ret))| {
                    let offers: Vec<&Spec> = p.specs.iter().filter(|c| c.name == *name).collect();
                    !p.flags[h] || (!offers.is_empty() && offers.iter().all(|c| c.ret == *ret))
                });
                match load_plug(p) {
                    Ok(l) => {
                        if !ok {
                            return Err(format!("a plugin loads though a hook enabled for it is not offered or has the wrong type: {p:?}"));
                        }
                        for c in &p.specs {
                            match l.signature_to_metadata.get(&(c.name.clone(), c.ret.clone())) {
                                Some(m) if m.argument_types.iter().map(|a| &a.1).eq(c.args.iter()) => {}
                                m => return Err(format!("the command {:?} of the plugin is known as {m:?}", c)),
                            }
                        }
                        loaded.push(l);
                    }
                    Err(e) => {
                        if ok {
                            return Err(format!("a correct plugin does not load: {e:#}: {p:?}"));
                        }
                        return pass(true, "refused plugin");
                    }
                }
            }
            let ok = (0..4).all(|h| x.u.plugins.iter().filter(|p| p.flags[h]).count() <= 1);
            match Plugins::new(loaded) {
                Ok(_) if ok => pass(true, "accepted set"),
                Ok(_) => Err(format!("a set with a hook enabled in two plugins is accepted: {:?}", x.u)),
                Err(e) if ok => Err(format!("a correct set is refused: {e:#}: {:?}", x.u)),
                Err(_) => pass(true, "refused set"),
            }
        },
    );
    c.sub(
        "damaged",
        "plugin files cut, altered, not WebAssembly, without metadata or with unreadable metadata: refused or loaded, never a crash; refused if the damage is certain",
        600,
        30_000,
        |s| match s.below(5) {
            0 => Damage::Cut(s.usize(4000)),
            1 => Damage::Flip(s.usize(4000), s.below(256) as u8),
            2 => Damage::NotWasm((0..s.usize(20)).map(|_| gen_word(s)).collect()),
            3 => Damage::NoMetadata,
            _ => Damage::Metadata(
                s.pick(&[
                    "", "null", "{}", "[1]", "[{\"command_name\":\"a\"}]", "[{\"command_name\":\"a\",\"call_name\":\"call_0\",\"argument_types\":[],\"return_type\":\"TNothing\"}]",
                    "[{\"command_name\":\"a\",\"call_name\":\"call_0\",\"argument_types\":[[\"x\",\"TOption\"]],\"return_type\":\"TInline\"}]", "[", "[]]",
                    "[{\"command_name\":1,\"call_name\":\"call_0\",\"argument_types\":[],\"return_type\":\"TInline\"}]",
                ])
                .to_string(),
            ),
        },
        |d: &Damage| {
            let specs = vec![Spec { name: "a".into(), args: vec![Type::TInline], ret: Type::TInline, act: Act::Echo("x".into(), "y".into()) }];
            let good = plugin_wat(&specs);
            let (bytes, certain) = match d {
                Damage::Cut(n) => (good.as_bytes()[..(*n).min(good.len() - 1)].to_vec(), true),
                Damage::Flip(n, b) => {
                    let mut v = good.clone().into_bytes();
                    let i = n % v.len();
                    v[i] = *b;
                    (v, false)
                }
                Damage::NotWasm(t) => (t.clone().into_bytes(), true),
                Damage::NoMetadata => (good.replace("get_metadata", "get_nothing").into_bytes(), true),
                Damage::Metadata(m) => (plugin_wat_with(m, &specs).into_bytes(), true),
            };
            let f = scratch("damaged.wasm");
            std::fs::write(&f, &bytes).map_err(|e| e.to_string())?;
            match Plugin::new("p", &f, flags(&[false; 4])) {
                Ok(_) if certain => Err(format!("a damaged plugin is loaded: {d:?}")),
                Ok(_) => pass(true, "still loads"),
                Err(_) => pass(true, "refused"),
            }
        },
    );
    let _ = metadata_json;
}
