use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use unicode_segmentation::UnicodeSegmentation;
use brack_parser::cst::{self, CST};
use brack_tokenizer::tokens::{Location, LocationData, Token};
use brack_transformer::ast::{self, AST};
use vh_core::doc::*;
use vh_core::judge::*;
use vh_core::node::{self, diff, front, tokenize, Node, Pos, Span};
use vh_core::reference::{lex, tree, R};
use vh_core::runner::{harness_error, no_panic, pass, scratch, Ctx, Res};
use vh_core::src_choice::Src;
use vh_core::text::*;

pub const R_SOUP: &str = "texts made of words in many scripts, special characters, blanks, line endings, command fragments and odd code points; non-trivial: holds a bracket, an escape or a newline";
pub const R_DOC: &str = "well-formed documents from the document model (paragraphs, lines, text, escapes, nested commands, macro heads, blanks, LF and CRLF); non-trivial: holds at least one command or escape";

fn soup(s: &mut Src) -> String {
    let max = *s.pick(&[8, 20, 60]);
    gen_soup(s, max)
}

pub const R_LONG: &str = "few tokens, but lines, words and names of up to 70000 characters; non-trivial: 4000 or more in a line";

fn long_class(t: &str) -> (bool, &'static str) {
    let n = t.lines().map(|l| l.chars().count()).max().unwrap_or(0);
    (n >= 4000, match n { 0..=3999 => "below 4000", 4000..=39_999 => "below 40000", _ => "40000 or more" })
}

pub const R_CROWD: &str = "a piece of text hundreds or thousands of times, as lines, in a line or within a command; non-trivial: 300 tokens or more";

fn crowd_class(t: &str) -> (bool, String) {
    let n = lex(t).len();
    (n >= 300, (if n >= 10_000 { "10000 or more" } else if n >= 1000 { "1000 or more" } else { "below 1000" }).to_string())
}

pub const R_CODE: &str = "up to 16 consecutive code points, each in names, arguments, escapes or text outside brackets; non-trivial: not ASCII";

pub const R_DEEP: &str = "brackets of one kind or several, nested up to 200 deep, with arguments before and after each level; non-trivial: more than 20 deep";

fn deep_class(t: &str) -> (bool, &'static str) {
    let (mut depth, mut most) = (0i32, 0);
    for c in t.chars() {
        match c {
            '[' | '<' | '{' => depth += 1,
            ']' | '>' | '}' => depth = (depth - 1).max(0),
            _ => (),
        }
        most = most.max(depth);
    }
    (most > 20, match most { 0..=20 => "up to 20", 21..=64 => "up to 64", 65..=128 => "up to 128", _ => "beyond 128" })
}

fn soup_class(t: &str) -> (bool, &'static str) {
    let special = t.chars().any(|c| "<>{}[]\\\n".contains(c));
    let class = match t.len() {
        0 => "empty",
        1..=20 => "short",
        21..=100 => "medium",
        _ => "long",
    };
    (special, class)
}

fn doc(s: &mut Src) -> Doc {
    gen_doc(s, &Opts::default())
}

fn doc_pass(d: &Doc) -> Res {
    let (n, depth) = count_cmds(d);
    let esc = d.paras.iter().flat_map(|p| p.lines.iter().flatten()).any(|i| matches!(i, Item::Esc(_)));
    pass(n > 0 || esc, format!("commands {} depth {}", n.min(9), depth))
}

const N: (usize, usize) = (6000, 400_000);

/// A file made of `unit` again and again.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BigFile {
    head: String,
    unit: String,
    size: usize,
    tail: String,
}

pub fn c01(c: &mut Ctx) {
    let test = |t: &String| -> Res {
        align(t)?;
        let (nt, class) = soup_class(t);
        pass(nt, class)
    };
    c.sub("any-text", R_SOUP, N.0, N.1, soup, test);
    c.sub("documents", R_DOC, 3000, 150_000, doc, |d: &Doc| {
        align(&emit(d).source)?;
        doc_pass(d)
    });
    c.sub("files", "the same texts in a file, read as the tools read a document", 3000, 150_000, |s| if s.bool() { soup(s) } else { emit(&doc(s)).source }, |t: &String| {
        let f = scratch("document.[]");
        if let Err(e) = std::fs::write(&f, t) {
            harness_error(format!("cannot write a document: {e}"));
        }
        let got: Vec<node::Tok> = brack_tokenizer::tokenize::tokenize(&f).map_err(|e| format!("the file is refused: {e:#}"))?.iter().map(node::tok).collect();
        let want: Vec<node::Tok> = tokenize(t)?.iter().map(node::tok).collect();
        if got != want {
            return Err(diff(&format!("{want:#?}"), &format!("{got:#?}")));
        }
        let (nt, class) = soup_class(t);
        pass(nt, class)
    });
    c.sub(
        "big-files",
        "a few lines again and again, in a file of up to four million bytes; non-trivial: 64 KiB or more",
        6,
        150,
        |s| {
            let lines: Vec<String> = (0..s.range(1, 3)).map(|_| gen_plain_soup(s, 12).replace(['[', '{', '<'], "(") + s.pick(&["\n", "\r\n", "\n\n"])).collect();
            let size = *s.pick(&[1 << 20, 1 << 20, 1 << 21, 1_000_000, 1 << 16, 1 << 18, 1 << 22]) + s.usize(3) * 40;
            BigFile { head: gen_plain_soup(s, 4).replace(['[', '{', '<'], "("), unit: lines.concat(), size, tail: gen_plain_soup(s, 8) }
        },
        |b: &BigFile| {
            let t = b.head.clone() + &b.unit.repeat(b.size / b.unit.len() + 1) + &b.tail;
            let f = scratch("document.[]");
            if let Err(e) = std::fs::write(&f, &t) {
                harness_error(format!("cannot write a document: {e}"));
            }
            let got = brack_tokenizer::tokenize::tokenize(&f).map_err(|e| format!("the file is refused: {e:#}"))?;
            let want = tokenize(&t)?;
            let _ = std::fs::remove_file(&f);
            if got.len() != want.len() {
                return Err(format!("{} tokens for the file, {} for its text", got.len(), want.len()));
            }
            if let Some((g, w)) = got.iter().map(node::tok).zip(want.iter().map(node::tok)).find(|(g, w)| g != w) {
                return Err(format!("the file gives {g:?}, its text {w:?}"));
            }
            pass(t.len() >= 1 << 16, if t.len() > 1 << 20 { "over 1 MiB" } else { "up to 1 MiB" })
        },
    );
    c.sub("long", R_LONG, 60, 2_000, gen_long, |t: &String| {
        align(t)?;
        let (nt, class) = long_class(t);
        pass(nt, class)
    });
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        align(t)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

pub fn c02(c: &mut Ctx) {
    c.sub("any-text", R_SOUP, N.0, N.1, soup, |t: &String| {
        check_positions(t)?;
        let (nt, class) = soup_class(t);
        pass(nt, class)
    });
    c.sub("documents", R_DOC, 3000, 150_000, doc, |d: &Doc| {
        check_positions(&emit(d).source)?;
        doc_pass(d)
    });
    c.sub("long", R_LONG, 60, 2_000, gen_long, |t: &String| {
        check_positions(t)?;
        let (nt, class) = long_class(t);
        pass(nt, class)
    });
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        check_positions(t)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

fn show_toks(t: &[node::Tok]) -> String {
    t.iter().map(|t| format!("{} {:?}\n", t.kind, t.value)).collect()
}

pub fn c03(c: &mut Ctx) {
    c.sub("documents", R_DOC, 5000, 300_000, doc, |d: &Doc| {
        let e = emit(d);
        let toks: Vec<node::Tok> = tokenize(&e.source)?.iter().map(node::tok).collect();
        let (x, y) = (show_toks(&e.tokens), show_toks(&toks));
        if x != y {
            return Err(format!("{}\nsource: {:?}", diff(&x, &y), e.source));
        }
        doc_pass(d)
    });
    c.sub("any-text", R_SOUP, N.0, N.1, soup, |t: &String| {
        let seen = check_lexical(t)?;
        let (nt, _) = soup_class(t);
        pass(nt, format!("{} command heads", seen.min(5)))
    });
    c.sub("code-points", R_CODE, 3000, 300_000, gen_code_points, |t: &String| {
        let seen = check_lexical(t)?;
        pass(t.chars().any(|c| !c.is_ascii()), format!("{} command heads", if seen == 0 { "no" } else { "some" }))
    });
    c.sub("deep", R_DEEP, 400, 20_000, gen_deep, |t: &String| {
        check_lexical(t)?;
        let (nt, class) = deep_class(t);
        pass(nt, class)
    });
    c.sub("long", R_LONG, 60, 2_000, gen_long, |t: &String| {
        check_lexical(t)?;
        let (nt, class) = long_class(t);
        pass(nt, class)
    });
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        check_lexical(t)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

fn escape_all(t: &str) -> String {
    let mut o = String::new();
    for g in t.graphemes(true) {
        if g.len() == 1 && SPECIALS.contains(&g.chars().next().unwrap()) {
            o.push('\\');
        }
        o.push_str(g);
    }
    o
}

/// Text of a subtree without commands.
fn flat(n: &Node) -> Result<String, String> {
    match n.kind {
        "Text" => Ok(n.value.clone().unwrap_or_default()),
        "Expr" | "Stmt" => {
            let mut s = String::new();
            for c in &n.children {
                s.push_str(&flat(c)?);
            }
            Ok(s)
        }
        k => Err(format!("a {k} node where only text is due")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EscArg {
    text: String,
    kind: Kind,
    before: bool,
    after: bool,
}

pub fn c04(c: &mut Ctx) {
    let gen = |s: &mut Src| {
        let n = s.range(1, 8);
        let mut t = String::new();
        for _ in 0..n {
            match s.below(3) {
                0 => t.push(*s.pick(SPECIALS)),
                1 => t.push_str(s.pick(PIECES)),
                _ => t.push(' '),
            }
        }
        t
    };
    c.sub("top-level", "text outside brackets", 6000, 300_000, gen, |t: &String| {
        let src = escape_all(t);
        let f = front(&src)?;
        if let Some(e) = f.errors.first() {
            return Err(format!("{src:?} is diagnosed: {e:?}"));
        }
        let a = node::ast(&f.ast);
        if a.children.len() != 1 || a.children[0].children.len() != 1 {
            return Err(format!("{src:?} is not one line of one statement:\n{}", a.shape()));
        }
        let got = flat(&a.children[0])?;
        if got != *t {
            return Err(format!("{src:?} gives {got:?}"));
        }
        pass(src != *t, "top-level")
    });
    c.sub(
        "argument",
        "text as an argument, alone or between other arguments, in each bracket kind",
        6000,
        300_000,
        move |s| EscArg { text: gen(s), kind: *s.pick(&Kind::ALL), before: s.bool(), after: s.bool() },
        |x: &EscArg| {
            let want = x.text.trim_matches(' ').to_string();
            if want.is_empty() {
                return pass(false, "blank");
            }
            let src = format!(
                "{}m.c {}{}{}{}",
                x.kind.open(),
                if x.before { "x, " } else { "" },
                escape_all(&x.text),
                if x.after { ", y" } else { "" },
                x.kind.close()
            );
            let f = front(&src)?;
            if let Some(e) = f.errors.first() {
                return Err(format!("{src:?} is diagnosed: {e:?}"));
            }
            let a = node::ast(&f.ast);
            let cmd = &a.children[0].children[0].children;
            if a.children.len() != 1 || a.children[0].children.len() != 1 || cmd.len() != 1 || cmd[0].kind != x.kind.name() {
                return Err(format!("{src:?} is not one command:\n{}", a.shape()));
            }
            let n = 3 + x.before as usize + x.after as usize;
            if cmd[0].children.len() != n {
                return Err(format!("{src:?} has {} arguments, not {}", cmd[0].children.len() - 2, n - 2));
            }
            let got = flat(&cmd[0].children[2 + x.before as usize])?;
            if got != want {
                return Err(format!("{src:?} gives the argument {got:?}"));
            }
            pass(src.contains('\\'), "argument")
        },
    );
    c.sub(
        "next-to-commands",
        "an escape directly before or after a command, or inside one next to an inner command",
        4000,
        200_000,
        |s| {
            let mut o = Opts::default();
            o.paras = 1;
            let mut items = vec![];
            for _ in 0..s.range(1, 3) {
                items.push(Item::Esc(*s.pick(SPECIALS)));
                items.push(Item::Cmd(gen_cmd(s, &o, 2)));
                items.push(Item::Esc(*s.pick(SPECIALS)));
            }
            Doc { lead: vec![], paras: vec![Para { lines: vec![items], crlf: vec![] }], seps: vec![], tail: vec![] }
        },
        |d: &Doc| {
            let e = emit(d);
            let f = front(&e.source)?;
            if let Some(x) = f.errors.first() {
                return Err(format!("{:?} is diagnosed: {x:?}", e.source));
            }
            let (x, y) = (e.ast.shape(), node::ast(&f.ast).shape());
            if x != y {
                return Err(format!("{}\nsource: {:?}", diff(&x, &y), e.source));
            }
            doc_pass(d)
        },
    );
}

fn parse(t: &str) -> Result<(Vec<node::Tok>, Node), String> {
    let toks = tokenize(t)?;
    let cst = brack_parser::parse::parse(&toks).map_err(|e| format!("parser error: {e}"))?;
    Ok((toks.iter().map(node::tok).collect(), node::cst(&cst)))
}

const INNER: &[&str] = &["Document", "Stmt", "Expr", "Angle", "Curly", "Square"];

fn leaves<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    if n.kind == "BackSlash" {
        out.push(n);
    } else if !INNER.contains(&n.kind) {
        out.push(n);
    }
    for c in &n.children {
        leaves(c, out);
    }
}

fn check_leaves(t: &str) -> Result<(), String> {
    let (toks, cst) = parse(t)?;
    let mut ls = vec![];
    leaves(&cst, &mut ls);
    if ls.len() != toks.len() {
        return Err(format!("{} tokens but {} leaves in the tree", toks.len(), ls.len()));
    }
    for (i, (k, l)) in toks.iter().zip(&ls).enumerate() {
        let escaped = i > 0 && ls[i - 1].kind == "BackSlash" && !ls[i - 1].children.is_empty();
        if escaped {
            let want = match k.kind {
                "BackSlash" => "\\",
                "AngleBracketOpen" => "<",
                "AngleBracketClose" => ">",
                "CurlyBracketOpen" => "{",
                "CurlyBracketClose" => "}",
                "SquareBracketOpen" => "[",
                "SquareBracketClose" => "]",
                "Dot" => ".",
                "Comma" => ",",
                o => return Err(format!("an escaped {o}")),
            };
            if l.kind != "Text" || l.value.as_deref() != Some(want) {
                return Err(format!("the escaped {want:?} (token {i}) is {} {:?} in the tree", l.kind, l.value));
            }
        } else {
            if l.kind != k.kind {
                return Err(format!("token {i} is {} but leaf {i} is {}", k.kind, l.kind));
            }
            if k.value.is_some() && k.value != l.value {
                return Err(format!("token {i} is {:?} but leaf {i} is {:?}", k.value, l.value));
            }
        }
        if l.kind != "BackSlash" && l.span != k.span {
            return Err(format!("token {i} {} spans {:?} but its leaf {:?}", k.kind, k.span, l.span));
        }
    }
    Ok(())
}

pub fn c05(c: &mut Ctx) {
    c.sub("any-text", R_SOUP, N.0, N.1, soup, |t: &String| {
        check_leaves(t)?;
        let (nt, class) = soup_class(t);
        pass(nt, class)
    });
    c.sub("documents", R_DOC, 3000, 150_000, doc, |d: &Doc| {
        check_leaves(&emit(d).source)?;
        doc_pass(d)
    });
    c.sub("deep", R_DEEP, 200, 10_000, gen_deep, |t: &String| {
        check_leaves(t)?;
        let (nt, class) = deep_class(t);
        pass(nt, class)
    });
    c.sub("long", R_LONG, 60, 2_000, gen_long, |t: &String| {
        check_leaves(t)?;
        let (nt, class) = long_class(t);
        pass(nt, class)
    });
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        check_leaves(t)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

pub fn c06(c: &mut Ctx) {
    fn check(t: &str) -> Result<(), String> {
        let (_, cst) = parse(t)?;
        let mut got = String::new();
        actual_shape(&cst, 0, &mut got);
        let want = ref_shape(t);
        if got != want {
            return Err(diff(&want, &got));
        }
        Ok(())
    }
    c.sub("any-text", R_SOUP, 8000, 500_000, soup, |t: &String| {
        check(t)?;
        let (nt, class) = soup_class(t);
        pass(nt, class)
    });
    c.sub("deep", R_DEEP, 200, 10_000, gen_deep, |t: &String| {
        check(t)?;
        let (nt, class) = deep_class(t);
        pass(nt, class)
    });
    c.sub("documents", R_DOC, 4000, 200_000, doc, |d: &Doc| {
        let e = emit(d);
        let (_, cst) = parse(&e.source)?;
        let (x, y) = (kinds(&e.cst), kinds(&cst));
        if x != y {
            return Err(format!("{}\nsource: {:?}", diff(&x, &y), e.source));
        }
        doc_pass(d)
    });
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        check(t)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

/// Kinds, and the values of words.
fn kinds(n: &Node) -> String {
    fn go(n: &Node, d: usize, out: &mut String) {
        out.push_str(&format!("{:w$}{}", "", n.kind, w = d));
        if matches!(n.kind, "Text" | "Module" | "Ident") {
            out.push_str(&format!(" {:?}", n.value.clone().unwrap_or_default()));
        }
        out.push('\n');
        for c in &n.children {
            go(c, d + 1, out);
        }
    }
    let mut s = String::new();
    go(n, 0, &mut s);
    s
}

fn spans(n: &Node) -> String {
    fn go(n: &Node, d: usize, out: &mut String) {
        out.push_str(&format!("{:w$}{} {:?}\n", "", n.kind, n.span, w = d));
        for c in &n.children {
            go(c, d + 1, out);
        }
    }
    let mut s = String::new();
    go(n, 0, &mut s);
    s
}

/// In the concrete tree of any text: a node spans from its first leaf to its last.
fn check_cst_spans(n: &Node) -> Result<(), String> {
    for c in &n.children {
        check_cst_spans(c)?;
    }
    let (Some(f), Some(l)) = (n.children.first(), n.children.last()) else {
        return Ok(());
    };
    let unclosed = matches!(n.kind, "Angle" | "Curly" | "Square")
        && !matches!(l.kind, "AngleBracketClose" | "CurlyBracketClose" | "SquareBracketClose");
    if n.kind == "BackSlash" {
        if n.span.1 != l.span.1 || n.span.0 != (l.span.0 .0, l.span.0 .1 - 1) {
            return Err(format!("an escape spans {:?} but its character {:?}", n.span, l.span));
        }
        return Ok(());
    }
    if n.span.0 != f.span.0 && n.kind != "Document" {
        return Err(format!("a {} starts at {:?} but its first part at {:?}", n.kind, n.span.0, f.span.0));
    }
    // An unclosed bracket may extend over the token that shows it is unclosed.
    fn has_unclosed(n: &Node) -> bool {
        matches!(n.kind, "Angle" | "Curly" | "Square")
            && !n.children.last().is_some_and(|l| l.kind.ends_with("BracketClose"))
            || n.children.last().is_some_and(has_unclosed)
    }
    if unclosed || has_unclosed(l) {
        if n.span.1 < n.span.0 {
            return Err(format!("a {} spans {:?}", n.kind, n.span));
        }
        return Ok(());
    }
    if n.span.1 != l.span.1 {
        return Err(format!("a {} ends at {:?} but its last part at {:?}", n.kind, n.span.1, l.span.1));
    }
    Ok(())
}

pub fn c07(c: &mut Ctx) {
    let test = |d: &Doc| -> Res {
        let e = emit(d);
        let f = front(&e.source)?;
        for (what, want, got) in [
            ("concrete", spans(&e.cst), spans(&node::cst(&f.cst))),
            ("abstract", spans(&e.ast), spans(&node::ast(&f.ast))),
        ] {
            if want != got {
                return Err(format!("{what} tree: {}\nsource: {:?}", diff(&want, &got), e.source));
            }
        }
        doc_pass(d)
    };
    c.sub("documents", R_DOC, 5000, 300_000, doc, test);
    c.sub("crowded-documents", "small documents of which one thing is there hundreds or thousands of times; non-trivial: holds a command or escape", 300, 12_000, gen_crowded_doc, test);
    c.sub("any-text", R_SOUP, N.0, N.1, soup, |t: &String| {
        let (_, cst) = parse(t)?;
        check_cst_spans(&cst)?;
        let (nt, class) = soup_class(t);
        pass(nt, class)
    });
    c.sub("deep", R_DEEP, 200, 10_000, gen_deep, |t: &String| {
        let (_, cst) = parse(t)?;
        check_cst_spans(&cst)?;
        let (nt, class) = deep_class(t);
        pass(nt, class)
    });
    c.sub("long", R_LONG, 60, 2_000, gen_long, |t: &String| {
        let (_, cst) = parse(t)?;
        check_cst_spans(&cst)?;
        let (nt, class) = long_class(t);
        pass(nt, class)
    });
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        let (_, cst) = parse(t)?;
        check_cst_spans(&cst)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

fn check_ids(n: &Node) -> Result<(), String> {
    let mut seen = HashSet::new();
    let mut bad = None;
    n.walk(&mut |x| {
        if x.id.is_empty() || !seen.insert(x.id.clone()) {
            bad = Some(format!("the id {:?} of a {} is empty or used twice", x.id, x.kind));
        }
    });
    bad.map_or(Ok(()), Err)
}

pub fn c08(c: &mut Ctx) {
    let test = |d: &Doc| -> Res {
        let e = emit(d);
        let f = front(&e.source)?;
        if let Some(x) = f.errors.first() {
            return Err(format!("diagnosed: {x:?}\nsource: {:?}", e.source));
        }
        let got = node::ast(&f.ast);
        let (x, y) = (e.ast.shape(), got.shape());
        if x != y {
            return Err(format!("{}\nsource: {:?}", diff(&x, &y), e.source));
        }
        check_ids(&got)?;
        doc_pass(d)
    };
    c.sub("documents", R_DOC, 8000, 500_000, doc, test);
    c.sub(
        "any-text",
        "arbitrary texts and documents with a few characters removed, repeated or put in: where nothing is wrong, the tree is the one that the reference reading gives; non-trivial: nothing is wrong and the text holds a bracket or an escape",
        8000,
        500_000,
        |s| {
            if s.chance(1, 4) {
                return soup(s);
            }
            let d = gen_doc(s, &Opts { paras: 2, ..Opts::default() });
            let t = emit(&d).source;
            let mut gs: Vec<&str> = t.graphemes(true).collect();
            for _ in 0..s.range(1, 3) {
                let at = s.usize(gs.len().max(1));
                match s.below(4) {
                    0 if !gs.is_empty() => {
                        gs.remove(at);
                    }
                    1 if !gs.is_empty() => gs.insert(at, gs[at]),
                    _ => gs.insert(at.min(gs.len()), *s.pick(&["\n", " ", "x", "\t", "\r\n", "é", "  ", "\n\n", "\\]", "[a.b]", "\u{200b}", "\r", "."])),
                }
            }
            gs.concat()
        },
        |t: &String| {
            let f = front(t)?;
            if !f.errors.is_empty() {
                return pass(false, "diagnosed");
            }
            tree_is_right(t, &f)?;
            let (nt, class) = soup_class(t);
            pass(nt, class)
        },
    );
    c.sub("crowd", "small documents of which one thing is there hundreds or thousands of times; non-trivial: holds a command or escape", 300, 12_000, gen_crowded_doc, test);
    c.sub(
        "deep",
        "commands nested up to 180 deep, in arguments and heads; all non-trivial",
        300,
        6000,
        |s| {
            let o = Opts::default();
            let mut c = gen_cmd(s, &o, 1);
            let depth = match s.below(8) {
                0 => s.range(60, 180),
                _ => s.range(2, 40),
            };
            for _ in 0..depth {
                let mut outer = gen_cmd(s, &o, 1);
                if outer.args.is_empty() || s.chance(1, 6) && c.kind == Kind::Angle {
                    if c.kind == Kind::Angle {
                        outer.module = Head::Macro(Box::new(c));
                    } else {
                        outer.tail = vec![];
                        outer.args = vec![Arg { lead: vec![Item::Sp], items: vec![Item::Cmd(c)], trail: vec![] }];
                    }
                } else {
                    let k = s.usize(outer.args.len());
                    let at = s.usize(outer.args[k].items.len() + 1);
                    outer.args[k].items.insert(at, Item::Cmd(c));
                }
                c = outer;
            }
            Doc { lead: vec![], paras: vec![Para { lines: vec![vec![Item::Cmd(c)]], crlf: vec![] }], seps: vec![], tail: vec![] }
        },
        |d: &Doc| {
            let e = emit(d);
            let f = front(&e.source)?;
            if let Some(x) = f.errors.first() {
                return Err(format!("diagnosed: {x:?}\nsource: {:?}", e.source));
            }
            let (x, y) = (e.ast.shape(), node::ast(&f.ast).shape());
            if x != y {
                return Err(format!("{}\nsource: {:?}", diff(&x, &y), e.source));
            }
            pass(true, "deep")
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    fault: String,
    before: Doc,
    cmd: String,
    /// Column of the fault within `cmd`, and the message due there.
    col: usize,
    message: String,
    after: Doc,
}

pub fn c09(c: &mut Ctx) {
    c.sub("any-text", "arbitrary text; every diagnostic compared with the reference pairing and rules", 10_000, 600_000, soup, |t: &String| {
        let w = check_errors(t)?;
        pass(!w.is_empty(), format!("{} diagnostics", w.len().min(6)))
    });
    c.sub("deep", R_DEEP, 200, 10_000, gen_deep, |t: &String| {
        check_errors(t)?;
        let (nt, class) = deep_class(t);
        pass(nt, class)
    });
    c.sub("long", R_LONG, 60, 2_000, gen_long, |t: &String| {
        check_errors(t)?;
        let (nt, class) = long_class(t);
        pass(nt, class)
    });
    c.sub(
        "one-deletion",
        "a well-formed document with one character deleted or one special character inserted",
        6000,
        300_000,
        |s| {
            let d = gen_doc(s, &Opts { paras: 2, ..Opts::default() });
            let e = emit(&d);
            let gs: Vec<&str> = e.source.graphemes(true).collect();
            let at = s.usize(gs.len().max(1));
            let ins = s.bool();
            let sp = s.pick(SPECIALS).to_string();
            let mut out = String::new();
            for (i, g) in gs.iter().enumerate() {
                if i == at {
                    if ins {
                        out.push_str(&sp);
                    } else {
                        continue;
                    }
                }
                out.push_str(g);
            }
            out
        },
        |t: &String| {
            let w = check_errors(t)?;
            pass(!w.is_empty(), format!("{} diagnostics", w.len().min(6)))
        },
    );
    c.sub(
        "several-faults",
        "commands with a correct head and a tail of words, commas, dots, blanks, lone backslashes, escapes and further commands in any order; brackets mostly paired",
        6000,
        300_000,
        |s| {
            fn cmd(s: &mut Src, depth: usize, t: &mut String) {
                let k = *s.pick(&Kind::ALL);
                t.push_str(k.open());
                match s.below(16) {
                    0 => {}
                    1 => t.push_str(&gen_name(s)),
                    2 => t.push_str(&format!("{}.", gen_name(s))),
                    _ => t.push_str(&format!("{}.{} ", gen_name(s), gen_name(s))),
                }
                for _ in 0..s.len(9) {
                    match s.below(12) {
                        0..=2 => t.push_str(&gen_word(s)),
                        3..=5 => t.push(','),
                        6 => t.push('.'),
                        7 | 8 => t.push(' '),
                        9 => t.push_str(s.pick(&["\n", "\\", "\\,", "\\]", "\r\n", "  "])),
                        10 if depth > 0 => cmd(s, depth - 1, t),
                        _ => t.push_str(&gen_word(s)),
                    }
                }
                match s.below(24) {
                    0 => {}
                    1 => t.push_str(s.pick(&Kind::ALL).close()),
                    _ => t.push_str(k.close()),
                }
            }
            let mut t = String::new();
            for _ in 0..s.range(1, 3) {
                cmd(s, 2, &mut t);
                t.push_str(s.pick(&["", " ", "\n", "\n\n", "x", "."]));
            }
            t
        },
        |t: &String| {
            let w = check_errors(t)?;
            pass(!w.is_empty(), format!("{} diagnostics", w.len().min(6)))
        },
    );
    c.sub(
        "injected",
        "one known fault in one command between two well-formed documents: that diagnostic, there, and no other",
        4000,
        200_000,
        |s| {
            let o = Opts { paras: 2, ..Opts::default() };
            let k = *s.pick(&Kind::ALL);
            let (m, i, w) = (gen_name(s), gen_name(s), gen_word(s));
            let (op, cl) = (k.open(), k.close());
            let gl = |t: &str| graphemes(t);
            let n = k.name();
            let (fault, cmd, col, message): (&str, String, usize, String) = match s.below(10) {
                0 => ("unclosed", format!("{op}{m}.{i} {w}"), 0, format!("{n} bracket not closed")),
                1 => ("not opened", format!("{w}{cl}"), gl(&w), format!("{n} bracket not opened")),
                2 => ("no name", format!("{op}{m}.{cl}"), 1 + gl(&m) + 1, "Need identifier after module".into()),
                3 => ("leading comma", format!("{op}{m}.{i} , {w}{cl}"), 1 + gl(&m) + 1 + gl(&i) + 1, "Unexpected comma".into()),
                4 => ("trailing comma", format!("{op}{m}.{i} {w},{cl}"), 1 + gl(&m) + 1 + gl(&i) + 1 + gl(&w), "Unexpected comma".into()),
                5 => ("double comma", format!("{op}{m}.{i} {w}, ,{w}{cl}"), 1 + gl(&m) + 1 + gl(&i) + 1 + gl(&w) + 2, "Unexpected comma".into()),
                6 => ("dot", format!("{op}{m}.{i} {w}.{w}{cl}"), 1 + gl(&m) + 1 + gl(&i) + 1 + gl(&w), "Unexpected dot".into()),
                7 => ("backslash", format!("{op}{m}.{i} {w}\\{w}{cl}"), 1 + gl(&m) + 1 + gl(&i) + 1 + gl(&w), "Backslash must be followed by dot, comma, backslash, or bracket".into()),
                8 => ("no module", format!("{op}{cl}"), 1, "Need module".into()),
                _ => ("no dot", format!("{op}<{m}.{i}> {w}{cl}"), 1 + 3 + gl(&m) + gl(&i), "Need dot after module".into()),
            };
            Faulty {
                fault: fault.into(),
                before: gen_doc(s, &o),
                cmd,
                col,
                message,
                after: if fault == "unclosed" { Doc { lead: vec![], paras: vec![], seps: vec![], tail: vec![] } } else { gen_doc(s, &o) },
            }
        },
        |x: &Faulty| {
            let b = emit(&x.before).source;
            let b = if b.is_empty() { b } else { format!("{b}\n\n") };
            let line = positions(&b)[&b.len()].0;
            let mut t = format!("{b}{}", x.cmd);
            if x.fault != "unclosed" {
                t.push_str("\n\n");
                t.push_str(&emit(&x.after).source);
            }
            let f = front(&t)?;
            if f.errors.is_empty() {
                return Err(format!("{:?} in {t:?} is not diagnosed", x.cmd));
            }
            let got: BTreeSet<(String, Pos)> = f.errors.iter().map(|e| (e.message.clone(), e.span.0)).collect();
            let mut want = BTreeSet::from([(x.message.clone(), (line, x.col))]);
            if x.fault == "no dot" {
                // what follows is not a name either
                want.insert(("Need identifier after module".into(), (line, x.col + 1)));
            }
            if got != want {
                return Err(format!("{:?} ({}) in {t:?} gives {got:?}, due {want:?}", x.cmd, x.fault));
            }
            pass(true, x.fault.clone())
        },
    );
    c.sub("crowd", R_CROWD, 300, 12_000, gen_crowd, |t: &String| {
        check_errors(t)?;
        let (nt, class) = crowd_class(t);
        pass(nt, class)
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Big {
    Repeat { unit: String, n: usize },
    Nest { open: String, n: usize, close: Option<String> },
    Mix { units: Vec<String>, n: usize, seed: u64 },
}

fn big_text(b: &Big) -> String {
    match b {
        Big::Repeat { unit, n } => unit.repeat(*n),
        Big::Nest { open, n, close } => {
            let mut t = open.repeat(*n);
            if let Some(c) = close {
                t.push_str(&c.repeat(*n));
            }
            t
        }
        Big::Mix { units, n, seed } => {
            let mut s = Src::random(*seed);
            (0..*n).map(|_| s.pick(units).as_str()).collect()
        }
    }
}

const SIZE: usize = 12_000;
const DEPTH: usize = 200;

pub fn c10(c: &mut Ctx) {
    let all = |t: &str| -> Result<(), String> {
        let f = front(t)?;
        // what the tools print
        let _ = serde_json::to_string(&f.ast).map_err(|e| e.to_string())?;
        let _ = f.cst.to_string();
        let _ = f.ast.to_string();
        Ok(())
    };
    c.sub("any-text", R_SOUP, 12_000, 800_000, |s| gen_soup(s, 80), move |t: &String| {
        all(t)?;
        let (nt, class) = soup_class(t);
        pass(nt, class)
    });
    c.sub(
        "any-code-points",
        "texts of uniformly drawn code points and of raw ASCII",
        4000,
        300_000,
        |s| {
            let n = s.len(60);
            let mode = s.below(3);
            (0..n)
                .filter_map(|_| match mode {
                    0 => char::from_u32(s.below(0x110000) as u32),
                    1 => char::from_u32(s.below(0x80) as u32),
                    _ => {
                        if s.bool() {
                            Some(*s.pick(SPECIALS))
                        } else {
                            char::from_u32(s.below(0x100) as u32)
                        }
                    }
                })
                .collect::<String>()
        },
        move |t: &String| {
            all(t)?;
            let (nt, class) = soup_class(t);
            pass(nt, class)
        },
    );
    c.sub(
        "files",
        "files of any bytes: text with bytes put in, taken out or changed; non-trivial: not UTF-8, which has to be refused",
        3000,
        150_000,
        |s| {
            let mut b = soup(s).into_bytes();
            for _ in 0..s.below(4) {
                let at = s.usize(b.len() + 1);
                let byte = *s.pick(&[0x80u8, 0xff, 0xc3, 0xe3, 0xf0, 0xed, 0xa0, 0xc0, 0xfe, 0xef, 0xbb, 0xbf, 0, b'\r', b'\n', 0x1a]);
                match s.below(3) {
                    0 => b.insert(at, byte),
                    1 if at < b.len() => b[at] = byte,
                    _ if at < b.len() => {
                        b.remove(at);
                    }
                    _ => b.push(byte),
                }
            }
            b
        },
        |b: &Vec<u8>| {
            let f = scratch("document.[]");
            if let Err(e) = std::fs::write(&f, b) {
                harness_error(format!("cannot write a document: {e}"));
            }
            let r = brack_tokenizer::tokenize::tokenize(&f);
            match (std::str::from_utf8(b), r) {
                (Ok(_), Ok(_)) => pass(false, "UTF-8"),
                (Err(_), Err(_)) => pass(true, "not UTF-8"),
                (Ok(_), Err(e)) => Err(format!("a file of text is refused: {e:#}")),
                (Err(_), Ok(t)) => Err(format!("a file that is no text is read as {t:?}")),
            }
        },
    );
    c.sub(
        "large",
        "texts of up to 12000 characters: one unit repeated, brackets nested up to 200 deep, mixes",
        60,
        600,
        |s| {
            const UNITS: &[&str] = &[
                "a", " ", "\n", "\r\n", "\n\n", "\\", "\\[", "[", "]", "[]", "[a.b]", "[a.b c, d]", "{a.b x} ", "<a.b x>\n", "<", "}", ".", ",",
                "[a.", "日本", "\u{301}", "👩\u{200d}👩\u{200d}👧", "\u{0}", "]]>", "[a.b ", "[<", "lorem ipsum dolor. ", "x\n",
            ];
            match s.below(4) {
                0 | 1 => {
                    let unit = s.pick(UNITS).to_string();
                    let opens = unit.chars().any(|c| "[{<".contains(c)) && !unit.contains('\\') && unit.chars().filter(|c| "[{<".contains(*c)).count() > unit.chars().filter(|c| "]}>".contains(*c)).count();
                    let n = if opens { s.range(1, DEPTH) } else { s.range(1, SIZE / unit.chars().count()) };
                    Big::Repeat { unit, n }
                }
                2 => {
                    let k = *s.pick(&Kind::ALL);
                    let open = match s.below(3) {
                        0 => k.open().to_string(),
                        1 => format!("{}a.b ", k.open()),
                        _ => format!("{}a.b x, ", k.open()),
                    };
                    Big::Nest { open, n: s.range(1, DEPTH), close: if s.chance(2, 3) { Some(k.close().to_string()) } else { None } }
                }
                _ => {
                    let units = vec!["[a.b c]".to_string(), "text ".into(), "\n".into(), "\n\n".into(), "\\]".into(), "]".into(), s.pick(UNITS).replace(['[', '<', '{'], "x").to_string()];
                    Big::Mix { units, n: s.range(1, SIZE / 6), seed: s.below(1 << 20) }
                }
            }
        },
        move |b: &Big| {
            let t = big_text(b);
            all(&t)?;
            let class = match b {
                Big::Repeat { .. } => "repeat",
                Big::Nest { .. } => "nest",
                Big::Mix { .. } => "mix",
            };
            pass(t.chars().count() > 2000 || matches!(b, Big::Nest { n, .. } if *n > 20), class)
        },
    );
    c.sub(
        "books",
        "documents of up to 150000 characters in lines and paragraphs, with commands over up to a few lines",
        10,
        64,
        |s| {
            let mut units: Vec<String> = vec![];
            for _ in 0..s.range(2, 6) {
                units.push(match s.below(4) {
                    0 => emit(&gen_doc(s, &Opts { depth: 2, paras: 1, ..Opts::default() })).source + "\n\n",
                    1 => s.pick(&["Lorem ipsum dolor sit amet, consectetur.\n", "日本語の文章。\r\n", "[a.b c] x\n", "\\[ x \\]\n", "\n"]).to_string(),
                    2 => gen_word(s) + "\n",
                    _ => gen_top_text(s) + *s.pick(&["\n\n", " {a.b x, y\nz}\n", " <a.b [c.d e]>.\r\n"]),
                });
            }
            let each: usize = units.iter().map(|u| u.chars().count()).sum();
            Big::Repeat { unit: units.concat(), n: (s.range(5, 15) * 10_000).div_ceil(each) }
        },
        move |b: &Big| {
            let t = big_text(b);
            all(&t)?;
            pass(true, format!("{} characters", if t.chars().count() > 100_000 { "100000+" } else { "50000-100000" }))
        },
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: String,
    sep: String,
    b: String,
}

fn shift(n: &Node, by: usize) -> Node {
    let mut n = n.clone();
    n.span.0 .0 += by;
    n.span.1 .0 += by;
    n.children = n.children.iter().map(|c| shift(c, by)).collect();
    n
}

pub fn c11(c: &mut Ctx) {
    let balanced = |t: &str| {
        fn all_closed(items: &[R]) -> bool {
            items.iter().all(|r| match r {
                R::Bracket { items, close, .. } => close.is_some() && all_closed(items),
                _ => true,
            })
        }
        all_closed(&tree(&lex(t)))
    };
    let gen = move |s: &mut Src| {
        let o = Opts { paras: 3, ..Opts::default() };
        let mut one = || match s.below(60) {
            0 => gen_crowd(s),
            1..=30 => emit(&gen_doc(s, &o)).source,
            _ => soup(s),
        };
        let (a, b) = (one(), one());
        let sep = s.pick(&["\n\n", "\n\n\n", "\r\n\r\n", "\n\r\n"]).to_string();
        Two { a, sep, b }
    };
    c.sub("joined", "a and b separated by a blank line, a without unclosed brackets", 8000, 500_000, gen, move |x: &Two| {
        // A carriage return or backslash at the join would belong to the separator.
        if !balanced(&x.a) || x.a.ends_with('\r') {
            return pass(false, "skipped: a has an unclosed bracket");
        }
        let fa = front(&x.a)?;
        let fb = front(&x.b)?;
        let t = format!("{}{}{}", x.a, x.sep, x.b);
        let f = front(&t)?;
        let by = positions(&t)[&(x.a.len() + x.sep.len())].0;
        let (aa, ab, aj) = (node::ast(&fa.ast), node::ast(&fb.ast), node::ast(&f.ast));
        let mut want: Vec<Node> = aa.children.clone();
        want.extend(ab.children.iter().map(|n| shift(n, by)));
        let (w, g): (String, String) = (want.iter().map(|n| n.shape_spans()).collect(), aj.children.iter().map(|n| n.shape_spans()).collect());
        if w != g {
            return Err(format!("statements of the joined document differ: {}\njoined: {t:?}", diff(&w, &g)));
        }
        let mut we: Vec<String> = fa.errors.iter().map(|e| format!("{} {:?}", e.message, e.span)).collect();
        we.extend(fb.errors.iter().map(|e| format!("{} {:?}", e.message, ((e.span.0 .0 + by, e.span.0 .1), (e.span.1 .0 + by, e.span.1 .1)))));
        let ge: Vec<String> = f.errors.iter().map(|e| format!("{} {:?}", e.message, e.span)).collect();
        if we != ge {
            return Err(format!("diagnostics of the joined document differ: {}\njoined: {t:?}", diff(&we.join("\n"), &ge.join("\n"))));
        }
        pass(!aa.children.is_empty() && !ab.children.is_empty(), format!("{} + {} statements", aa.children.len().min(4), ab.children.len().min(4)))
    });
}

pub const R31: &str = "trees of generated documents and of arbitrary texts, and trees built up node by node; non-trivial: the tree has a node below a statement's lines";

/// The tree as text: a node per line, two blanks per depth, the value behind the kind.
fn listing(n: &Node, depth: usize, out: &mut String) {
    out.push_str(&"  ".repeat(depth));
    out.push_str(n.kind);
    if let Some(v) = &n.value {
        out.push_str(": ");
        out.push_str(v);
    }
    out.push('\n');
    for c in &n.children {
        listing(c, depth + 1, out);
    }
}

/// Every node of the tree by itself.
fn nodes<'a>(a: &'a AST, out: &mut Vec<&'a AST>) {
    out.push(a);
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => n.children.iter().for_each(|c| nodes(c, out)),
        _ => {}
    }
}

fn check_tree(a: &AST) -> Result<usize, String> {
    let plain = node::ast(a);
    let mut all = vec![];
    nodes(a, &mut all);
    let ids: HashSet<String> = all.iter().map(|n| node::ast(n).id).collect();
    if ids.len() != all.len() {
        return Err("two nodes have the same id".into());
    }
    for n in &all {
        let p = node::ast(n);
        if n.id() != p.id {
            return Err(format!("id() of {n:?} is {:?}", n.id()));
        }
        match a.get(&p.id) {
            Some(f) if std::ptr::eq(f, *n) => {}
            f => return Err(format!("get({:?}) gives {f:?}\nexpected {n:?}", p.id)),
        }
        // from the node itself only what is below it is found
        let mut below = vec![];
        nodes(n, &mut below);
        if all.len() < 40 {
            for m in &all {
                let want = below.iter().any(|b| std::ptr::eq(*b, *m));
                if n.get(&m.id()).is_some() != want {
                    return Err(format!("get({:?}) from {n:?} {}", m.id(), if want { "finds nothing" } else { "finds what is not below it" }));
                }
            }
        }
        let mut others = vec![format!("{} ", p.id), p.id[1..].to_string(), p.id.to_uppercase()];
        others.extend(p.value.clone());
        others.push(p.kind.to_string());
        for o in others {
            if !ids.contains(&o) && a.get(&o).is_some() {
                return Err(format!("get({o:?}) finds a node"));
            }
        }
        match p.kind {
            "Ident" | "Module" | "Text" if n.value() != p.value => return Err(format!("value() of {n:?} is {:?}", n.value())),
            "Document" | "Stmt" | "Expr" | "Angle" | "Square" | "Curly" if !std::ptr::eq(n.children(), below_of(n)) => return Err(format!("children() of {n:?} are others")),
            _ => {}
        }
    }
    if a.get("").is_some() {
        return Err("get(\"\") finds a node".into());
    }
    let mut want = String::new();
    listing(&plain, 0, &mut want);
    if a.to_string() != want {
        return Err(format!("the tree is shown as\n{a}expected\n{want}"));
    }
    Ok(all.len())
}

fn below_of(a: &AST) -> &Vec<AST> {
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => &n.children,
        _ => unreachable!(),
    }
}

fn check_queries(t: &str) -> Res {
    let f = front(t)?;
    let n = check_tree(&f.ast).map_err(|e| format!("{e}\nsource: {t:?}"))?;
    macro_rules! round {
        ($x:expr, $t:ty, $w:expr) => {
            let j = serde_json::to_string($x).map_err(|e| format!("{} as JSON: {e}", $w))?;
            let mut read = serde_json::Deserializer::from_str(&j);
            // brackets may be nested deeper than the reader allows by default
            read.disable_recursion_limit();
            let back = <$t>::deserialize(&mut read).map_err(|e| format!("{} from JSON: {e}\n{j}", $w))?;
            if &back != $x {
                return Err(format!("{} read back from JSON differ\nwas {:?}\nnow {back:?}", $w, $x));
            }
        };
    }
    round!(&f.tokens, Vec<Token>, "tokens");
    round!(&f.cst, CST, "concrete tree");
    round!(&f.ast, AST, "abstract tree");
    let commands = { let mut k = 0; node::ast(&f.ast).walk(&mut |n| k += ["Angle", "Square", "Curly"].contains(&n.kind) as usize); k };
    pass(commands > 0, format!("nodes {}", match n { 0..=3 => "1-3", 4..=10 => "4-10", 11..=30 => "11-30", _ => "31+" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Built {
    /// Which kind, where, and to which node (as its number) it is added.
    nodes: Vec<(u8, usize, Span)>,
}

fn place_of(s: Span) -> Location {
    let p = |p: Pos| LocationData { line: p.0, character: p.1 };
    Location { start: p(s.0), end: p(s.1) }
}

fn check_built(b: &Built) -> Res {
    // the model: nodes with parent, in order of addition; built up from the leaves
    let n = b.nodes.len();
    let mut parent = vec![None; n];
    let inner = |k: u8| k % 9 < 6;
    for i in 1..n {
        let cands: Vec<usize> = (0..i).filter(|&j| inner(b.nodes[j].0)).collect();
        parent[i] = Some(cands[b.nodes[i].1 % cands.len()]);
    }
    fn merge(a: Span, b: Span) -> Span {
        (a.0.min(b.0), a.1.max(b.1))
    }
    fn build(b: &Built, parent: &[Option<usize>], i: usize) -> Result<(AST, Node), String> {
        let (k, _, sp) = b.nodes[i];
        let l = place_of(sp);
        let (mut a, kind, value) = match k % 9 {
            0 => (ast::new_document(vec![], l), "Document", None),
            1 => (ast::new_stmt(vec![], l), "Stmt", None),
            2 => (ast::new_expr(vec![], l), "Expr", None),
            3 => (ast::new_angle(vec![], l), "Angle", None),
            4 => (ast::new_square(vec![], l), "Square", None),
            5 => (ast::new_curly(vec![], l), "Curly", None),
            6 => (ast::new_text(Some(format!("t{i}")), l), "Text", Some(format!("t{i}"))),
            7 => (ast::new_ident(Some(format!("i{i}")), l), "Ident", Some(format!("i{i}"))),
            _ => (ast::new_module(Some(format!("m{i}")), l), "Module", Some(format!("m{i}"))),
        };
        let mut m = Node { kind, value, span: sp, id: a.id(), children: vec![] };
        for j in i + 1..b.nodes.len() {
            if parent[j] == Some(i) {
                let (c, cm) = build(b, parent, j)?;
                a.add(c);
                m.span = merge(m.span, cm.span);
                m.children.push(cm);
                let now = node::ast(&a);
                if now != m {
                    return Err(format!("after adding a child the node is {now:?}\nexpected {m:?}"));
                }
            }
        }
        Ok((a, m))
    }
    let (a, _) = build(b, &parent, 0)?;
    check_tree(&a)?;
    // concrete nodes: the first child gives the place
    let mut c = [cst::new_document, cst::new_stmt, cst::new_expr, cst::new_angle, cst::new_square, cst::new_curly][b.nodes[0].0 as usize % 6]();
    let mut span: Option<Span> = None;
    for (i, x) in b.nodes.iter().enumerate().skip(1) {
        c.add(cst::new_text(format!("{i}"), place_of(x.2)));
        span = Some(span.map_or(x.2, |s| merge(s, x.2)));
        let now = node::cst(&c);
        if now.children.len() != i || Some(now.span) != span || now.children[i - 1].value != Some(i.to_string()) || now.children[i - 1].span != x.2 {
            return Err(format!("after adding texts {:?} the concrete node is {now:?}", &b.nodes[1..=i]));
        }
    }
    pass(n > 2, format!("nodes {}", n.min(12)))
}

/// A tree and a copy with other ids and places, and with one change or none.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Compared {
    nodes: Vec<(u8, usize)>,
    change: u8,
    at: usize,
}

fn grown(nodes: &[(u8, usize)], i: usize, at: usize) -> AST {
    let l = place_of(((i, at), (i + 1, at)));
    let v = || [None, Some(String::new()), Some(" ".into()), Some("a".into()), Some("A".into()), Some(format!("t{i}"))][nodes[i].1 % 6].clone();
    let mut a = match nodes[i].0 % 9 {
        0 => ast::new_document(vec![], l),
        1 => ast::new_stmt(vec![], l),
        2 => ast::new_expr(vec![], l),
        3 => ast::new_angle(vec![], l),
        4 => ast::new_square(vec![], l),
        5 => ast::new_curly(vec![], l),
        6 => ast::new_text(v(), l),
        7 => ast::new_ident(v(), l),
        _ => ast::new_module(v(), l),
    };
    for j in i + 1..nodes.len() {
        let cands: Vec<usize> = (0..j).filter(|&k| nodes[k].0 % 9 < 6).collect();
        if cands[nodes[j].1 % cands.len()] == i {
            a.add(grown(nodes, j, at));
        }
    }
    a
}

fn kids(a: &mut AST) -> Option<&mut Vec<AST>> {
    match a {
        AST::Document(n) | AST::Stmt(n) | AST::Expr(n) | AST::Angle(n) | AST::Square(n) | AST::Curly(n) => Some(&mut n.children),
        _ => None,
    }
}

/// The nodes of a tree in order, seen by a function that may change them.
fn each(a: &mut AST, f: &mut dyn FnMut(&mut AST)) {
    f(a);
    for k in kids(a).into_iter().flatten() {
        each(k, f);
    }
}

fn check_compared(x: &Compared) -> Res {
    let (a, mut b) = (grown(&x.nodes, 0, 1), grown(&x.nodes, 0, 2));
    let mut k = 0;
    each(&mut b, &mut |n: &mut AST| {
        k += 1;
        if k - 1 != x.at {
            return;
        }
        let l = place_of(((0, 0), (0, 1)));
        match (x.change % 6, &mut *n) {
            (1, AST::Text(v) | AST::Ident(v) | AST::Module(v)) => {
                v.value = match v.value.as_deref() {
                    None => Some(String::new()),
                    Some("") => None,
                    Some("a") => Some("A".into()),
                    Some(" ") => Some("".into()),
                    Some(t) => Some(format!("{t} ")),
                }
            }
            (2, AST::Text(v)) => *n = ast::new_ident(v.value.clone(), l),
            (2, AST::Ident(v)) => *n = ast::new_module(v.value.clone(), l),
            (2, AST::Module(v)) => *n = ast::new_text(v.value.clone(), l),
            (2, AST::Angle(v)) => *n = ast::new_square(v.children.clone(), l),
            (2, AST::Square(v)) => *n = ast::new_curly(v.children.clone(), l),
            (2, AST::Curly(v)) => *n = ast::new_angle(v.children.clone(), l),
            (2, AST::Expr(v)) => *n = ast::new_stmt(v.children.clone(), l),
            (2, AST::Stmt(v)) => *n = ast::new_document(v.children.clone(), l),
            (2, AST::Document(v)) => *n = ast::new_expr(v.children.clone(), l),
            (3, _) => kids(n).into_iter().for_each(|c| drop(c.pop())),
            (4, _) => kids(n).into_iter().for_each(|c| c.push(ast::new_text(None, l.clone()))),
            (5, _) => kids(n).into_iter().for_each(|c| c.reverse()),
            _ => {}
        }
    });
    fn bare(n: &Node) -> Node {
        Node { kind: n.kind, value: n.value.clone(), span: ((0, 0), (0, 0)), id: String::new(), children: n.children.iter().map(bare).collect() }
    }
    let (na, nb) = (bare(&node::ast(&a)), bare(&node::ast(&b)));
    let equal = na == nb;
    for (p, q) in [(&a, &b), (&b, &a)] {
        if no_panic(|| ast::assert_ast_eq(p, q)).is_ok() != equal {
            return Err(format!("these are {}equal, but the comparison finds {}\n{na:?}\n{nb:?}", if equal { "" } else { "not " }, if equal { "a difference" } else { "none" }));
        }
    }
    let mut all = vec![];
    for t in [&a, &b] {
        each(&mut t.clone(), &mut |n: &mut AST| all.push(n.clone()));
    }
    for p in &all {
        for q in &all {
            if ast::matches_kind(p, q) != (node::ast(p).kind == node::ast(q).kind) {
                return Err(format!("matches_kind is wrong for\n{p:?}\n{q:?}"));
            }
        }
    }
    pass(x.nodes.len() > 1, if equal { "equal" } else { "different" })
}

pub fn c31(c: &mut Ctx) {
    c.sub(
        "compared",
        "a tree compared with a copy of other ids and places in which one node has another kind, value or number or order of children, or none has",
        2500,
        150_000,
        |s| {
            let n = s.range(1, 10);
            let nodes = (0..n).map(|i| (if i == 0 { s.below(6) } else { s.below(9) } as u8, s.usize(12))).collect();
            Compared { nodes, change: s.below(6) as u8, at: s.usize(n) }
        },
        check_compared,
    );
    c.sub("documents", "trees of generated documents: every node by its id, the tree as text and as JSON", 2500, 150_000, |s| emit(&doc(s)).source, |t: &String| check_queries(t));
    c.sub("any-text", "trees of arbitrary texts, too", 2500, 150_000, soup, |t: &String| check_queries(t));
    c.sub(
        "built",
        "trees built by adding nodes with any places, also unordered ones",
        3000,
        200_000,
        |s| {
            let n = s.range(1, 12);
            let mut nodes = vec![];
            for i in 0..n {
                let k = if i == 0 { s.below(6) } else { s.below(9) } as u8;
                let mut p = || (s.usize(4), s.usize(6));
                let (a, b) = (p(), p());
                nodes.push((k, s.usize(6), (a.min(b), a.max(b))));
            }
            Built { nodes }
        },
        check_built,
    );
}
