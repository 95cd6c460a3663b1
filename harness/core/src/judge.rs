//! What the front end must make of any text, by the reference reading of it.
use crate::doc::Kind;
use crate::node::{self, diff, front, tokenize, Front, Node, Pos, Span};
use crate::reference::{lex, tree, Lex, L, R};
use std::collections::{BTreeSet, HashSet};
use unicode_segmentation::UnicodeSegmentation;

/// The byte ranges of the tokens: every token must be the next piece of the source.
pub fn align(text: &str) -> Result<Vec<(node::Tok, usize, usize)>, String> {
    let toks: Vec<node::Tok> = tokenize(text)?.iter().map(node::tok).collect();
    let mut at = 0;
    let mut out = vec![];
    let n = toks.len();
    for (i, t) in toks.into_iter().enumerate() {
        let rest = &text[at..];
        let piece: String = match t.kind {
            "Text" | "Module" | "Ident" => {
                let v = t.value.clone().unwrap_or_default();
                if v.is_empty() {
                    return Err(format!("token {i} ({}) is empty", t.kind));
                }
                v
            }
            "Newline" => if rest.starts_with("\r\n") { "\r\n" } else { "\n" }.into(),
            "Whitespace" => " ".into(),
            "Dot" => ".".into(),
            "Comma" => ",".into(),
            "BackSlash" => "\\".into(),
            "AngleBracketOpen" => "<".into(),
            "AngleBracketClose" => ">".into(),
            "CurlyBracketOpen" => "{".into(),
            "CurlyBracketClose" => "}".into(),
            "SquareBracketOpen" => "[".into(),
            "SquareBracketClose" => "]".into(),
            "EOF" if i + 1 == n => String::new(),
            k => return Err(format!("token {i} of {n} is {k}")),
        };
        if !rest.starts_with(&piece) {
            return Err(format!("token {i} ({} {:?}) is not the next piece of the source, which is {:?}", t.kind, piece, rest.chars().take(20).collect::<String>()));
        }
        out.push((t, at, at + piece.len()));
        at += piece.len();
    }
    if at != text.len() {
        return Err(format!("the tokens cover {at} of {} bytes of the source", text.len()));
    }
    match out.last() {
        Some((t, _, _)) if t.kind == "EOF" => Ok(out),
        _ => Err("the last token is not EOF".into()),
    }
}

/// (line, column) of every grapheme boundary, by byte offset.
pub fn positions(text: &str) -> std::collections::HashMap<usize, Pos> {
    let mut m = std::collections::HashMap::new();
    let (mut l, mut c) = (0, 0);
    for (o, g) in text.grapheme_indices(true) {
        m.insert(o, (l, c));
        if g == "\n" || g == "\r\n" {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
    }
    m.insert(text.len(), (l, c));
    m
}

pub fn check_positions(text: &str) -> Result<(), String> {
    let m = positions(text);
    for (i, (t, a, b)) in align(text)?.iter().enumerate() {
        let Some(start) = m.get(a).copied() else {
            return Err(format!("token {i} ({}) starts inside a character of the source", t.kind));
        };
        let end = if t.kind == "Newline" {
            (start.0, start.1 + 1)
        } else {
            match m.get(b) {
                Some(e) => *e,
                None => return Err(format!("token {i} ({}) ends inside a character of the source", t.kind)),
            }
        };
        if t.span != (start, end) {
            return Err(format!("token {i} ({} {:?}) spans {:?} but stands at {:?}", t.kind, t.value, t.span, (start, end)));
        }
    }
    Ok(())
}

pub fn lex_expected(t: &str) -> String {
    let mut s = String::new();
    for x in lex(t) {
        match x.l.token_kind() {
            Some(k) => s.push_str(&format!("{k}\n")),
            None => s.push_str(&format!("word {:?}\n", x.text)),
        }
    }
    s.push_str("EOF\n");
    s
}

pub fn lex_actual(toks: &[node::Tok]) -> String {
    toks.iter()
        .map(|t| match t.kind {
            "Text" | "Module" | "Ident" => format!("word {:?}\n", t.value.clone().unwrap_or_default()),
            k => format!("{k}\n"),
        })
        .collect()
}

/// The number of command heads seen.
pub fn check_lexical(t: &str) -> Result<usize, String> {
    let toks: Vec<node::Tok> = tokenize(t)?.iter().map(node::tok).collect();
    let (x, y) = (lex_expected(t), lex_actual(&toks));
    if x != y {
        return Err(diff(&x, &y));
    }
    // In a bracket that starts with a word, a dot and a word ended by a blank or a closing
    // bracket, those two words are names and its other words are text; outside brackets every
    // word is text. Where a bracket is closed by one of another kind, the rules say nothing
    // about what follows it in the same bracket.
    fn names(lx: &[Lex], toks: &[node::Tok], items: &[R], open: Option<usize>, crossed: &[usize], seen: &mut usize) -> Result<(), String> {
        let top = open.is_none();
        let clear = |i: usize| !crossed.iter().any(|c| open.is_none_or(|o| o < *c) && *c < i);
        let word = |k: usize| match items.get(k) {
            Some(R::Leaf(i)) if lx[*i].l == L::Word => Some(*i),
            _ => None,
        };
        let mut skip = 0;
        let mut decided = top;
        if !top {
            if let (Some(m), Some(R::Leaf(d)), Some(n)) = (word(0), items.get(1), word(2)) {
                if lx[*d].l == L::Dot && matches!(lx.get(n + 1).map(|x| x.l), Some(L::Space | L::Newline | L::Close(_))) {
                    *seen += 1;
                    decided = true;
                    skip = 3;
                    for (i, k) in [(m, "Module"), (n, "Ident")] {
                        if toks[i].kind != k {
                            return Err(format!("token {i} {:?} is {} in the place of a {k}", toks[i].value, toks[i].kind));
                        }
                    }
                }
            }
        }
        for (k, r) in items.iter().enumerate() {
            match r {
                R::Leaf(i) if decided && k >= skip && clear(*i) && lx[*i].l == L::Word && toks[*i].kind != "Text" => {
                    return Err(format!("token {i} {:?} is {} in the place of text", toks[*i].value, toks[*i].kind));
                }
                R::Bracket { items, open, .. } => names(lx, toks, items, Some(*open), crossed, seen)?,
                _ => {}
            }
        }
        Ok(())
    }
    let lx = lex(t);
    let mut seen = 0;
    names(&lx, &toks, &tree(&lx), None, &crossed(&lx), &mut seen)?;
    Ok(seen)
}

/// Closing brackets that find a bracket of another kind open last.
pub fn crossed(lx: &[Lex]) -> Vec<usize> {
    let mut open = vec![];
    let mut at = vec![];
    for (i, x) in lx.iter().enumerate() {
        match x.l {
            L::Open(k) => open.push(k),
            L::Close(k) => {
                if open.last().is_some_and(|o| *o != k) {
                    at.push(i);
                    while open.last().is_some_and(|o| *o != k) {
                        open.pop();
                    }
                }
                open.pop();
            }
            _ => {}
        }
    }
    at
}

/// The tree the reference pairing gives, as a shape.
pub fn ref_shape(t: &str) -> String {
    let lx = lex(t);
    let top = tree(&lx);
    let mut out = String::from("Document\n");
    fn leaf(lx: &[Lex], i: usize, d: usize, out: &mut String) {
        let k = lx[i].l.token_kind();
        match k {
            Some(k) => out.push_str(&format!("{:w$}{k}\n", "", w = d)),
            None => out.push_str(&format!("{:w$}word {:?}\n", "", lx[i].text, w = d)),
        }
    }
    fn one(lx: &[Lex], r: &R, d: usize, out: &mut String) {
        match r {
            R::Leaf(i) => leaf(lx, *i, d, out),
            R::Esc(_, e) => {
                out.push_str(&format!("{:w$}BackSlash\n", "", w = d));
                if let Some(e) = e {
                    out.push_str(&format!("{:w$}word {:?}\n", "", lx[*e].text, w = d + 1));
                }
            }
            R::Bracket { kind, open, items, close } => {
                out.push_str(&format!("{:w$}{}\n", "", kind.name(), w = d));
                leaf(lx, *open, d + 1, out);
                run(lx, items, d + 1, out);
                if let Some(c) = close {
                    leaf(lx, *c, d + 1, out);
                }
            }
        }
    }
    fn run(lx: &[Lex], items: &[R], d: usize, out: &mut String) {
        let mut in_expr = false;
        for r in items {
            let breaks = matches!(r, R::Leaf(i) if matches!(lx[*i].l, L::Newline | L::Close(_)));
            if breaks {
                in_expr = false;
                one(lx, r, d, out);
            } else {
                if !in_expr {
                    out.push_str(&format!("{:w$}Expr\n", "", w = d));
                    in_expr = true;
                }
                one(lx, r, d + 1, out);
            }
        }
    }
    // Statements: maximal runs without two newlines in a row, and without newlines at either end.
    let is_nl = |r: &R| matches!(r, R::Leaf(i) if lx[*i].l == L::Newline);
    let mut i = 0;
    while i < top.len() {
        if is_nl(&top[i]) {
            one(&lx, &top[i], 1, &mut out);
            i += 1;
            continue;
        }
        let mut j = i;
        while j < top.len() && !(is_nl(&top[j]) && top.get(j + 1).is_none_or(is_nl)) {
            j += 1;
        }
        out.push_str(" Stmt\n");
        run(&lx, &top[i..j], 2, &mut out);
        i = j;
    }
    out.push_str(" EOF\n");
    out
}

pub fn actual_shape(n: &Node, d: usize, out: &mut String) {
    match n.kind {
        "Text" | "Module" | "Ident" => out.push_str(&format!("{:w$}word {:?}\n", "", n.value.clone().unwrap_or_default(), w = d)),
        k => out.push_str(&format!("{:w$}{k}\n", "", w = d)),
    }
    for c in &n.children {
        actual_shape(c, d + 1, out);
    }
}

pub type E = (String, Span);

/// The diagnostics due for a text. NotClosed is located by its opening bracket only (its span's
/// end is where the omission was noticed). Commas and dots of commands without a proper head are
/// not decided: they are returned as the second component.
pub fn expected_errors(t: &str) -> (BTreeSet<E>, HashSet<Pos>) {
    let lx = lex(t);
    let top = tree(&lx);
    let mut out = BTreeSet::new();
    let mut open = HashSet::new();
    let eof = {
        let m = positions(t);
        m[&t.len()]
    };
    let toks: Vec<node::Tok> = tokenize(t).map(|v| v.iter().map(node::tok).collect()).unwrap_or_default();
    let nm = |k: Kind| k.name().to_string();
    fn span_of(lx: &[Lex], r: &R, eof: Pos) -> (Pos, Option<Pos>) {
        match r {
            R::Leaf(i) => (lx[*i].span.0, Some(lx[*i].span.1)),
            R::Esc(i, None) => (lx[*i].span.0, Some(lx[*i].span.1)),
            R::Esc(i, Some(j)) => (lx[*i].span.0, Some(lx[*j].span.1)),
            R::Bracket { open, close: Some(c), .. } => (lx[*open].span.0, Some(lx[*c].span.1)),
            R::Bracket { open, .. } => {
                let _ = eof;
                (lx[*open].span.0, None)
            }
        }
    }
    fn go(
        lx: &[Lex], toks: &[node::Tok], items: &[R], top: bool, eof: Pos,
        out: &mut BTreeSet<E>, ign: &mut HashSet<Pos>, nm: &dyn Fn(Kind) -> String,
    ) {
        for r in items {
            match r {
                R::Leaf(i) => {
                    if let (true, L::Close(k)) = (top, lx[*i].l) {
                        out.insert((format!("{} bracket not opened", nm(k)), lx[*i].span));
                    }
                }
                R::Esc(i, None) => {
                    out.insert(("Backslash must be followed by dot, comma, backslash, or bracket".into(), lx[*i].span));
                }
                R::Esc(..) => {}
                R::Bracket { kind, open, items, close } => {
                    go(lx, toks, items, false, eof, out, ign, nm);
                    if close.is_none() {
                        let p = lx[*open].span.0;
                        out.insert((format!("{} bracket not closed", nm(*kind)), (p, p)));
                    }
                    // the parts after the opening bracket, with the closing bracket
                    let mut parts: Vec<R> = items.clone();
                    if let Some(c) = close {
                        parts.push(R::Leaf(*c));
                    }
                    let is_name = |r: &R, k: &str| match r {
                        R::Leaf(i) => toks.get(*i).is_some_and(|t| t.kind == k),
                        R::Bracket { kind: Kind::Angle, .. } => true,
                        _ => false,
                    };
                    let blank = |r: &R| matches!(r, R::Leaf(i) if matches!(lx[*i].l, L::Space | L::Newline));
                    let is = |r: &R, l: L| matches!(r, R::Leaf(i) if lx[*i].l == l);
                    let mut ok = true;
                    let mut need = |i: usize, good: bool, m: &str| {
                        if let Some(r) = parts.get(i) {
                            if !good {
                                ok = false;
                                let (a, b) = span_of(lx, r, eof);
                                out.insert((m.into(), (a, b.unwrap_or(a))));
                            }
                        } else {
                            ok = false;
                        }
                    };
                    need(0, parts.first().is_some_and(|r| is_name(r, "Module")), "Need module");
                    need(1, parts.get(1).is_some_and(|r| is(r, L::Dot)), "Need dot after module");
                    need(2, parts.get(2).is_some_and(|r| is_name(r, "Ident")), "Need identifier after module");
                    if !ok {
                        // What stands in the place of the head is diagnosed as that.
                        for r in parts.iter().filter(|r| !blank(r)).take(3) {
                            if let R::Leaf(i) = r {
                                if matches!(lx[*i].l, L::Dot | L::Comma) {
                                    ign.insert(lx[*i].span.0);
                                }
                            }
                        }
                        for r in parts.iter().skip(2) {
                            if let R::Leaf(i) = r {
                                if lx[*i].l == L::Dot {
                                    ign.remove(&lx[*i].span.0);
                                    out.insert(("Unexpected dot".into(), lx[*i].span));
                                }
                            }
                        }
                    }
                    // arguments
                    let mut empty = true;
                    let mut last_comma: Option<usize> = None;
                    for r in parts.iter().filter(|r| !blank(r)).skip(3) {
                        match r {
                            R::Leaf(i) => match lx[*i].l {
                                L::Space | L::Newline => {}
                                L::Comma => {
                                    if empty && !ok && last_comma.is_none() {
                                        // It may separate what stands for the head from the rest.
                                        ign.insert(lx[*i].span.0);
                                    } else if empty {
                                        out.insert(("Unexpected comma".into(), lx[*i].span));
                                    }
                                    last_comma = Some(*i);
                                    empty = true;
                                }
                                L::Dot => {
                                    if ok {
                                        out.insert(("Unexpected dot".into(), lx[*i].span));
                                    }
                                }
                                L::Close(_) => {
                                    if let (true, Some(c)) = (empty, last_comma) {
                                        ign.remove(&lx[c].span.0);
                                        out.insert(("Unexpected comma".into(), lx[c].span));
                                    }
                                }
                                _ => empty = false,
                            },
                            _ => empty = false,
                        }
                    }
                }
            }
        }
    }
    go(&lx, &toks, &top, true, eof, &mut out, &mut open, &nm);
    (out, open)
}

pub fn check_errors(t: &str) -> Result<BTreeSet<E>, String> {
    errors_are_right(t, &front(t)?)
}

fn errors_are_right(t: &str, f: &Front) -> Result<BTreeSet<E>, String> {
    let (want, ignore) = expected_errors(t);
    let end = positions(t)[&t.len()];
    let comma_dot = |e: &E| e.0 == "Unexpected comma" || e.0 == "Unexpected dot";
    let mut got = BTreeSet::new();
    let lx = lex(t);
    // `Need …` at an unclosed bracket: compare the start only
    let mut unclosed: HashSet<Pos> = HashSet::new();
    fn walk(lx: &[Lex], items: &[R], u: &mut HashSet<Pos>) {
        for r in items {
            if let R::Bracket { open, items, close, .. } = r {
                if close.is_none() {
                    u.insert(lx[*open].span.0);
                }
                walk(lx, items, u);
            }
        }
    }
    walk(&lx, &tree(&lx), &mut unclosed);
    for e in &f.errors {
        let (a, b) = e.span;
        let newline_end = |p: Pos| p.1 > 0 && lx.iter().any(|x| x.l == L::Newline && x.span.1 == p);
        if a > b || (b > end && !newline_end(b)) {
            return Err(format!("{e:?} is located outside the document, which ends at {end:?}"));
        }
        // An escape in the place of a name may be located at its backslash or at its character.
        let esc = lx.windows(2).find(|w| w[0].l == L::Backslash && matches!(w[1].l, L::Escaped(_)) && w[1].span == e.span);
        let (a, b) = match esc {
            Some(w) if e.message.starts_with("Need") => (w[0].span.0, b),
            _ => (a, b),
        };
        let sp = if e.message.ends_with("not closed") || unclosed.contains(&a) { (a, a) } else { (a, b) };
        if !got.insert((e.message.clone(), sp)) {
            return Err(format!("{e:?} is reported twice\nsource: {t:?}"));
        }
    }
    let keep = |s: &BTreeSet<E>| -> BTreeSet<E> { s.iter().filter(|e| !(comma_dot(e) && ignore.contains(&e.1 .0))).cloned().collect() };
    let (w, g) = (keep(&want), keep(&got));
    if w != g {
        let missing: Vec<_> = w.difference(&g).collect();
        let extra: Vec<_> = g.difference(&w).collect();
        return Err(format!("not diagnosed: {missing:?}; wrongly diagnosed: {extra:?}\nsource: {t:?}"));
    }
    Ok(want)
}

/// The tree that a text without errors denotes.
pub fn ref_ast(t: &str) -> Node {
    let lx = lex(t);
    let top = tree(&lx);
    let mk = |kind: &'static str, value: Option<&str>, span: Span, children: Vec<Node>| Node { kind, value: value.map(str::to_string), span, id: String::new(), children };
    fn over(children: &[Node]) -> Span {
        (children[0].span.0, children[children.len() - 1].span.1)
    }
    fn one(lx: &[Lex], r: &R, word: &'static str) -> Option<Node> {
        let leaf = |kind, i: usize| Some(Node { kind, value: Some(lx[i].text.clone()), span: lx[i].span, id: String::new(), children: vec![] });
        match r {
            R::Leaf(i) if lx[*i].l == L::Newline => None,
            R::Leaf(i) => leaf(word, *i),
            R::Esc(i, None) => leaf("Invalid", *i),
            R::Esc(_, Some(i)) => leaf("Text", *i),
            R::Bracket { kind, open, items, close } => {
                let mut children = vec![];
                children.extend(items.first().and_then(|r| one(lx, r, "Module")));
                children.extend(items.get(2).and_then(|r| one(lx, r, "Ident")));
                let is = |r: &R, l: &[L]| matches!(r, R::Leaf(i) if l.contains(&lx[*i].l));
                for arg in items.get(3..).unwrap_or_default().split(|r| is(r, &[L::Comma])) {
                    let blank = |r: &&R| is(r, &[L::Space, L::Newline]);
                    let from = arg.iter().take_while(blank).count();
                    let to = arg.len() - arg.iter().rev().take_while(blank).count();
                    let parts: Vec<Node> = arg.get(from..to).unwrap_or_default().iter().filter_map(|r| one(lx, r, "Text")).collect();
                    if !parts.is_empty() {
                        children.push(Node { kind: "Expr", value: None, span: over(&parts), id: String::new(), children: parts });
                    }
                }
                let end = close.map_or(lx[*open].span.1, |c| lx[c].span.1);
                Some(Node { kind: kind.name(), value: None, span: (lx[*open].span.0, end), id: String::new(), children })
            }
        }
    }
    let is_nl = |r: &R| matches!(r, R::Leaf(i) if lx[*i].l == L::Newline);
    let mut stmts: Vec<Node> = vec![];
    let mut exprs: Vec<Node> = vec![];
    let mut parts: Vec<Node> = vec![];
    // where the line starts, which may be at a backslash
    let mut start = (0, 0);
    let mut newlines = 0;
    let end_expr = |parts: &mut Vec<Node>, exprs: &mut Vec<Node>, start: Pos| {
        if !parts.is_empty() {
            exprs.push(mk("Expr", None, (start, over(parts).1), std::mem::take(parts)));
        }
    };
    for r in &top {
        if is_nl(r) {
            end_expr(&mut parts, &mut exprs, start);
            newlines += 1;
            continue;
        }
        if newlines > 1 && !exprs.is_empty() {
            stmts.push(mk("Stmt", None, over(&exprs), std::mem::take(&mut exprs)));
        }
        newlines = 0;
        if parts.is_empty() {
            let (R::Leaf(i) | R::Esc(i, _) | R::Bracket { open: i, .. }) = r;
            start = lx[*i].span.0;
        }
        parts.extend(one(&lx, r, "Text"));
    }
    end_expr(&mut parts, &mut exprs, start);
    if !exprs.is_empty() {
        stmts.push(mk("Stmt", None, over(&exprs), exprs));
    }
    let end = positions(t)[&t.len()];
    mk("Document", None, ((0, 0), end), stmts)
}

/// The tree of a text without errors is the one that the text denotes.
pub fn tree_is_right(t: &str, f: &Front) -> Result<(), String> {
    let (want, got) = (ref_ast(t).shape_spans(), node::ast(&f.ast).shape_spans());
    if want != got {
        return Err(format!("{}\nsource: {t:?}", diff(&want, &got)));
    }
    Ok(())
}

/// What the front end makes of a text, if it is right.
pub fn judged(t: &str) -> Result<Front, String> {
    check_positions(t)?;
    check_lexical(t)?;
    let f = front(t)?;
    let (want, mut got) = (ref_shape(t), String::new());
    actual_shape(&node::cst(&f.cst), 0, &mut got);
    if want != got {
        return Err(format!("{}\nsource: {t:?}", diff(&want, &got)));
    }
    errors_are_right(t, &f)?;
    if f.errors.is_empty() {
        tree_is_right(t, &f)?;
    }
    Ok(f)
}
