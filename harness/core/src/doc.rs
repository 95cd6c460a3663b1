//! The document model: a well-formed Brack document as the user means it, its source text, and the
//! tokens, concrete tree and abstract tree it must produce.
use crate::node::{Node, Pos, Span, Tok};
use crate::src_choice::Src;
use crate::text::{gen_many, gen_name, gen_top_text, gen_word, graphemes, SPECIALS};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Angle,
    Curly,
    Square,
}

impl Kind {
    pub const ALL: [Kind; 3] = [Kind::Square, Kind::Curly, Kind::Angle];
    pub fn open(self) -> &'static str {
        match self {
            Kind::Angle => "<",
            Kind::Curly => "{",
            Kind::Square => "[",
        }
    }
    pub fn close(self) -> &'static str {
        match self {
            Kind::Angle => ">",
            Kind::Curly => "}",
            Kind::Square => "]",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::Angle => "Angle",
            Kind::Curly => "Curly",
            Kind::Square => "Square",
        }
    }
    pub fn open_tok(self) -> &'static str {
        match self {
            Kind::Angle => "AngleBracketOpen",
            Kind::Curly => "CurlyBracketOpen",
            Kind::Square => "SquareBracketOpen",
        }
    }
    pub fn close_tok(self) -> &'static str {
        match self {
            Kind::Angle => "AngleBracketClose",
            Kind::Curly => "CurlyBracketClose",
            Kind::Square => "SquareBracketClose",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Item {
    Text(String),
    Esc(char),
    Sp,
    Nl(bool),
    Cmd(Cmd),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Arg {
    pub lead: Vec<Item>,
    pub items: Vec<Item>,
    pub trail: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Head {
    Name(String),
    Macro(Box<Cmd>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cmd {
    pub kind: Kind,
    pub module: Head,
    pub ident: Head,
    pub args: Vec<Arg>,
    /// Blanks before the closing bracket of a command without arguments.
    pub tail: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Para {
    pub lines: Vec<Vec<Item>>,
    /// The newline after each line but the last.
    pub crlf: Vec<bool>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Doc {
    pub lead: Vec<bool>,
    pub paras: Vec<Para>,
    /// The newlines (at least two) after each paragraph but the last.
    pub seps: Vec<Vec<bool>>,
    pub tail: Vec<bool>,
}

/// A command that may be used: kind, module, name, and its least and greatest number of arguments.
#[derive(Clone, Debug)]
pub struct Entry {
    pub kind: Kind,
    pub module: String,
    pub ident: String,
    pub min: usize,
    pub max: usize,
}

#[derive(Clone)]
pub struct Opts {
    pub depth: usize,
    pub paras: usize,
    pub macros: bool,
    pub heads: bool,
    /// If set, only these commands are used.
    pub table: Option<std::sync::Arc<Vec<Entry>>>,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            depth: 4,
            paras: 4,
            macros: true,
            heads: true,
            table: None,
        }
    }
}

fn gen_nl(s: &mut Src) -> bool {
    s.chance(1, 4)
}

fn gen_blanks(s: &mut Src, min: usize) -> Vec<Item> {
    let n = match s.below(6) {
        0..=3 => min,
        4 => min + 1,
        _ => min + s.usize(4),
    };
    (0..n)
        .map(|_| {
            if s.chance(1, 4) {
                Item::Nl(gen_nl(s))
            } else {
                Item::Sp
            }
        })
        .collect()
}

fn push_item(v: &mut Vec<Item>, i: Item) {
    if let (Some(Item::Text(a)), Item::Text(b)) = (v.last_mut(), &i) {
        a.push_str(b);
        return;
    }
    v.push(i);
}

fn gen_solid(s: &mut Src, o: &Opts, depth: usize) -> Item {
    let w = if depth > 0 && o.table.as_ref().is_none_or(|t| !t.is_empty()) { 4 } else { 0 };
    match s.weighted(&[6, 2, w]) {
        0 => Item::Text(gen_word(s)),
        1 => Item::Esc(*s.pick(SPECIALS)),
        _ => Item::Cmd(gen_cmd(s, o, depth)),
    }
}

fn gen_arg(s: &mut Src, o: &Opts, depth: usize, first: bool) -> Arg {
    let lead = gen_blanks(s, first as usize);
    let mut items = vec![];
    let n = s.range(1, 4);
    for i in 0..n {
        if i > 0 {
            match s.below(6) {
                0 | 1 => items.push(Item::Sp),
                2 => {
                    for b in gen_blanks(s, 1) {
                        items.push(b);
                    }
                }
                _ => {}
            }
        }
        let it = gen_solid(s, o, depth);
        push_item(&mut items, it);
    }
    let trail = if s.chance(1, 3) { gen_blanks(s, 1) } else { vec![] };
    Arg { lead, items, trail }
}

pub fn gen_cmd(s: &mut Src, o: &Opts, depth: usize) -> Cmd {
    if let Some(t) = &o.table {
        let e = t[s.usize(t.len())].clone();
        let max = e.max.min(e.min + 3);
        let n = s.range(e.min, max);
        return gen_cmd_with(s, o, depth.saturating_sub(1), e.kind, Head::Name(e.module), Head::Name(e.ident), n);
    }
    let kind = loop {
        let k = *s.pick(&Kind::ALL);
        if k != Kind::Angle || o.macros {
            break k;
        }
    };
    gen_cmd_of(s, o, depth, kind)
}

fn gen_head(s: &mut Src, o: &Opts, depth: usize) -> Head {
    if o.heads && depth > 0 && s.chance(1, 12) {
        Head::Macro(Box::new(gen_cmd_of(s, o, depth - 1, Kind::Angle)))
    } else {
        Head::Name(gen_name(s))
    }
}

pub fn gen_cmd_of(s: &mut Src, o: &Opts, depth: usize, kind: Kind) -> Cmd {
    let depth = depth.saturating_sub(1);
    let module = gen_head(s, o, depth);
    let ident = gen_head(s, o, depth);
    let n = match s.below(6) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        _ => s.range(1, 4),
    };
    gen_cmd_with(s, o, depth, kind, module, ident, n)
}

/// A command with `n` generated arguments, which hold commands if `depth` > 0.
pub fn gen_cmd_with(s: &mut Src, o: &Opts, depth: usize, kind: Kind, module: Head, ident: Head, n: usize) -> Cmd {
    // many arguments are not nested further
    let depth = if n > 4 { 0 } else { depth };
    let args: Vec<Arg> = (0..n).map(|i| gen_arg(s, o, depth, i == 0)).collect();
    let tail = if n == 0 && s.chance(1, 3) {
        gen_blanks(s, 1)
    } else {
        vec![]
    };
    Cmd {
        kind,
        module,
        ident,
        args,
        tail,
    }
}

pub fn gen_line(s: &mut Src, o: &Opts) -> Vec<Item> {
    let mut items = vec![];
    for _ in 0..s.range(1, 4) {
        let w = if o.depth > 0 && o.table.as_ref().is_none_or(|t| !t.is_empty()) { 4 } else { 0 };
        let it = match s.weighted(&[5, 1, w]) {
            0 => Item::Text(gen_top_text(s)),
            1 => Item::Esc(*s.pick(SPECIALS)),
            _ => Item::Cmd(gen_cmd(s, o, o.depth)),
        };
        push_item(&mut items, it);
    }
    items
}

pub fn gen_para(s: &mut Src, o: &Opts) -> Para {
    let n = 1 + s.len(3);
    let lines: Vec<Vec<Item>> = (0..n).map(|_| gen_line(s, o)).collect();
    let crlf = (1..n).map(|_| gen_nl(s)).collect();
    Para { lines, crlf }
}

pub fn gen_doc(s: &mut Src, o: &Opts) -> Doc {
    let nls = |s: &mut Src, min: usize, max: usize| -> Vec<bool> {
        let n = s.range(min, max);
        (0..n).map(|_| gen_nl(s)).collect()
    };
    let n = s.len(o.paras);
    let paras: Vec<Para> = (0..n).map(|_| gen_para(s, o)).collect();
    let seps = (1..n).map(|_| nls(s, 2, 4)).collect();
    let lead = if s.chance(1, 5) { nls(s, 1, 3) } else { vec![] };
    let tail = if s.chance(1, 2) { nls(s, 1, 3) } else { vec![] };
    let mut d = Doc {
        lead,
        paras,
        seps,
        tail,
    };
    if s.chance(1, 8) {
        inflate(s, o, &mut d, 700);
    }
    d
}

/// A small document of which one thing is there thousands of times.
pub fn gen_crowded_doc(s: &mut Src) -> Doc {
    let o = Opts { paras: 2, depth: 2, ..Opts::default() };
    let mut d = gen_doc(s, &o);
    inflate(s, &o, &mut d, 4000);
    d
}

/// Makes one thing of the document long, deep or many.
fn inflate(s: &mut Src, o: &Opts, d: &mut Doc, max: usize) {
    fn size(items: &[Item]) -> usize {
        items
            .iter()
            .map(|i| match i {
                Item::Text(t) => t.chars().count(),
                Item::Cmd(c) => {
                    let head = |h: &Head| match h {
                        Head::Name(n) => n.chars().count(),
                        Head::Macro(c) => size(&[Item::Cmd((**c).clone())]),
                    };
                    4 + head(&c.module) + head(&c.ident) + c.args.iter().map(|a| 1 + a.lead.len() + size(&a.items) + a.trail.len()).sum::<usize>()
                }
                _ => 2,
            })
            .sum()
    }
    if s.chance(1, 10) {
        let n = gen_many(s, 300);
        let nl = gen_nl(s);
        match s.below(3) {
            0 => d.lead = vec![nl; n],
            1 => d.tail = vec![nl; n],
            _ => {
                if let Some(x) = d.seps.first_mut() {
                    *x = vec![nl; n.max(2)];
                }
            }
        }
        return;
    }
    if d.paras.is_empty() {
        return;
    }
    let p = s.usize(d.paras.len());
    if s.chance(1, 8) {
        let para = d.paras[p].clone();
        let n = gen_many(s, max / para.lines.iter().map(|l| size(l) + 1).sum::<usize>().max(1));
        for _ in 1..n {
            d.paras.push(para.clone());
            d.seps.push(vec![gen_nl(s), gen_nl(s)]);
        }
        return;
    }
    let para = &mut d.paras[p];
    let l = s.usize(para.lines.len());
    if s.chance(1, 7) {
        let line = para.lines[l].clone();
        let n = gen_many(s, max / size(&line).max(1));
        for _ in 1..n {
            para.lines.push(line.clone());
            para.crlf.push(gen_nl(s));
        }
        return;
    }
    let line = &mut para.lines[l];
    if s.chance(1, 6) {
        let n = gen_many(s, max / size(line).max(1));
        let old = line.clone();
        for _ in 1..n {
            for i in &old {
                push_item(line, i.clone());
            }
        }
        return;
    }
    // within the commands
    let mut at: Vec<&mut Item> = line.iter_mut().collect();
    let k = s.usize(at.len());
    let mut item = at.swap_remove(k);
    loop {
        match item {
            Item::Text(t) => {
                let n = gen_many(s, max / t.chars().count().max(1));
                *t = t.repeat(n);
                return;
            }
            Item::Cmd(c) => {
                let args = c.args.len();
                // only as many arguments as the command takes
                let many = o.table.as_ref().is_none_or(|t| {
                    t.iter().any(|e| {
                        let name = |h: &Head, n: &str| matches!(h, Head::Name(x) if x == n);
                        e.kind == c.kind && e.max == usize::MAX && name(&c.module, &e.module) && name(&c.ident, &e.ident)
                    })
                });
                match s.below(7) {
                    0 | 1 if many && args > 0 => {
                        let a = c.args[args - 1].clone();
                        let n = gen_many(s, max / (2 + size(&a.items)));
                        c.args.extend(std::iter::repeat_n(a, n));
                        return;
                    }
                    2 if o.table.is_none() => {
                        if let Head::Name(n) = if s.bool() { &mut c.module } else { &mut c.ident } {
                            let k = gen_many(s, 300 / n.chars().count().max(1));
                            *n = n.repeat(k);
                        }
                        return;
                    }
                    3 if args > 0 => {
                        let a = s.usize(args);
                        let blank = if s.bool() { Item::Sp } else { Item::Nl(gen_nl(s)) };
                        let n = gen_many(s, 300);
                        let b = vec![blank; n];
                        let a = &mut c.args[a];
                        match s.below(3) {
                            0 => a.lead.extend(b),
                            1 => a.trail.extend(b),
                            _ => {
                                if a.items.len() > 1 {
                                    a.items.splice(1..1, b);
                                }
                            }
                        }
                        return;
                    }
                    4 if args > 0 && size(&[Item::Cmd(c.clone())]) < 60 => {
                        // the command within itself; the generated plugins quote their arguments,
                        // so that with them each level doubles the output
                        let n = gen_many(s, if o.table.is_some() { 7 } else { 33 }.min(max / 2 / size(&[Item::Cmd(c.clone())])));
                        let one = c.clone();
                        let k = s.usize(args);
                        for _ in 1..n {
                            let mut outer = one.clone();
                            outer.args[k].items = vec![Item::Cmd(c.clone())];
                            *c = outer;
                        }
                        return;
                    }
                    _ => {
                        let mut at: Vec<&mut Item> = c.args.iter_mut().flat_map(|a| &mut a.items).collect();
                        if at.is_empty() {
                            return;
                        }
                        let k = s.usize(at.len());
                        item = at.swap_remove(k);
                    }
                }
            }
            _ => return,
        }
    }
}

/// What a document must produce.
pub struct Expected {
    pub source: String,
    pub tokens: Vec<Tok>,
    pub cst: Node,
    pub ast: Node,
}

struct Emit {
    src: String,
    line: usize,
    col: usize,
    toks: Vec<Tok>,
}

fn node(kind: &'static str, span: Span, children: Vec<Node>) -> Node {
    Node {
        kind,
        value: None,
        span,
        id: String::new(),
        children,
    }
}

fn leaf(kind: &'static str, value: Option<&str>, span: Span) -> Node {
    Node {
        kind,
        value: value.map(|s| s.to_string()),
        span,
        id: String::new(),
        children: vec![],
    }
}

impl Emit {
    fn pos(&self) -> Pos {
        (self.line, self.col)
    }
    fn put(&mut self, kind: &'static str, value: Option<&str>, text: &str) -> Span {
        let a = self.pos();
        self.src.push_str(text);
        self.col += graphemes(text);
        let span = (a, self.pos());
        self.toks.push(Tok {
            kind,
            value: value.map(|s| s.to_string()),
            span,
        });
        span
    }
    fn newline(&mut self, crlf: bool) -> Node {
        let sp = self.put("Newline", None, if crlf { "\r\n" } else { "\n" });
        self.line += 1;
        self.col = 0;
        leaf("Newline", Some("\n"), sp)
    }
    /// Concrete node and abstract nodes of an item.
    fn item(&mut self, i: &Item) -> (Node, Option<Node>) {
        match i {
            Item::Text(t) => {
                let sp = self.put("Text", Some(t), t);
                let n = leaf("Text", Some(t), sp);
                (n.clone(), Some(n))
            }
            Item::Esc(c) => {
                let kind = match c {
                    '\\' => "BackSlash",
                    '<' => "AngleBracketOpen",
                    '>' => "AngleBracketClose",
                    '{' => "CurlyBracketOpen",
                    '}' => "CurlyBracketClose",
                    '[' => "SquareBracketOpen",
                    ']' => "SquareBracketClose",
                    '.' => "Dot",
                    _ => "Comma",
                };
                let a = self.put("BackSlash", None, "\\");
                let t = c.to_string();
                let b = self.put(kind, None, &t);
                let n = leaf("Text", Some(&t), b);
                (node("BackSlash", (a.0, b.1), vec![n.clone()]), Some(n))
            }
            Item::Sp => {
                let sp = self.put("Whitespace", None, " ");
                (leaf("Whitespace", Some(" "), sp), Some(leaf("Text", Some(" "), sp)))
            }
            Item::Nl(crlf) => (self.newline(*crlf), None),
            Item::Cmd(c) => {
                let (a, b) = self.cmd(c);
                (a, Some(b))
            }
        }
    }
    fn head(&mut self, h: &Head, kind: &'static str) -> (Node, Node) {
        match h {
            Head::Name(n) => {
                let sp = self.put(kind, Some(n), n);
                let l = leaf(kind, Some(n), sp);
                (l.clone(), l)
            }
            Head::Macro(c) => self.cmd(c),
        }
    }
    fn cmd(&mut self, c: &Cmd) -> (Node, Node) {
        let open = self.put(c.kind.open_tok(), None, c.kind.open());
        let mut inner: Vec<Node> = vec![];
        let mut ast: Vec<Node> = vec![];
        let (m, ma) = self.head(&c.module, "Module");
        inner.push(m);
        ast.push(ma);
        let dot = self.put("Dot", None, ".");
        inner.push(leaf("Dot", Some("."), dot));
        let (i, ia) = self.head(&c.ident, "Ident");
        inner.push(i);
        ast.push(ia);
        for (k, a) in c.args.iter().enumerate() {
            if k > 0 {
                let sp = self.put("Comma", None, ",");
                inner.push(leaf("Comma", Some(","), sp));
            }
            for b in &a.lead {
                let (n, _) = self.item(b);
                inner.push(n);
            }
            let mut arg: Vec<Node> = vec![];
            for it in &a.items {
                let (n, x) = self.item(it);
                inner.push(n);
                arg.extend(x);
            }
            for b in &a.trail {
                let (n, _) = self.item(b);
                inner.push(n);
            }
            let sp = (arg[0].span.0, arg[arg.len() - 1].span.1);
            ast.push(node("Expr", sp, arg));
        }
        for b in &c.tail {
            let (n, _) = self.item(b);
            inner.push(n);
        }
        let close = self.put(c.kind.close_tok(), None, c.kind.close());
        let sp = (open.0, close.1);
        let mut children = vec![leaf(c.kind.open_tok(), Some(c.kind.open()), open)];
        children.extend(group(inner));
        children.push(leaf(c.kind.close_tok(), Some(c.kind.close()), close));
        (
            node(c.kind.name(), sp, children),
            node(c.kind.name(), sp, ast),
        )
    }
}

/// Groups runs between newlines into expressions.
fn group(nodes: Vec<Node>) -> Vec<Node> {
    let mut out = vec![];
    let mut run: Vec<Node> = vec![];
    let flush = |run: &mut Vec<Node>, out: &mut Vec<Node>| {
        if !run.is_empty() {
            let sp = (run[0].span.0, run[run.len() - 1].span.1);
            out.push(node("Expr", sp, std::mem::take(run)));
        }
    };
    for n in nodes {
        if n.kind == "Newline" {
            flush(&mut run, &mut out);
            out.push(n);
        } else {
            run.push(n);
        }
    }
    flush(&mut run, &mut out);
    out
}

pub fn emit(d: &Doc) -> Expected {
    let mut e = Emit {
        src: String::new(),
        line: 0,
        col: 0,
        toks: vec![],
    };
    let mut cst = vec![];
    let mut ast = vec![];
    for n in &d.lead {
        cst.push(e.newline(*n));
    }
    for (k, p) in d.paras.iter().enumerate() {
        let mut cs = vec![];
        let mut asts = vec![];
        for (j, line) in p.lines.iter().enumerate() {
            let mut lc = vec![];
            let mut la = vec![];
            for it in line {
                let (n, x) = e.item(it);
                lc.push(n);
                la.extend(x);
            }
            let sp = (lc[0].span.0, lc[lc.len() - 1].span.1);
            cs.push(node("Expr", sp, lc));
            asts.push(node("Expr", sp, la));
            if j + 1 < p.lines.len() {
                cs.push(e.newline(p.crlf[j]));
            }
        }
        let sp = (cs[0].span.0, cs[cs.len() - 1].span.1);
        cst.push(node("Stmt", sp, cs));
        ast.push(node("Stmt", sp, asts));
        if k + 1 < d.paras.len() {
            for n in &d.seps[k] {
                cst.push(e.newline(*n));
            }
        }
    }
    for n in &d.tail {
        cst.push(e.newline(*n));
    }
    let eof = e.put("EOF", None, "");
    cst.push(leaf("EOF", None, eof));
    let sp = ((0, 0), eof.1);
    Expected {
        source: e.src,
        tokens: e.toks,
        cst: node("Document", sp, cst),
        ast: node("Document", sp, ast),
    }
}

pub fn count_cmds(d: &Doc) -> (usize, usize) {
    fn items(v: &[Item], depth: usize, n: &mut usize, max: &mut usize) {
        for i in v {
            if let Item::Cmd(c) = i {
                cmd(c, depth + 1, n, max);
            }
        }
    }
    fn cmd(c: &Cmd, depth: usize, n: &mut usize, max: &mut usize) {
        *n += 1;
        *max = (*max).max(depth);
        for h in [&c.module, &c.ident] {
            if let Head::Macro(m) = h {
                cmd(m, depth + 1, n, max);
            }
        }
        for a in &c.args {
            items(&a.items, depth, n, max);
        }
    }
    let (mut n, mut max) = (0, 0);
    for p in &d.paras {
        for l in &p.lines {
            items(l, 0, &mut n, &mut max);
        }
    }
    (n, max)
}
