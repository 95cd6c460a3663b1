//! A uniform view of tokens, CST and AST nodes, and of what the model expects.
use brack_parser::cst::CST;
use brack_tokenizer::tokens::{Location, Token};
use brack_transformer::ast::AST;

pub type Pos = (usize, usize);
pub type Span = (Pos, Pos);

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: &'static str,
    pub value: Option<String>,
    pub span: Span,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: &'static str,
    pub value: Option<String>,
    pub span: Span,
    pub id: String,
    pub children: Vec<Node>,
}

pub fn span(l: &Location) -> Span {
    (
        (l.start.line, l.start.character),
        (l.end.line, l.end.character),
    )
}

pub fn tok(t: &Token) -> Tok {
    let (kind, value) = match t {
        Token::Empty(_) => ("Empty", None),
        Token::Text(s, _) => ("Text", Some(s.clone())),
        Token::Module(s, _) => ("Module", Some(s.clone())),
        Token::Ident(s, _) => ("Ident", Some(s.clone())),
        Token::NewLine(_) => ("Newline", None),
        Token::WhiteSpace(_) => ("Whitespace", None),
        Token::Dot(_) => ("Dot", None),
        Token::BackSlash(_) => ("BackSlash", None),
        Token::AngleBracketOpen(_) => ("AngleBracketOpen", None),
        Token::AngleBracketClose(_) => ("AngleBracketClose", None),
        Token::SquareBracketOpen(_) => ("SquareBracketOpen", None),
        Token::SquareBracketClose(_) => ("SquareBracketClose", None),
        Token::CurlyBracketOpen(_) => ("CurlyBracketOpen", None),
        Token::CurlyBracketClose(_) => ("CurlyBracketClose", None),
        Token::Comma(_) => ("Comma", None),
        Token::EOF(_) => ("EOF", None),
    };
    Tok {
        kind,
        value,
        span: span(&t.get_location()),
    }
}

pub fn cst(c: &CST) -> Node {
    macro_rules! inner {
        ($k:expr, $n:expr) => {
            Node {
                kind: $k,
                value: None,
                span: span(&$n.location),
                id: $n.id.clone(),
                children: $n.children.iter().map(cst).collect(),
            }
        };
    }
    macro_rules! leaf {
        ($k:expr, $n:expr) => {
            Node {
                kind: $k,
                value: $n.value.clone(),
                span: span(&$n.location),
                id: $n.id.clone(),
                children: vec![],
            }
        };
    }
    match c {
        CST::Document(n) => inner!("Document", n),
        CST::Stmt(n) => inner!("Stmt", n),
        CST::Expr(n) => inner!("Expr", n),
        CST::Angle(n) => inner!("Angle", n),
        CST::Curly(n) => inner!("Curly", n),
        CST::Square(n) => inner!("Square", n),
        CST::BackSlash(n) => inner!("BackSlash", n),
        CST::AngleBracketOpen(n) => leaf!("AngleBracketOpen", n),
        CST::AngleBracketClose(n) => leaf!("AngleBracketClose", n),
        CST::SquareBracketOpen(n) => leaf!("SquareBracketOpen", n),
        CST::SquareBracketClose(n) => leaf!("SquareBracketClose", n),
        CST::CurlyBracketOpen(n) => leaf!("CurlyBracketOpen", n),
        CST::CurlyBracketClose(n) => leaf!("CurlyBracketClose", n),
        CST::Module(n) => leaf!("Module", n),
        CST::Ident(n) => leaf!("Ident", n),
        CST::Text(n) => leaf!("Text", n),
        CST::Whitespace(n) => leaf!("Whitespace", n),
        CST::Newline(n) => leaf!("Newline", n),
        CST::Dot(n) => leaf!("Dot", n),
        CST::Comma(n) => leaf!("Comma", n),
        CST::EOF(n) => leaf!("EOF", n),
        CST::Invalid(n) => leaf!("Invalid", n),
    }
}

pub fn ast(c: &AST) -> Node {
    macro_rules! inner {
        ($k:expr, $n:expr) => {
            Node {
                kind: $k,
                value: None,
                span: span(&$n.location),
                id: $n.id.clone(),
                children: $n.children.iter().map(ast).collect(),
            }
        };
    }
    macro_rules! leaf {
        ($k:expr, $n:expr) => {
            Node {
                kind: $k,
                value: $n.value.clone(),
                span: span(&$n.location),
                id: $n.id.clone(),
                children: vec![],
            }
        };
    }
    match c {
        AST::Document(n) => inner!("Document", n),
        AST::Stmt(n) => inner!("Stmt", n),
        AST::Expr(n) => inner!("Expr", n),
        AST::Angle(n) => inner!("Angle", n),
        AST::Curly(n) => inner!("Curly", n),
        AST::Square(n) => inner!("Square", n),
        AST::Ident(n) => leaf!("Ident", n),
        AST::Module(n) => leaf!("Module", n),
        AST::Text(n) => leaf!("Text", n),
        AST::Invalid(n) => leaf!("Invalid", n),
        AST::Ignored(n) => leaf!("Ignored", n),
    }
}

impl Node {
    /// Kinds and values only.
    pub fn shape(&self) -> String {
        let mut s = String::new();
        self.write_shape(&mut s, 0, false);
        s
    }
    pub fn shape_spans(&self) -> String {
        let mut s = String::new();
        self.write_shape(&mut s, 0, true);
        s
    }
    fn write_shape(&self, out: &mut String, d: usize, spans: bool) {
        use std::fmt::Write;
        let _ = write!(out, "{:w$}{}", "", self.kind, w = d);
        if let Some(v) = &self.value {
            let _ = write!(out, " {v:?}");
        }
        if spans {
            let ((a, b), (c, e)) = self.span;
            let _ = write!(out, " @{a}:{b}-{c}:{e}");
        }
        out.push('\n');
        for c in &self.children {
            c.write_shape(out, d + 1, spans);
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for c in &self.children {
            c.walk(f);
        }
    }
}

/// First differing lines of two renderings.
pub fn diff(expected: &str, actual: &str) -> String {
    let (e, a): (Vec<_>, Vec<_>) = (expected.lines().collect(), actual.lines().collect());
    for i in 0..e.len().max(a.len()) {
        if e.get(i) != a.get(i) {
            return format!(
                "first difference at item {i}: expected {:?}, got {:?}",
                e.get(i),
                a.get(i)
            );
        }
    }
    "no difference".into()
}

pub struct Front {
    pub tokens: Vec<Token>,
    pub cst: CST,
    pub ast: AST,
    pub errors: Vec<Err>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Err {
    pub message: String,
    pub span: Span,
}

pub fn tokenize(text: &str) -> Result<Vec<Token>, String> {
    brack_tokenizer::tokenize::tokenize_str(text).map_err(|e| format!("tokenizer error: {e}"))
}

pub fn front(text: &str) -> Result<Front, String> {
    let tokens = tokenize(text)?;
    let cst = brack_parser::parse::parse(&tokens).map_err(|e| format!("parser error: {e}"))?;
    let (ast, errors) = brack_transformer::transform::transform(&cst);
    let errors = errors
        .iter()
        .map(|e| Err {
            message: e.get_message(),
            span: span(&e.get_location()),
        })
        .collect();
    Ok(Front {
        tokens,
        cst,
        ast,
        errors,
    })
}
