//! An independent reading of arbitrary text: where the lexical tokens are, how brackets pair up,
//! and what must be diagnosed. Written from the language rules, as one pass over whole-text
//! grapheme clusters and a stack.
use crate::doc::Kind;
use crate::node::Span;
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum L {
    Open(Kind),
    Close(Kind),
    Dot,
    Comma,
    Space,
    Newline,
    Backslash,
    /// An escaped character, with the token kind it has.
    Escaped(&'static str),
    /// Text or a name.
    Word,
}

#[derive(Clone, Debug)]
pub struct Lex {
    pub l: L,
    pub text: String,
    pub span: Span,
}

fn bracket(g: &str) -> Option<L> {
    Some(match g {
        "<" => L::Open(Kind::Angle),
        ">" => L::Close(Kind::Angle),
        "{" => L::Open(Kind::Curly),
        "}" => L::Close(Kind::Curly),
        "[" => L::Open(Kind::Square),
        "]" => L::Close(Kind::Square),
        _ => return None,
    })
}

fn escaped_kind(g: &str) -> Option<&'static str> {
    Some(match g {
        "\\" => "BackSlash",
        "<" => "AngleBracketOpen",
        ">" => "AngleBracketClose",
        "{" => "CurlyBracketOpen",
        "}" => "CurlyBracketClose",
        "[" => "SquareBracketOpen",
        "]" => "SquareBracketClose",
        "." => "Dot",
        "," => "Comma",
        _ => return None,
    })
}

impl L {
    pub fn token_kind(self) -> Option<&'static str> {
        Some(match self {
            L::Open(k) => k.open_tok(),
            L::Close(k) => k.close_tok(),
            L::Dot => "Dot",
            L::Comma => "Comma",
            L::Space => "Whitespace",
            L::Newline => "Newline",
            L::Backslash => "BackSlash",
            L::Escaped(k) => k,
            L::Word => return None,
        })
    }
}

pub fn lex(text: &str) -> Vec<Lex> {
    let gs: Vec<&str> = text.graphemes(true).collect();
    let mut out: Vec<Lex> = vec![];
    let (mut line, mut col) = (0usize, 0usize);
    let mut nest = [0usize; 3];
    let mut i = 0;
    while i < gs.len() {
        let g = gs[i];
        let here = (line, col);
        let mut push = |l: L, text: &str, col: usize| {
            let span = ((line, col), (line, col + 1));
            if l == L::Word {
                if let Some(p) = out.last_mut() {
                    if p.l == L::Word && p.span.1 == (line, col) {
                        p.text.push_str(text);
                        p.span.1 = span.1;
                        return;
                    }
                }
            }
            out.push(Lex {
                l,
                text: text.into(),
                span,
            });
        };
        let nested = nest.iter().sum::<usize>() > 0;
        if g == "\\" {
            push(L::Backslash, g, col);
            col += 1;
            if let Some(k) = gs.get(i + 1).and_then(|g| escaped_kind(g)) {
                push(L::Escaped(k), gs[i + 1], col);
                col += 1;
                i += 1;
            }
        } else if let Some(b) = bracket(g) {
            match b {
                L::Open(k) => nest[k as usize] += 1,
                L::Close(k) => nest[k as usize] = nest[k as usize].saturating_sub(1),
                _ => {}
            }
            push(b, g, col);
            col += 1;
        } else if g == "\n" || g == "\r\n" {
            push(L::Newline, g, col);
            line = here.0 + 1;
            col = 0;
        } else {
            let l = match g {
                "." if nested => L::Dot,
                "," if nested => L::Comma,
                " " if nested => L::Space,
                _ => L::Word,
            };
            push(l, g, col);
            col += 1;
        }
        i += 1;
    }
    out
}

#[derive(Clone, Debug)]
pub enum R {
    Leaf(usize),
    /// Backslash and the escaped character.
    Esc(usize, Option<usize>),
    Bracket {
        kind: Kind,
        open: usize,
        items: Vec<R>,
        close: Option<usize>,
    },
}

/// Pairs brackets: a closing bracket ends the innermost open bracket of its kind, leaving the ones
/// inside it unclosed; with no open bracket of its kind it is stray and leaves all unclosed.
pub fn tree(lx: &[Lex]) -> Vec<R> {
    struct Open {
        kind: Kind,
        open: usize,
        items: Vec<R>,
    }
    let mut stack: Vec<Open> = vec![];
    let mut top: Vec<R> = vec![];
    fn add(stack: &mut [Open], top: &mut Vec<R>, r: R) {
        match stack.last_mut() {
            Some(o) => o.items.push(r),
            None => top.push(r),
        }
    }
    fn pop(stack: &mut Vec<Open>, top: &mut Vec<R>, close: Option<usize>) {
        let o = stack.pop().unwrap();
        let r = R::Bracket {
            kind: o.kind,
            open: o.open,
            items: o.items,
            close,
        };
        add(stack, top, r)
    }
    let mut i = 0;
    while i < lx.len() {
        match lx[i].l {
            L::Backslash => {
                if let Some(L::Escaped(_)) = lx.get(i + 1).map(|x| x.l) {
                    add(&mut stack, &mut top, R::Esc(i, Some(i + 1)));
                    i += 1;
                } else {
                    add(&mut stack, &mut top, R::Esc(i, None));
                }
            }
            L::Open(kind) => stack.push(Open {
                kind,
                open: i,
                items: vec![],
            }),
            L::Close(kind) => {
                while stack.last().is_some_and(|o| o.kind != kind) {
                    pop(&mut stack, &mut top, None);
                }
                if stack.is_empty() {
                    top.push(R::Leaf(i));
                } else {
                    pop(&mut stack, &mut top, Some(i));
                }
            }
            _ => add(&mut stack, &mut top, R::Leaf(i)),
        }
        i += 1;
    }
    while !stack.is_empty() {
        pop(&mut stack, &mut top, None);
    }
    top
}
