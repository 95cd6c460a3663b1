//! Generators of names and texts.
use crate::src_choice::Src;
use unicode_segmentation::UnicodeSegmentation;

pub const SPECIALS: &[char] = &['\\', '<', '>', '{', '}', '[', ']', '.', ','];

/// Pieces that never join a neighbouring piece into one grapheme.
pub const PIECES: &[&str] = &[
    "a", "b", "word", "Lorem", "x1", "7", "-", "_", "*", "#", "!", "?", ":", ";", "/", "(", ")", "\"", "'", "&",
    "$", "%", "`", "~", "+", "=", "|", "^", "@", "é", "日本", "こんにちは", "🐦\u{200d}⬛", "e\u{301}", "👩\u{200d}👩\u{200d}👧", "𝒳",
    "ß", "\u{a0}", "\t", "\u{0}", "ｗ", "한글", "İ", "क्षि", "\u{feff}x", "http://h", "&lt;", "\u{2028}",
    "\u{b}", "\u{c}", "\u{85}", "\u{2029}", "٣", "ﬀ", "K", "ı", "\u{ad}", "\u{200b}", "\u{fffd}", "A", "0x", "\u{10ffff}",
    "\u{3000}", "\u{2003}", "，", "。", "．", "＜", "］", "｛", "＼", "、", "…", "‹",
];

pub fn graphemes(s: &str) -> usize {
    s.graphemes(true).count()
}

/// How often something is repeated: sizes around which code tends to change its ways.
pub const MANY: &[usize] = &[5, 6, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1023, 1024, 1025, 2000, 2048, 2049, 4095, 4096, 4097, 5000];

pub fn gen_many(s: &mut Src, max: usize) -> usize {
    let n = MANY.iter().filter(|n| **n <= max).count().max(1);
    MANY[s.usize(n)].min(max.max(1))
}

pub fn gen_name(s: &mut Src) -> String {
    const NAMES: &[&str] = &[
        "a", "std", "x", "*", "**", "^", "@", "test", "m2", "日本", "é", "a-b", "my_mod", "🦀", "e\u{301}", "h1", "_", "#", "A", "STD", "0", "true", "_x", "x_",
        "a_b_c", "a:b", "x=y", "٣", "ı",
    ];
    match s.below(5) {
        0..=3 => s.pick(NAMES).to_string(),
        _ => {
            let n = s.range(1, 3);
            (0..n).map(|_| *s.pick(NAMES)).collect()
        }
    }
}

/// Text without special characters, spaces or newlines.
pub fn gen_word(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 | 1 => 1,
        2 => 2,
        _ => s.range(1, 4),
    };
    (0..n).map(|_| *s.pick(PIECES)).collect()
}

/// Text outside brackets: may hold spaces, dots and commas.
pub fn gen_top_text(s: &mut Src) -> String {
    let n = s.range(1, 6);
    let mut t = String::new();
    for _ in 0..n {
        match s.below(8) {
            0..=3 => t.push_str(s.pick(PIECES)),
            4 | 5 => t.push(' '),
            6 => t.push('.'),
            _ => t.push(','),
        }
    }
    t
}

/// Any text at all, rich in the characters the language gives a meaning to.
pub fn gen_soup(s: &mut Src, max: usize) -> String {
    let mut t = gen_plain_soup(s, max);
    if s.chance(1, 16) {
        // one piece many times
        let piece = match s.below(4) {
            0 => s.pick(PIECES).to_string(),
            1 => s.pick(SPECIALS).to_string(),
            2 => s.pick(&[" ", "\n", "\r\n", "\n\n", "\\[", "\\\\", "[a.b]", "[a.b x, ", ", x", "[a.b ", "x]"]).to_string(),
            _ => gen_plain_soup(s, 3),
        };
        let n = gen_many(s, 700 / piece.len().max(1));
        // brackets nest only so deep
        let n = if piece.contains(['[', '<', '{']) { n.min(65) } else { n };
        let places: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
        t.insert_str(*s.pick(&places), &piece.repeat(n));
    }
    t
}

pub fn gen_plain_soup(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    let profile = s.below(4);
    let mut t = String::new();
    for _ in 0..n {
        let k = match profile {
            0 => s.weighted(&[6, 6, 2, 2, 1, 1]),
            1 => s.weighted(&[3, 10, 1, 1, 0, 1]),
            2 => s.weighted(&[8, 2, 3, 3, 2, 2]),
            _ => s.weighted(&[4, 4, 2, 2, 3, 4]),
        };
        match k {
            0 => t.push_str(s.pick(PIECES)),
            1 => t.push(*s.pick(SPECIALS)),
            2 => t.push(' '),
            3 => t.push_str(s.pick(&["\n", "\n", "\n\n", "\r\n", "\r\n\r\n", "\n\n\n"])),
            4 => t.push_str(s.pick(&[
                "[a.b x]", "{a.b}", "<a.b y, z>", "[a.b {c.d e} f]", "[<a.b>.c d]", "[a.<b.c> d]", "\\[", "\\\\", "[a.b\n  x,\n  y\n]",
                "[a b]", "[.b]", "[]", "[a.]", "[a.b ,]", "[a.b c.d]",
            ])),
            _ => {
                let c = match s.below(6) {
                    0 => char::from_u32(s.below(0x80) as u32),
                    1 => char::from_u32(s.below(0x300) as u32),
                    2 => char::from_u32(0x300 + s.below(0x70) as u32), // combining
                    3 => Some(*s.pick(&[
                        '\u{200d}', '\r', '\u{0}', '\u{fe0f}', '\u{1f1ef}', '\u{1f1f5}', '\u{600}', '\u{ad}', '\u{85}', '\u{b}', '\u{c}', '\u{200b}',
                        '\u{1f3fb}', '\u{e0020}', '\u{202e}',
                    ])),
                    4 => char::from_u32(s.below(0x3000) as u32),
                    _ => char::from_u32(s.below(0x20000) as u32),
                };
                if let Some(c) = c {
                    t.push(c);
                }
            }
        }
    }
    t
}

/// Few tokens, but lines, words and names of up to 70000 characters.
pub fn gen_long(s: &mut Src) -> String {
    const SIZES: &[usize] = &[300, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10_000, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000];
    let mut t = String::new();
    let mut left = 90_000;
    for _ in 0..s.range(1, 4) {
        let n = (*s.pick(SIZES)).min(left);
        left -= n;
        let unit = *s.pick(&["a", "é", "日", "😀", "e\u{301}"]);
        let long = unit.repeat(n);
        match s.below(6) {
            0 | 1 => t.push_str(&long),
            2 => t.push_str(&s.pick(&[" ", ".", "a b", "x, "]).repeat(n)),
            3 => t.push_str(&format!("[a.b {long}]")),
            4 => t.push_str(&format!("{{{long}.b x}}")),
            _ => t.push_str(&format!("<a.{long}>")),
        }
        t.push_str(*s.pick(&["", "[a.b]", "\n", "\n\n", "{x.y z}", "\\[", "]", "<m.n {o.p q}>", "\r\n[a.b c]"]));
    }
    t
}

/// How many brackets are open at the end, and the least that are from a grapheme on.
fn nesting(t: &str, from: usize) -> (usize, usize) {
    let (mut open, mut least, mut escaped) = ([0usize; 3], usize::MAX, false);
    for (i, g) in t.graphemes(true).enumerate() {
        for (k, pair) in [("[", "]"), ("{", "}"), ("<", ">")].into_iter().enumerate() {
            // an escaped bracket may open, but does not close
            if g == pair.0 {
                open[k] += 1;
            } else if g == pair.1 && !escaped {
                open[k] = open[k].saturating_sub(1);
            }
        }
        escaped = g == "\\" && !escaped;
        if i + 1 > from {
            least = least.min(open.iter().sum());
        }
    }
    (open.iter().sum(), least)
}

/// One thing very many times, in a document or within a command.
pub fn gen_crowd(s: &mut Src) -> String {
    const UNITS: &[&str] = &[
        "x", ".", ",", " ", ". ", ", ", ", x", " .x", "\\", "\\x", "\\.", "\\\\", "\\]", "[", "]", "}", ">", "]>", "[a.b]", "[a.b c, d]", "{a.b x} ", "<a.b>", "[]", "[a]", "[.b]", "<{a.b}.c>",
        "[a.b c", "[a.b <m.n x>, ", "word ", "日本。", "a\u{301}\n",
    ];
    const LINES: &[&str] = &["\n", "\r\n", "x\n", "x\n\n", "\\\n", "[a.b]\n", "{a.b x,\ny}\r\n\r\n", " \n", "]\n", "[a.b c.d]\n\n", "<m.n x>y\n"];
    let mut t = gen_plain_soup(s, 4);
    let lines = s.bool();
    let unit = if s.chance(1, 3) {
        gen_plain_soup(s, 6) + if lines { "\n" } else { "" }
    } else {
        s.pick(if lines { LINES } else { UNITS }).to_string()
    };
    let each = unit.chars().count().max(1);
    let k = s.below(8);
    if k < 4 && !lines {
        t.push_str(&["[a.b ", "{a.b x ", "<a.b x, ", "[<m.n>.b "][k as usize]);
    }
    // Tokenizing takes time quadratic in what is in a line or an open bracket.
    let (before, _) = nesting(&(t.clone() + &unit.repeat(2)), 0);
    let (after, least) = nesting(&(t.clone() + &unit.repeat(3)), graphemes(&(t.clone() + &unit.repeat(2))));
    let n = match (lines && least == 0, after > before) {
        (true, _) => match s.below(4) {
            0 => *s.pick(&[10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000]),
            _ => gen_many(s, 5000),
        }
        .min(140_000 / each),
        (_, true) => gen_many(s, (200 / unit.matches(['[', '{', '<']).count().max(1)).max(1)),
        _ => gen_many(s, 3000 / each),
    };
    t.push_str(&unit.repeat(n.max(1)));
    if k < 4 && !lines && s.chance(7, 8) {
        t.push_str(&["]", "}", ">", "]"][k as usize]);
    }
    t + &gen_plain_soup(s, 8)
}

/// Brackets nested up to 200 deep, most of them closed, with arguments on the way in and out.
pub fn gen_deep(s: &mut Src) -> String {
    const PAIRS: &[(&str, &str)] = &[("<", ">"), ("{", "}"), ("[", "]")];
    let one_kind = s.chance(2, 3);
    let first = *s.pick(PAIRS);
    let mut t = String::new();
    for _ in 0..s.range(1, 3) {
        let depth = match s.below(3) {
            0 => s.range(1, 40),
            1 => gen_many(s, 200),
            _ => s.range(40, 200),
        };
        let mut open: Vec<&str> = vec![];
        for _ in 0..depth {
            let (o, c) = if one_kind { first } else { *s.pick(PAIRS) };
            t.push_str(o);
            t.push_str(*s.pick(&["", "a.b ", "a.b ", "a.b ", "a.b x, ", "x.y \n"]));
            open.push(c);
        }
        let keep = match s.below(4) {
            0 => s.range(1, 3).min(depth),
            _ => 0,
        };
        while open.len() > keep {
            t.push_str(*s.pick(&["", "", "", ", x", " y.z", "x\n", "\\]"]));
            t.push_str(if s.chance(1, 200) { ">" } else { open[open.len() - 1] });
            open.pop();
        }
        t.push_str(*s.pick(&["", " x, y.z w", "[a.b c, d]", "\n\n", "\n", "{m.n x}.y", "]"]));
    }
    t
}

/// Consecutive code points, each as a part of names, of arguments and of text outside brackets.
pub fn gen_code_points(s: &mut Src) -> String {
    const N: u64 = 16;
    let from = match s.below(4) {
        // most scripts and all of their blanks and marks
        0 | 1 => s.below(0x3200 / N) * N,
        2 => 0xf900 + s.below(0x700 / N) * N,
        _ => s.below(0x110000 / N) * N,
    };
    let place = s.below(4);
    let mut t = String::new();
    for i in 0..s.range(1, N as usize) {
        let Some(c) = char::from_u32(from as u32 + i as u32) else { continue };
        match place {
            0 => t.push_str(&format!("[m.n x{c}y]")),
            1 => t.push_str(&format!("{{m{c}.n{c} {c}}}")),
            2 => t.push_str(&format!("x{c}y {c}")),
            _ => t.push_str(&format!("<m.n \\{c}, {c}>{c}")),
        }
    }
    t
}
