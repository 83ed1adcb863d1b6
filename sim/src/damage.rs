//! What storage and networks do to a text: bits flip, bytes get lost, repeated or overwritten,
//! blocks are zeroed or stale, documents are spliced. And what faulty programs do to a document.

use crate::refjson::Ast;
use crate::sim;
use crate::tape::Tape;

/// Pieces of text that are almost JSON, or JSON in the wrong place.
const SNIP: &[&str] = &[
    "null", "true", "false", "0", "-", "+1", "01", "-01", "1.", ".5", "1e", "1e+", "1E-", "-0", "-0.0", "0e0", "00", "0x1", "1_0", "NaN", "Infinity", "-Infinity", "nul",
    "nulll", "tru", "True", "fals", "\"", "\"\"", "\"a\"", "'a'", "[", "]", "{", "}", "[]", "{}", ",", ",,", ":", "::", "[,", ",]", ",}", "{,", "[1,]", "{\"a\":1,}", "{\"a\"}",
    "{\"a\":}", "{:1}", "{a:1}", "{1:1}", "\\", "\\\"", "\\u", "\\u12", "\\u00e9", "\\u0000", "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\ud83d\\u0041", "\\ud83dx", "\\uD83D\\uDE0",
    "\\ud800\\ud800", "\\udbff\\udfff", "\\uDFFF", "\\x41", "\\0", "\\a", "\\'", "\\U0041", "\\u+123", "\\u 123", "\\u12g4", "\\u004A", "\\/", "\\b\\f\\n\\r\\t", "\u{0}", "\u{1}", "\u{8}", "\t",
    "\n", "\r", "\u{b}", "\u{c}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "é", "\u{1f600}", " ", "//x\n", "/**/", "#", ";", "=", "1 2", "1,2", "\"a\" \"b\"",
    "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "128", "-129", "256", "65536", "4294967296",
    "1e308", "1e309", "-1e309", "1.7976931348623157e308", "1e400", "1e-400", "1e99999999999", "0e99999999999", "1e-99999999999", "123456789012345678901234567890", "0.1e1", "1.5e3", "1E400", "1e+00000000000000000001",
    "{\"a\":1,\"a\":2}", "[[[[", "]]]]", "[1,[2,[3]]]", "{\"\":{\"\":{}}}",
];

const BYTES: &[u8] = b"\"\\{}[]:,0123456789-+.eEaAnulltruefalse \n\t\0\x1f\x7f\x80\xff";

pub fn damage(t: &mut Tape, s: &str, others: &[&str]) -> String {
    let mut b = s.as_bytes().to_vec();
    let n = 1 + t.size(3);
    for _ in 0..n.max(1) {
        once(t, &mut b, others);
    }
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(e) => {
            sim::stat("damage.repaired-to-unicode", 1);
            String::from_utf8_lossy(e.as_bytes()).into_owned()
        }
    }
}

fn span(t: &mut Tape, n: usize) -> (usize, usize) {
    if n == 0 {
        return (0, 0);
    }
    let a = t.below(n);
    let len = match t.draw(3) {
        0 => 1,
        1 => t.range(1, 4),
        _ => t.range(1, 16),
    };
    (a, (a + len).min(n))
}

fn once(t: &mut Tape, b: &mut Vec<u8>, others: &[&str]) {
    let kind = t.draw(17);
    let (x, y) = span(t, b.len());
    let name = match kind {
        0 if !b.is_empty() => {
            b[x] ^= 1 << t.below(8);
            "bit-flip"
        }
        1 => {
            b.drain(x..y);
            "bytes-lost"
        }
        2 => {
            let c = *t.pick(BYTES);
            b.insert(x, c);
            "byte-inserted"
        }
        3 => {
            let c: Vec<u8> = b[x..y].to_vec();
            let at = t.below(b.len() + 1);
            b.splice(at..at, c);
            "bytes-repeated"
        }
        4 => {
            for e in &mut b[x..y] {
                *e = 0;
            }
            "block-zeroed"
        }
        5 if !others.is_empty() => {
            let o = t.pick(others).as_bytes();
            for i in x..y {
                if let Some(c) = o.get(i) {
                    b[i] = *c;
                }
            }
            "block-stale"
        }
        6 if !others.is_empty() => {
            let o = t.pick(others).as_bytes();
            let k = t.below(o.len() + 1);
            b.truncate(x);
            b.extend_from_slice(&o[k..]);
            "spliced"
        }
        7 => {
            b.truncate(x);
            "cut"
        }
        8 if !b.is_empty() => {
            let c = *t.pick(BYTES);
            b[x] = c;
            "byte-overwritten"
        }
        9 => {
            let s = t.pick(SNIP).as_bytes();
            b.splice(x..y, s.iter().copied());
            "token-overwritten"
        }
        10 => {
            // Swap two neighbouring pieces.
            let m = x + (y - x) / 2;
            b[x..y].rotate_left(m - x);
            "bytes-swapped"
        }
        11 | 12 => {
            // An escape turned into another one, or one where there was none.
            let at: Vec<usize> = (0..b.len()).filter(|&i| b[i] == b'\\' || b[i] == b'"').collect();
            if !at.is_empty() {
                let i = *t.pick(&at);
                let e = escape(t);
                if b[i] == b'"' {
                    b.splice(i + 1..i + 1, e.bytes());
                } else {
                    let long = b.get(i + 1) == Some(&b'u') && t.chance(7, 8);
                    let end = (i + if long { 6 } else { 2 }).min(b.len());
                    b.splice(i..end, e.bytes());
                }
            }
            "escape-altered"
        }
        13 | 14 => {
            let (x, y) = number_token(t, b);
            let e = number(t, std::str::from_utf8(&b[x..y]).unwrap_or(""));
            b.splice(x..y, e.bytes());
            "number-altered"
        }
        15 => {
            let c = t.below(128) as u8;
            if t.chance(1, 2) || b.is_empty() {
                b.insert(x, c);
            } else {
                b[x] = c;
            }
            "byte-arbitrary"
        }
        _ => {
            // Replace a whole token by another one.
            let (x, y) = token(t, b);
            let s = t.pick(SNIP).as_bytes();
            b.splice(x..y, s.iter().copied());
            "token-replaced"
        }
    };
    sim::stat(&format!("fault.damage.{name}"), 1);
}

/// An escape sequence, good or bad, with a preference for the edges of the surrogate ranges.
fn escape(t: &mut Tape) -> String {
    const EDGE: &[u32] = &[
        0, 1, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xd801, 0xdaff, 0xdbff, 0xdc00, 0xdc01, 0xddff, 0xdfff,
        0xe000, 0xe001, 0xe3ff, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff,
    ];
    fn unit(t: &mut Tape) -> String {
        let n = match t.draw(4) {
            0 | 1 => *t.pick(EDGE),
            2 => 0xd800 + t.below(0x800) as u32,
            _ => t.below(0x10000) as u32,
        };
        let mut s = match t.draw(3) {
            0 => format!("\\u{n:04x}"),
            1 => format!("\\u{n:04X}"),
            // Mixed case.
            _ => format!("\\u{:02X}{:02x}", n >> 8, n & 255),
        };
        if t.chance(1, 6) {
            // One digit becomes any other byte.
            let i = 2 + t.below(4);
            let c = t.below(128) as u8 as char;
            s.replace_range(i..=i, &c.to_string());
        }
        s
    }
    match t.draw(6) {
        0 => format!("\\{}", t.below(128) as u8 as char),
        1 | 2 => unit(t),
        3 => {
            let (hi, lo) = (*t.pick(&[0xd800u32, 0xd801, 0xd83d, 0xdb00, 0xdbff]), *t.pick(EDGE));
            format!("\\u{hi:04x}\\u{lo:04x}")
        }
        4 => {
            let hi = 0xd800 + t.below(0x400) as u32;
            format!("\\u{hi:04X}{}", unit(t))
        }
        _ => format!("{}{}", unit(t), unit(t)),
    }
}

/// A number near some edge, or a small change to the number that was there.
fn number(t: &mut Tape, old: &str) -> String {
    let mut s = match t.draw(4) {
        0 => old.to_owned(),
        1 => {
            let w = *t.pick(&[7u32, 8, 15, 16, 31, 32, 52, 53, 63, 64]);
            let n = (1i128 << w) + t.below(5) as i128 - 2;
            if t.chance(1, 2) {
                format!("-{n}")
            } else {
                n.to_string()
            }
        }
        2 => {
            let n = 15 + t.below(30);
            (0..n).map(|i| char::from(b'0' + if i == 0 { 1 + t.below(9) as u8 } else { t.below(10) as u8 })).collect()
        }
        _ => t.below(1000).to_string(),
    };
    match t.draw(8) {
        0 => {}
        1 => s.push_str(t.pick(&[".0", ".", "e", "e0", "E+1", "e-1", "e18", "e19", "e20", "e308", "e309", "e-324", "e2147483647", "e2147483648", "e-2147483649", ".5e-3", ".e1", "e1.5", "e+", "e--1"])),
        2 => s.insert_str(0, t.pick(&["-", "+", "0", "00", "-0", ".", "--"])),
        3 if !s.is_empty() => {
            let c = *t.pick(b"0123456789+-.eE");
            if let Some((i, _)) = s.char_indices().nth(t.below(s.chars().count())) {
                s.insert(i, char::from(c));
            }
        }
        4 => {
            let e = t.below(700) as i32 - 350;
            s.push_str(&format!("e{e}"));
        }
        5 => {
            let d: String = (0..1 + t.below(25)).map(|_| char::from(b'0' + t.below(10) as u8)).collect();
            s.push('.');
            s.push_str(&d);
        }
        6 => {
            let d: String = (0..1 + t.below(20)).map(|_| char::from(b'0' + t.below(10) as u8)).collect();
            s.push_str(&d);
        }
        _ => {
            // A digit lost.
            if let Some((i, c)) = s.char_indices().nth(t.below(s.chars().count().max(1))) {
                s.replace_range(i..i + c.len_utf8(), "");
            }
        }
    }
    s
}

fn number_token(t: &mut Tape, b: &[u8]) -> (usize, usize) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        while i < b.len() && matches!(b[i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
            i += 1;
        }
        if i > s {
            v.push((s, i));
        } else {
            i += 1;
        }
    }
    if v.is_empty() {
        token(t, b)
    } else {
        *t.pick(&v)
    }
}

/// The span of some token of the text (numbers, literals, strings, punctuation).
fn token(t: &mut Tape, b: &[u8]) -> (usize, usize) {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i = (i + 1).min(b.len());
            }
            c if c.is_ascii_alphanumeric() || c == b'-' || c == b'+' || c == b'.' => {
                while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'-' | b'+' | b'.')) {
                    i += 1;
                }
            }
            _ => i += 1,
        }
        v.push((s, i));
    }
    if v.is_empty() {
        (0, 0)
    } else {
        *t.pick(&v)
    }
}

pub fn cut_at(s: &str, at: usize) -> &str {
    let mut k = at.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    &s[..k]
}

/// What faulty programs do to a document: it stays JSON, but members come twice, get lost, change
/// places or kinds.
pub fn restructure(t: &mut Tape, a: &Ast) -> Ast {
    let mut a = a.clone();
    for _ in 0..1 + t.draw(3) {
        if t.chance(3, 5) {
            told_twice(t, &mut a);
        } else {
            let spare = piece(t, &a);
            rearrange(t, &mut a, spare);
        }
    }
    a
}

/// All containers of the document, outer ones first.
fn containers(a: &Ast) -> usize {
    match a {
        Ast::Arr(v) => 1 + v.iter().map(containers).sum::<usize>(),
        Ast::Obj(v) => 1 + v.iter().map(|(_, e)| containers(e)).sum::<usize>(),
        _ => 0,
    }
}
fn container<'a>(a: &'a mut Ast, n: &mut usize, objects: bool) -> Option<&'a mut Ast> {
    match a {
        Ast::Obj(_) if *n == 0 => return Some(a),
        Ast::Arr(_) if *n == 0 && !objects => return Some(a),
        Ast::Obj(_) => *n -= 1,
        Ast::Arr(_) if !objects => *n -= 1,
        _ => {}
    }
    match a {
        Ast::Arr(v) => v.iter_mut().find_map(|e| container(e, n, objects)),
        Ast::Obj(v) => v.iter_mut().find_map(|(_, e)| container(e, n, objects)),
        _ => None,
    }
}
fn objects(a: &Ast) -> usize {
    match a {
        Ast::Arr(v) => v.iter().map(objects).sum(),
        Ast::Obj(v) => 1 + v.iter().map(|(_, e)| objects(e)).sum::<usize>(),
        _ => 0,
    }
}
/// Some value of the document.
fn piece(t: &mut Tape, a: &Ast) -> Ast {
    let mut a = a;
    loop {
        a = match a {
            Ast::Arr(v) if !v.is_empty() && t.chance(3, 4) => t.pick(v),
            Ast::Obj(v) if !v.is_empty() && t.chance(3, 4) => &t.pick(v).1,
            _ => return a.clone(),
        }
    }
}

/// A member is repeated; one of the two tellings differs from the other.
fn told_twice(t: &mut Tape, a: &mut Ast) {
    let n = objects(a);
    if n == 0 {
        return;
    }
    let mut k = t.below(n);
    let Some(Ast::Obj(v)) = container(a, &mut k, true) else { return };
    if v.is_empty() {
        return;
    }
    let at = t.below(v.len());
    let (key, mut copy) = v[at].clone();
    for _ in 0..t.draw(3) {
        let spare = match t.draw(3) {
            0 => Ast::Null,
            1 => piece(t, &copy),
            _ => crate::zoo::any(t, 2, &crate::zoo::GEN.slim()),
        };
        rearrange(t, &mut copy, spare);
    }
    // Right before it, right after it, or as the last member.
    let to = *t.pick(&[at, at + 1, at + 1, v.len(), v.len()]);
    v.insert(to, (key, copy));
    sim::stat("damage.member-told-twice", 1);
}

fn rearrange(t: &mut Tape, a: &mut Ast, spare: Ast) {
    let n = containers(a);
    if n == 0 {
        *a = spare;
        return;
    }
    let mut k = t.below(n);
    let Some(c) = container(a, &mut k, false) else { return };
    let kind = t.draw(10);
    let name = match c {
        Ast::Arr(v) if v.is_empty() => {
            v.push(spare);
            "element-added"
        }
        Ast::Obj(v) if v.is_empty() => {
            v.push((crate::zoo::any_key(t), spare));
            "member-added"
        }
        Ast::Arr(v) => {
            let i = t.below(v.len());
            match kind {
                0..=2 => {
                    v.remove(i);
                    "element-lost"
                }
                3 | 4 => {
                    v[i] = spare;
                    "element-replaced"
                }
                5 => {
                    v.insert(i, spare);
                    "element-added"
                }
                6 => {
                    let j = t.below(v.len());
                    v.swap(i, j);
                    "elements-swapped"
                }
                7 => {
                    v.truncate(i);
                    "elements-cut"
                }
                8 => {
                    let e = v[i].clone();
                    v[i] = Ast::Arr(vec![e]);
                    "value-wrapped"
                }
                _ => {
                    let e = v.swap_remove(i);
                    *c = e;
                    "value-unwrapped"
                }
            }
        }
        Ast::Obj(v) => {
            let i = t.below(v.len());
            match kind {
                0..=3 => {
                    v.remove(i);
                    "member-lost"
                }
                4 | 5 => {
                    v[i].1 = spare;
                    "member-replaced"
                }
                6 => {
                    let j = t.below(v.len());
                    v.swap(i, j);
                    "members-swapped"
                }
                7 => {
                    // The value goes under its neighbour's name.
                    let j = t.below(v.len());
                    let k = v[j].0.clone();
                    v[i].0 = k;
                    "member-renamed"
                }
                8 => {
                    let e = v[i].1.clone();
                    v[i].1 = if t.chance(1, 2) { Ast::Arr(vec![e]) } else { Ast::Obj(vec![(v[i].0.clone(), e)]) };
                    "value-wrapped"
                }
                _ => {
                    let e = v.swap_remove(i).1;
                    *c = e;
                    "value-unwrapped"
                }
            }
        }
        _ => return,
    };
    sim::stat(&format!("damage.{name}"), 1);
}

/// A document of many levels, arrays and objects mixed, with something beside the way down.
pub fn nested(t: &mut Tape) -> String {
    let n = match t.draw(4) {
        0 | 1 => (1usize << t.range(4, 11)) + t.below(9) - 4,
        2 => t.range(10, 300),
        _ => t.range(300, 3000),
    };
    let style = t.draw(5);
    let mut x = t.draw(1 << 48);
    let mut open = String::new();
    let mut close = Vec::new();
    for i in 0..n {
        let r = crate::tape::splitmix(&mut x);
        let obj = match style {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => r & 1 == 0,
            _ => r & 15 == 0,
        };
        let side = ["", "", "", "1", "[]", "{}", "\"\\n\"", "null"][(r >> 8) as usize % 8];
        let late = ["", "", "", "0", "[[]]", "{\"\":[]}", "\"]\"", "true"][(r >> 16) as usize % 8];
        if obj {
            open.push('{');
            if !side.is_empty() {
                open.push_str("\"a\":");
                open.push_str(side);
                open.push(',');
            }
            open.push_str(["\"m\":", "\"\":", "\"next\":", "\"\\u006d\" :"][(r >> 24) as usize % 4]);
            close.push(if late.is_empty() { "}".to_owned() } else { format!(",\"z\":{late}}}") });
        } else {
            open.push('[');
            if !side.is_empty() {
                open.push_str(side);
                open.push(',');
            }
            close.push(if late.is_empty() { "]".to_owned() } else { format!(",{late}]") });
        }
    }
    open.push_str(t.pick(&["1", "[]", "{}", "null", "\"x\"", "-0.5", "true"]));
    close.iter().rev().for_each(|c| open.push_str(c));
    sim::stat("texts.nested", 1);
    open
}

/// One structural character goes wrong.
pub fn bracket(t: &mut Tape, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    let at: Vec<usize> = (0..b.len()).filter(|&i| b"[]{},:".contains(&b[i])).collect();
    if at.is_empty() {
        return s.to_owned();
    }
    let i = at[t.below(at.len())];
    let name = match t.draw(6) {
        0..=2 => {
            b[i] = match b[i] {
                b'[' => b'{',
                b']' => b'}',
                b'{' => b'[',
                b'}' => b']',
                b',' => b':',
                _ => b',',
            };
            "structure-swapped"
        }
        3 => {
            b.remove(i);
            "structure-lost"
        }
        4 => {
            let c = b[i];
            b.insert(i, c);
            "structure-repeated"
        }
        _ => {
            let j = at[t.below(at.len())];
            b[i] = b[j];
            "structure-overwritten"
        }
    };
    sim::stat(&format!("damage.{name}"), 1);
    String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
}
