//! The executable reference model of the text format: an independent JSON decoder (RFC 8259, with
//! the documented restrictions: lone surrogates and numbers beyond f64 are errors), a comparison of
//! decoded values, and a renderer that writes a document in one of the many ways JSON allows.

use crate::tape::Tape;

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    U(u64),
    /// Written with a minus sign, fits i64. `I(0)` is `-0`.
    I(i64),
    F(f64),
    F32(f32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Null,
    Bool(bool),
    Num(Num),
    /// Generator only: a number by its text.
    Raw(String),
    Str(String),
    Arr(Vec<Ast>),
    Obj(Vec<(String, Ast)>),
    /// Members whose order carries no meaning (from a hash map).
    Set(Vec<(String, Ast)>),
}

pub struct Parsed {
    pub ast: Result<Ast, usize>,
    /// The verdict hinges on a number at the very edge of the f64 range or on an unspecified
    /// corner; no oracle applies to accept/reject.
    pub grey: bool,
}

pub fn parse(s: &str) -> Parsed {
    let mut p = P { b: s.as_bytes(), i: 0, grey: false };
    let r = (|| {
        p.ws();
        let v = p.value()?;
        p.ws();
        if p.i != p.b.len() {
            return Err(());
        }
        Ok(v)
    })();
    let at = p.i;
    Parsed { ast: r.map_err(|()| at), grey: p.grey }
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    grey: bool,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.b.get(self.i) {
            self.i += 1;
        }
    }
    fn value(&mut self) -> Result<Ast, ()> {
        match self.b.get(self.i) {
            Some(b'n') => self.lit(b"null", Ast::Null),
            Some(b't') => self.lit(b"true", Ast::Bool(true)),
            Some(b'f') => self.lit(b"false", Ast::Bool(false)),
            Some(b'"') => Ok(Ast::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(Ast::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(Ast::Arr(v));
                        }
                        _ => return Err(()),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(Ast::Obj(v));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return Err(());
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return Err(());
                    }
                    self.i += 1;
                    self.ws();
                    v.push((k, self.value()?));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(Ast::Obj(v));
                        }
                        _ => return Err(()),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => Err(()),
        }
    }
    fn lit(&mut self, l: &[u8], v: Ast) -> Result<Ast, ()> {
        if self.b[self.i..].starts_with(l) {
            self.i += l.len();
            Ok(v)
        } else {
            Err(())
        }
    }
    fn digits(&mut self) -> Result<(), ()> {
        let s = self.i;
        while let Some(b'0'..=b'9') = self.b.get(self.i) {
            self.i += 1;
        }
        if self.i == s {
            Err(())
        } else {
            Ok(())
        }
    }
    fn number(&mut self) -> Result<Ast, ()> {
        let s = self.i;
        let neg = self.b[self.i] == b'-';
        if neg {
            self.i += 1;
        }
        match self.b.get(self.i) {
            Some(b'0') => {
                self.i += 1;
                if let Some(b'0'..=b'9') = self.b.get(self.i) {
                    return Err(());
                }
            }
            Some(b'1'..=b'9') => self.digits()?,
            _ => return Err(()),
        }
        let mut integral = true;
        if self.b.get(self.i) == Some(&b'.') {
            integral = false;
            self.i += 1;
            self.digits()?;
        }
        let mant_end = self.i;
        let mut exp: i128 = 0;
        if let Some(b'e' | b'E') = self.b.get(self.i) {
            integral = false;
            self.i += 1;
            let mut eneg = false;
            if let Some(c @ (b'+' | b'-')) = self.b.get(self.i) {
                eneg = *c == b'-';
                self.i += 1;
            }
            let es = self.i;
            self.digits()?;
            for &d in &self.b[es..self.i] {
                exp = exp.saturating_mul(10).saturating_add(i128::from(d - b'0')).min(1 << 60);
            }
            if eneg {
                exp = -exp;
            }
        }
        let txt = std::str::from_utf8(&self.b[s..self.i]).unwrap();
        if integral {
            if neg {
                if let Ok(v) = txt.parse::<i64>() {
                    return Ok(Ast::Num(Num::I(v)));
                }
            } else if let Ok(v) = txt.parse::<u64>() {
                return Ok(Ast::Num(Num::U(v)));
            }
        }
        let f: f64 = txt.parse().map_err(|_| ())?;
        if f.is_infinite() || f.abs() > 1.797_693_134_862_3e308 {
            // Near the edge of the range either verdict is fine; well beyond it must be an error.
            let mant = std::str::from_utf8(&self.b[s..mant_end]).unwrap();
            let tenth: f64 = format!("{mant}e{}", exp - 1).parse().map_err(|_| ())?;
            if tenth.abs() < 1.797_693_134_862_4e307 {
                self.grey = true;
                return Ok(Ast::Num(Num::F(if f.is_infinite() { f64::MAX.copysign(f) } else { f })));
            }
            return Err(());
        }
        Ok(Ast::Num(Num::F(f)))
    }
    fn hex4(&mut self) -> Result<u32, ()> {
        let mut n = 0;
        for _ in 0..4 {
            let d = match self.b.get(self.i) {
                Some(&c) => (c as char).to_digit(16).ok_or(())?,
                None => return Err(()),
            };
            n = n * 16 + d;
            self.i += 1;
        }
        Ok(n)
    }
    fn string(&mut self) -> Result<String, ()> {
        self.i += 1;
        let mut out: Vec<u8> = Vec::new();
        loop {
            let c = *self.b.get(self.i).ok_or(())?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|_| ()),
                0..=0x1f => return Err(()),
                b'\\' => {
                    let e = *self.b.get(self.i).ok_or(())?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let hi = self.hex4()?;
                            if (0xD800..0xDC00).contains(&hi) {
                                if self.b.get(self.i) != Some(&b'\\') || self.b.get(self.i + 1) != Some(&b'u') {
                                    return Err(());
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&lo) {
                                    return Err(());
                                }
                                char::from_u32(0x10000 + ((hi - 0xD800) << 10) + (lo - 0xDC00)).ok_or(())?
                            } else {
                                char::from_u32(hi).ok_or(())?
                            }
                        }
                        _ => return Err(()),
                    };
                    let mut buf = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                }
                _ => out.push(c),
            }
        }
    }
}

pub fn ulps(a: f64, b: f64) -> u64 {
    let key = |x: f64| {
        let i = x.to_bits() as i64;
        i128::from(if i < 0 { i64::MIN.wrapping_sub(i) } else { i })
    };
    let d = (key(a) - key(b)).unsigned_abs();
    u64::try_from(d).unwrap_or(u64::MAX)
}
pub fn ulps32(a: f32, b: f32) -> u64 {
    let key = |x: f32| {
        let i = x.to_bits() as i32;
        i64::from(if i < 0 { i32::MIN.wrapping_sub(i) } else { i })
    };
    (key(a) - key(b)).unsigned_abs()
}

/// How far floats may be off: (ulps for f64, ulps for f32). Zero = bit-exact.
#[derive(Clone, Copy)]
pub struct Tol(pub u64, pub u64);
pub const EXACT: Tol = Tol(0, 0);
/// One decode.
pub const DECODE: Tol = Tol(4, 1);

pub fn num_same(a: &Num, b: &Num, t: Tol) -> bool {
    match (a, b) {
        (Num::U(x), Num::U(y)) => x == y,
        (Num::I(x), Num::I(y)) => x == y,
        // The same integer may be carried as signed or unsigned.
        (Num::U(x), Num::I(y)) | (Num::I(y), Num::U(x)) => i128::from(*x) == i128::from(*y),
        (Num::F(x), Num::F(y)) => {
            x.is_sign_negative() == y.is_sign_negative() && (ulps(*x, *y) <= t.0 || (x.is_nan() && y.is_nan()))
        }
        (Num::F32(x), Num::F32(y)) => x.is_sign_negative() == y.is_sign_negative() && ulps32(*x, *y) <= t.1,
        (Num::F32(x), Num::F(y)) | (Num::F(y), Num::F32(x)) => {
            x.is_sign_negative() == y.is_sign_negative() && ulps32(*x, *y as f32) <= t.1
        }
        _ => false,
    }
}

pub fn same(a: &Ast, b: &Ast, t: Tol) -> bool {
    match (a, b) {
        (Ast::Null, Ast::Null) => true,
        (Ast::Bool(x), Ast::Bool(y)) => x == y,
        (Ast::Num(x), Ast::Num(y)) => num_same(x, y, t),
        (Ast::Str(x), Ast::Str(y)) => x == y,
        (Ast::Arr(x), Ast::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, t)),
        (Ast::Obj(x), Ast::Obj(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1, t))
        }
        (Ast::Set(x), Ast::Set(y) | Ast::Obj(y)) | (Ast::Obj(x), Ast::Set(y)) => {
            if x.len() != y.len() {
                return false;
            }
            let sorted = |v: &Vec<(String, Ast)>| {
                let mut i: Vec<usize> = (0..v.len()).collect();
                i.sort_by(|&p, &q| v[p].0.cmp(&v[q].0));
                i
            };
            let (i, j) = (sorted(x), sorted(y));
            i.iter().zip(&j).all(|(&p, &q)| x[p].0 == y[q].0 && same(&x[p].1, &y[q].1, t))
        }
        _ => false,
    }
}

pub fn show(a: &Ast) -> String {
    let mut s = format!("{a:?}");
    cut(&mut s, 600);
    s
}
pub fn cut(s: &mut String, n: usize) {
    if s.len() > n {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
    }
}
pub fn brief(s: &str) -> String {
    let mut t = format!("{s:?}");
    cut(&mut t, 500);
    t
}

// ---------------------------------------------------------------- rendering

/// How a document is written: permille of optional whitespace and of optional escapes.
#[derive(Clone, Copy)]
pub struct Style {
    pub ws: u64,
    pub esc: u64,
}

pub fn pick_style(t: &mut Tape) -> Style {
    match t.draw(4) {
        0 => Style { ws: 0, esc: 0 },
        1 => Style { ws: 100, esc: 30 },
        2 => Style { ws: 0, esc: 300 },
        _ => Style { ws: 400, esc: 100 },
    }
}

fn ws(out: &mut String, t: &mut Tape, st: Style) {
    if st.ws > 0 && t.chance(st.ws, 1000) {
        for _ in 0..t.range(1, 3) {
            out.push(*t.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

pub fn render_str(s: &str, out: &mut String, t: &mut Tape, st: Style) {
    out.push('"');
    for c in s.chars() {
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        if !must && !(st.esc > 0 && t.chance(st.esc, 1000)) {
            out.push(c);
            continue;
        }
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        if let Some(e) = short {
            if st.esc == 0 || !t.chance(1, 2) {
                out.push('\\');
                out.push(e);
                continue;
            }
        }
        let mut buf = [0u16; 2];
        for u in c.encode_utf16(&mut buf) {
            out.push_str("\\u");
            for k in (0..4).rev() {
                let d = char::from_digit(u32::from((*u >> (4 * k)) & 15), 16).unwrap();
                out.push(if st.esc > 0 && t.chance(1, 2) { d.to_ascii_uppercase() } else { d });
            }
        }
    }
    out.push('"');
}

pub fn render(a: &Ast, out: &mut String, t: &mut Tape, st: Style) {
    ws(out, t, st);
    match a {
        Ast::Null => out.push_str("null"),
        Ast::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Ast::Raw(r) => out.push_str(r),
        Ast::Num(Num::U(n)) => out.push_str(&n.to_string()),
        Ast::Num(Num::I(0)) => out.push_str("-0"),
        Ast::Num(Num::I(n)) => out.push_str(&n.to_string()),
        Ast::Num(Num::F(f)) => out.push_str(&format!("{f:?}")),
        Ast::Num(Num::F32(f)) => out.push_str(&format!("{:?}", f64::from(*f))),
        Ast::Str(s) => render_str(s, out, t, st),
        Ast::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render(x, out, t, st);
            }
            if v.is_empty() {
                ws(out, t, st);
            }
            out.push(']');
        }
        Ast::Obj(v) | Ast::Set(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(out, t, st);
                render_str(k, out, t, st);
                ws(out, t, st);
                out.push(':');
                render(x, out, t, st);
            }
            if v.is_empty() {
                ws(out, t, st);
            }
            out.push('}');
        }
    }
    ws(out, t, st);
}
