//! The zoo: library types, derived types and user types in many compositions, each with a schema.
//! The schema is what the reference model interprets: which documents the type accepts, what value
//! results, which participant callbacks must happen in which order, and how to generate documents.

use crate::part::{self, Ev, PKey, Probe, PV};
use crate::refjson::{Ast, Num};
use crate::sim;
use crate::tape::Tape;
use miniserde::de::{Map as DeMap, Seq as DeSeq, Visitor};
use miniserde::json::{Array, Number, Object, Value};
use miniserde::ser::{self, Fragment};
use miniserde::{make_place, Deserialize, Error, Result, Serialize};
use std::borrow::Cow;
use std::cell::Cell;
use crate::bare::HashMap;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;
use std::str::FromStr;

// ---------------------------------------------------------------- schema

#[derive(Clone)]
pub enum S {
    Unit,
    Bool,
    Str,
    Int(i128, i128),
    /// The same, with a default of its own for a missing member.
    Level(u32),
    F64,
    F32,
    Boxed(Rc<S>),
    Opt(Rc<S>),
    Pair(Rc<S>, Rc<S>),
    Vec(Rc<S>),
    Arr(usize, Rc<S>),
    /// Key kind, value, whether it iterates in key order.
    Map(K, Rc<S>, bool),
    Value,
    VArr,
    VObj,
    Number,
    Probe,
    PVec(Rc<S>),
    PMap(Rc<S>),
    Struct(Rc<Vec<(&'static str, S)>>),
    Enum(&'static [&'static str]),
    Lazy(fn() -> S),
}

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Str,
    Bool,
    Char,
    Int(i128, i128),
    Fold,
    Probe,
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum KV {
    Str(String),
    Bool(bool),
    Char(char),
    Int(i128),
}

/// What parsing a key of this kind means: canonical key, or failure.
pub fn key_model(k: K, s: &str) -> Option<KV> {
    match k {
        K::Str | K::Probe => Some(KV::Str(s.to_owned())),
        K::Bool => match s {
            "true" => Some(KV::Bool(true)),
            "false" => Some(KV::Bool(false)),
            _ => None,
        },
        K::Char => {
            let mut c = s.chars();
            match (c.next(), c.next()) {
                (Some(c), None) => Some(KV::Char(c)),
                _ => None,
            }
        }
        K::Int(lo, hi) => {
            let digits = match s.as_bytes() {
                [b'+', r @ ..] => r,
                [b'-', r @ ..] if lo < 0 => r,
                r => r,
            };
            if digits.is_empty() || !digits.iter().all(u8::is_ascii_digit) {
                return None;
            }
            let n: i128 = s.parse().ok()?;
            if (lo..=hi).contains(&n) {
                Some(KV::Int(n))
            } else {
                None
            }
        }
        K::Fold => Some(KV::Str(s.to_ascii_lowercase())),
    }
}
pub fn key_text(k: &KV) -> String {
    match k {
        KV::Str(s) => s.clone(),
        KV::Bool(b) => b.to_string(),
        KV::Char(c) => c.to_string(),
        KV::Int(n) => n.to_string(),
    }
}

/// Reference decoding: the value the type must produce for this document, or `Err`.
/// `grey` is set where the verdict is unspecified.
pub fn decode(s: &S, a: &Ast, grey: &mut bool) -> std::result::Result<Ast, ()> {
    Ok(match (s, a) {
        (S::Unit, Ast::Null) => Ast::Null,
        (S::Bool, Ast::Bool(b)) => Ast::Bool(*b),
        (S::Str, Ast::Str(x)) => Ast::Str(x.clone()),
        (S::Int(lo, hi), Ast::Num(n)) => {
            let v = match n {
                Num::U(u) => i128::from(*u),
                Num::I(i) => {
                    if *i == 0 && *lo == 0 {
                        *grey = true; // "-0" for an unsigned target
                    }
                    i128::from(*i)
                }
                _ => return Err(()),
            };
            if v < *lo || v > *hi {
                return Err(());
            }
            Ast::Num(if v < 0 { Num::I(v as i64) } else { Num::U(v as u64) })
        }
        (S::Level(_), _) => decode(&S::Int(0, i128::from(u32::MAX)), a, grey)?,
        (S::F64, Ast::Num(n)) => Ast::Num(Num::F(match n {
            Num::U(u) => *u as f64,
            Num::I(i) => {
                if *i == 0 {
                    *grey = true;
                }
                *i as f64
            }
            Num::F(f) => *f,
            Num::F32(f) => f64::from(*f),
        })),
        (S::F32, Ast::Num(n)) => Ast::Num(Num::F32(match n {
            Num::U(u) => *u as f32,
            Num::I(i) => {
                if *i == 0 {
                    *grey = true;
                }
                *i as f32
            }
            Num::F(f) => *f as f32,
            Num::F32(f) => *f,
        })),
        (S::Boxed(i), _) => decode(i, a, grey)?,
        (S::Opt(_), Ast::Null) => Ast::Null,
        (S::Opt(i), _) => decode(i, a, grey)?,
        (S::Pair(x, y), Ast::Arr(v)) if v.len() == 2 => Ast::Arr(vec![decode(x, &v[0], grey)?, decode(y, &v[1], grey)?]),
        (S::Vec(i) | S::PVec(i), Ast::Arr(v)) => Ast::Arr(v.iter().map(|e| decode(i, e, grey)).collect::<std::result::Result<_, _>>()?),
        (S::Arr(n, i), Ast::Arr(v)) if v.len() == *n => Ast::Arr(v.iter().map(|e| decode(i, e, grey)).collect::<std::result::Result<_, _>>()?),
        (S::Map(k, i, sorted), Ast::Obj(v)) => {
            let mut m = BTreeMap::new();
            for (key, e) in v {
                let kv = key_model(*k, key).ok_or(())?;
                m.insert(kv, decode(i, e, grey)?);
            }
            let l = m.into_iter().map(|(k, v)| (key_text(&k), v)).collect();
            if *sorted {
                Ast::Obj(l)
            } else {
                Ast::Set(l)
            }
        }
        (S::PMap(i), Ast::Obj(v)) => Ast::Obj(v.iter().map(|(k, e)| Ok((k.clone(), decode(i, e, grey)?))).collect::<std::result::Result<_, ()>>()?),
        (S::VArr, Ast::Arr(_)) | (S::VObj, Ast::Obj(_)) | (S::Value, _) => value_model(a),
        (S::Number, Ast::Num(n)) => Ast::Num(n.clone()),
        (S::Probe, _) => a.clone(),
        (S::Struct(fs), Ast::Obj(v)) => {
            let mut out: Vec<Option<Ast>> = fs.iter().map(|(_, f)| missing(f)).collect();
            for (k, e) in v {
                if let Some(i) = fs.iter().position(|(n, _)| n == k) {
                    out[i] = Some(decode(&fs[i].1, e, grey)?);
                }
            }
            let mut l = Vec::new();
            for (i, o) in out.into_iter().enumerate() {
                l.push((fs[i].0.to_owned(), o.ok_or(())?));
            }
            Ast::Obj(l)
        }
        (S::Enum(vs), Ast::Str(x)) if vs.contains(&x.as_str()) => Ast::Str(x.clone()),
        (S::Lazy(f), _) => decode(&f(), a, grey)?,
        _ => return Err(()),
    })
}

fn missing(s: &S) -> Option<Ast> {
    match s {
        S::Opt(_) => Some(Ast::Null),
        S::Level(n) => Some(Ast::Num(Num::U(u64::from(*n)))),
        S::Lazy(f) => missing(&f()),
        _ => None,
    }
}

fn value_model(a: &Ast) -> Ast {
    match a {
        Ast::Arr(v) => Ast::Arr(v.iter().map(value_model).collect()),
        Ast::Obj(v) => {
            let m: BTreeMap<String, Ast> = v.iter().map(|(k, e)| (k.clone(), value_model(e))).collect();
            Ast::Obj(m.into_iter().collect())
        }
        x => x.clone(),
    }
}

/// The callbacks the document dictates, in order. Stops with `Err` where a library type must refuse
/// the kind of value; refusals that may come late (sizes, missing members) do not stop it.
pub fn trace(s: &S, a: &Ast, out: &mut Vec<Ev>) -> std::result::Result<(), ()> {
    match (s, a) {
        (S::Boxed(i), _) => trace(i, a, out),
        (S::Opt(_), Ast::Null) => Ok(()),
        (S::Opt(i), _) => trace(i, a, out),
        (S::Pair(x, y), Ast::Arr(v)) => {
            for (i, e) in v.iter().enumerate() {
                match i {
                    0 => trace(x, e, out)?,
                    1 => trace(y, e, out)?,
                    _ => return Err(()),
                }
            }
            if v.len() == 2 {
                Ok(())
            } else {
                Err(())
            }
        }
        (S::Vec(i), Ast::Arr(v)) => v.iter().try_for_each(|e| trace(i, e, out)),
        (S::Arr(n, i), Ast::Arr(v)) => {
            v.iter().try_for_each(|e| trace(i, e, out))?;
            if v.len() == *n {
                Ok(())
            } else {
                Err(())
            }
        }
        (S::PVec(i), Ast::Arr(v)) => {
            out.push(Ev::Seq);
            for e in v {
                out.push(Ev::Elem);
                trace(i, e, out)?;
            }
            out.push(Ev::SeqEnd);
            Ok(())
        }
        (S::PMap(i), Ast::Obj(v)) => {
            out.push(Ev::Map);
            for (k, e) in v {
                out.push(Ev::Key(k.clone()));
                trace(i, e, out)?;
            }
            out.push(Ev::MapEnd);
            Ok(())
        }
        (S::Map(k, i, _), Ast::Obj(v)) => {
            for (key, e) in v {
                if *k == K::Probe {
                    out.push(Ev::KeyParse(key.clone()));
                }
                key_model(*k, key).ok_or(())?;
                trace(i, e, out)?;
            }
            Ok(())
        }
        (S::Struct(fs), Ast::Obj(v)) => {
            for (k, e) in v {
                if let Some((_, f)) = fs.iter().find(|(n, _)| n == k) {
                    trace(f, e, out)?;
                }
            }
            let complete = fs.iter().all(|(n, f)| missing(f).is_some() || v.iter().any(|(k, _)| k == n));
            if complete {
                Ok(())
            } else {
                Err(())
            }
        }
        (S::Probe, _) => {
            probe_trace(a, out);
            Ok(())
        }
        (S::Lazy(f), _) => trace(&f(), a, out),
        _ => decode(s, a, &mut false).map(|_| ()),
    }
}

fn probe_trace(a: &Ast, out: &mut Vec<Ev>) {
    match a {
        Ast::Null => out.push(Ev::Null),
        Ast::Bool(b) => out.push(Ev::Bool(*b)),
        Ast::Str(s) => out.push(Ev::Str(s.clone())),
        Ast::Num(Num::U(n)) => out.push(Ev::Pos(*n)),
        Ast::Num(Num::I(n)) => out.push(Ev::Neg(*n)),
        Ast::Num(Num::F(n)) => out.push(Ev::Float(*n)),
        Ast::Num(Num::F32(n)) => out.push(Ev::Float(f64::from(*n))),
        Ast::Raw(_) => unreachable!(),
        Ast::Arr(v) => {
            out.push(Ev::Seq);
            for e in v {
                out.push(Ev::Elem);
                probe_trace(e, out);
            }
            out.push(Ev::SeqEnd);
        }
        Ast::Obj(v) | Ast::Set(v) => {
            out.push(Ev::Map);
            for (k, e) in v {
                out.push(Ev::Key(k.clone()));
                probe_trace(e, out);
            }
            out.push(Ev::MapEnd);
        }
    }
}

pub fn has(s: &S, f: &dyn Fn(&S) -> bool) -> bool {
    fn go(s: &S, f: &dyn Fn(&S) -> bool, d: usize) -> bool {
        if d > 10 {
            return false;
        }
        f(s) || match s {
            S::Boxed(i) | S::Opt(i) | S::Vec(i) | S::Arr(_, i) | S::Map(_, i, _) | S::PVec(i) | S::PMap(i) => go(i, f, d + 1),
            S::Pair(a, b) => go(a, f, d + 1) || go(b, f, d + 1),
            S::Struct(v) => v.iter().any(|(_, i)| go(i, f, d + 1)),
            S::Lazy(g) => d < 6 && go(&g(), f, d + 3),
            _ => false,
        }
    }
    go(s, f, 0)
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy)]
pub struct Gen {
    /// Permille of values replaced by something of another kind or size.
    pub wild: u64,
    /// Longest container.
    pub width: usize,
    pub depth: usize,
    /// Permille of repeated members, unknown members.
    pub dup: u64,
    pub unknown: u64,
    /// Only numbers that any JSON implementation writes (no texts like 1E+02 or 1e-400).
    pub plain: bool,
    /// No f64 (only integers that travel exactly).
    pub no_float: bool,
    /// Permille of nodes that become something large: a long sequence, a long string, a deep chain.
    pub bulk: u64,
}
pub const GEN: Gen = Gen { wild: 0, width: 5, depth: 4, dup: 60, unknown: 120, plain: false, no_float: false, bulk: BULK };
pub const SENT: Gen = Gen { wild: 0, width: 5, depth: 4, dup: 0, unknown: 0, plain: true, no_float: false, bulk: BULK };
/// (Miri is too slow for these.)
pub const BULK: u64 = if cfg!(miri) { 0 } else { 8 };

impl Gen {
    /// The same without anything large in it.
    pub fn slim(&self) -> Gen {
        Gen { bulk: 0, ..*self }
    }
}

pub fn bulk_len(t: &mut Tape) -> usize {
    match t.draw(4) {
        0 | 1 => t.range(10, 40),
        2 => (1 << t.range(4, 8)) + t.below(3) - 1,
        _ => t.range(40, 300),
    }
}

pub fn bulk_string(t: &mut Tape) -> String {
    let n = match t.draw(6) {
        0..=2 => t.range(60, 300),
        3 | 4 => (1usize << t.range(6, 13)) + t.below(7) - 3,
        _ => t.range(300, 10_000),
    };
    let m = 1 + t.below(9);
    let ascii = t.chance(1, 2);
    let word: Vec<char> = (0..m).map(|_| if ascii { (b'a' + t.below(26) as u8) as char } else { *t.pick(CHARS) }).collect();
    let mut v: Vec<char> = Vec::new();
    let mut bytes = 0;
    while bytes < n {
        let c = word[v.len() % m];
        bytes += c.len_utf8();
        v.push(c);
    }
    for _ in 0..t.below(8) {
        let at = if t.chance(1, 2) { t.below(v.len()) } else { ((1usize << t.range(3, 13)) + t.below(5)).saturating_sub(2) };
        if at < v.len() {
            v[at] = *t.pick(CHARS);
        }
    }
    v.into_iter().collect()
}

/// Arrays and objects in one another, down to one scalar.
fn bulk_chain(t: &mut Tape, g: &Gen) -> Ast {
    let n = if t.chance(1, 2) { t.range(8, 70) } else { t.range(70, 400) };
    let style = t.draw(3);
    let mut a = scalar(t, &g.slim());
    for _ in 0..n {
        let obj = match style {
            0 => false,
            1 => true,
            _ => t.chance(1, 2),
        };
        a = if obj { Ast::Obj(vec![((*t.pick(&["a", "b", "next", "", "\n"])).to_owned(), a)]) } else { Ast::Arr(vec![a]) };
        if t.chance(1, 30) {
            let e = scalar(t, &g.slim());
            match &mut a {
                Ast::Arr(v) => v.insert(0, e),
                Ast::Obj(v) => v.push(("last".to_owned(), e)),
                _ => {}
            }
        }
    }
    a
}

/// A number with hundreds of digits, well within range.
fn bulk_number(t: &mut Tape) -> Ast {
    let n = t.range(30, 900);
    let mut d: String = if t.chance(1, 2) { (0..n).map(|_| (b'0' + t.below(10) as u8) as char).collect() } else { t.pick(&["0", "9", "12", "0000000005"]).repeat(n / 2 + 1) };
    let minus = if t.chance(1, 3) { "-" } else { "" };
    if t.chance(1, 2) {
        d.truncate(n);
        return Ast::Raw(format!("{minus}{}.{d}", t.below(3)));
    }
    if t.chance(1, 3) {
        // Zeros after the point, and an exponent that makes up for them.
        let e = n as i32 + t.range(0, 40) as i32 - 20;
        return Ast::Raw(format!("{minus}0.{}{}e{}{e}", "0".repeat(n), t.range(1, 99_999), t.pick(&["", "+"])));
    }
    Ast::Raw(format!("{minus}1{d}e-{}", d.len() - t.below(8)))
}

fn text(t: &mut Tape, g: &Gen) -> String {
    if t.chance(g.bulk, 1000) {
        bulk_string(t)
    } else {
        string(t)
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'z', 'A', '0', '9', ' ', '"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\u{0}', '\u{1}', '\u{b}', '\u{e}', '\u{1f}', '\u{7f}', '\u{80}',
    '\u{9f}', 'é', '\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{fdd0}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}',
    '\u{10ffff}', '{', '}', '[', ']', ':', ',', '\'', '%', '\u{1b}', 'u', 'n', 't', '<', '&', '\u{300}', '中',
];

pub fn any_char(t: &mut Tape) -> char {
    *t.pick(CHARS)
}

pub fn string(t: &mut Tape) -> String {
    let n = match t.draw(16) {
        0 => 0,
        1..=9 => t.below(6),
        10..=13 => t.below(20),
        14 => t.range(20, 80),
        _ => t.range(7, 9) + 8 * t.below(4),
    };
    let ascii = t.chance(1, 2);
    (0..n)
        .map(|_| {
            if ascii {
                (b'a' + t.below(26) as u8) as char
            } else if t.chance(7, 8) {
                *t.pick(CHARS)
            } else {
                char::from_u32(t.draw(0x11_0000) as u32).unwrap_or('\u{fffd}')
            }
        })
        .collect()
}

pub fn int(t: &mut Tape, lo: i128, hi: i128) -> i128 {
    let v = match t.draw(6) {
        0 => t.below(10) as i128,
        1 => lo + t.below(3) as i128,
        2 => hi - t.below(3) as i128,
        3 => {
            let b = t.below(64);
            let e = (1i128 << b) + t.below(3) as i128 - 1;
            if t.chance(1, 3) {
                -e
            } else {
                e
            }
        }
        4 => {
            let p = 10i128.pow(t.below(20) as u32) + t.below(3) as i128 - 1;
            if t.chance(1, 3) {
                -p
            } else {
                p
            }
        }
        _ => i128::from(t.u64() as i64),
    };
    if v < lo || v > hi {
        let span = (hi - lo + 1) as u128;
        lo + ((v - lo).rem_euclid(span as i128)).min(hi - lo)
    } else {
        v
    }
}
pub fn int_ast(v: i128) -> Ast {
    Ast::Num(if v < 0 { Num::I(v as i64) } else { Num::U(v as u64) })
}

pub fn float(t: &mut Tape) -> f64 {
    match t.draw(8) {
        0 => t.below(1000) as f64 / 8.0,
        1 => *t.pick(&[
            0.0,
            -0.0,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            -5e-324,
            f64::EPSILON,
            1e21,
            1e-7,
            1e16,
            123456789012345680.0,
            9007199254740993.0,
            9223372036854775807.0,
            18446744073709551615.0,
            0.1,
            0.3,
            2.2250738585072011e-308,
            1.7976931348623157e308,
            4.35,
            1e23,
            -1.5,
        ]),
        2 => -(t.below(100_000) as f64) / 1000.0,
        3 => {
            let e = t.below(600) as i32 - 300;
            format!("{}e{e}", t.below(1 << 20)).parse().unwrap_or(1.5)
        }
        _ => {
            let f = f64::from_bits(t.u64());
            if f.is_finite() {
                f
            } else {
                1.5
            }
        }
    }
}

pub fn raw_number(t: &mut Tape) -> Ast {
    let mut s = String::new();
    if t.chance(1, 3) {
        s.push('-');
    }
    let digits = |t: &mut Tape, s: &mut String, n: usize| {
        for _ in 0..n {
            s.push((b'0' + t.below(10) as u8) as char);
        }
    };
    if t.chance(1, 4) {
        s.push('0');
    } else {
        s.push((b'1' + t.below(9) as u8) as char);
        let n = match t.draw(4) {
            0 => 0,
            1 => t.below(6),
            2 => t.range(15, 21),
            _ => t.below(40),
        };
        digits(t, &mut s, n);
    }
    if t.chance(1, 2) {
        s.push('.');
        let n = 1 + t.size(30);
        digits(t, &mut s, n);
    }
    if t.chance(1, 2) {
        s.push(*t.pick(&['e', 'E']));
        match t.draw(3) {
            0 => {}
            1 => s.push('+'),
            _ => s.push('-'),
        }
        let e = match t.draw(6) {
            0 => t.below(10).to_string(),
            1 => t.below(400).to_string(),
            2 => format!("0{}", t.below(20)),
            3 => (290 + t.below(40)).to_string(),
            4 => "99999999999999999999".to_owned(),
            _ => (2147483640u64 + t.draw(20)).to_string(),
        };
        s.push_str(&e);
    }
    Ast::Raw(s)
}

pub fn scalar(t: &mut Tape, g: &Gen) -> Ast {
    match t.draw(8) {
        0 => Ast::Null,
        1 => Ast::Bool(t.chance(1, 2)),
        2 | 3 => int_ast(int(t, i128::from(i64::MIN), i128::from(u64::MAX))),
        4 => num_f(t, g),
        5 if !g.plain => {
            if t.chance(g.bulk, 1000) {
                return bulk_number(t);
            }
            let r = raw_number(t);
            // A number beyond the range makes the whole document unreadable: seldom.
            match &r {
                Ast::Raw(s) if !s.parse::<f64>().is_ok_and(f64::is_finite) && !t.chance(1, 60) => Ast::Raw("1.50e-03".to_owned()),
                _ => r,
            }
        }
        _ => Ast::Str(text(t, g)),
    }
}
fn num_f(t: &mut Tape, g: &Gen) -> Ast {
    if g.no_float {
        int_ast(int(t, -1000, 1000))
    } else {
        Ast::Num(Num::F(float(t)))
    }
}

pub fn any_key(t: &mut Tape) -> String {
    match t.draw(8) {
        0..=4 => (*t.pick(&["a", "b", "c", "id", "name", "next", "", "x y", "type", "A", "é"])).to_owned(),
        5 => t.below(30).to_string(),
        _ => string(t),
    }
}

pub fn any(t: &mut Tape, depth: usize, g: &Gen) -> Ast {
    if depth == 0 {
        return scalar(t, g);
    }
    if t.chance(g.bulk, 1000) {
        if t.chance(1, 2) {
            return bulk_chain(t, g);
        }
        let n = bulk_len(t);
        let g = g.slim();
        return if t.chance(2, 3) { Ast::Arr((0..n).map(|_| scalar(t, &g)).collect()) } else { members(t, n, &g, any_key, |t| scalar(t, &g), &|s| Some(s.to_owned())) };
    }
    match t.draw(5) {
        0 | 1 => scalar(t, g),
        2 | 3 => {
            let n = t.size(g.width);
            Ast::Arr((0..n).map(|_| any(t, depth - 1, g)).collect())
        }
        _ => {
            let n = t.size(g.width);
            let mut v: Vec<(String, Ast)> = Vec::new();
            for _ in 0..n {
                let k = any_key(t);
                let e = any(t, depth - 1, g);
                if g.dup > 0 || !v.iter().any(|(q, _)| *q == k) {
                    v.push((k, e));
                }
            }
            Ast::Obj(v)
        }
    }
}

fn gen_key(k: K, t: &mut Tape, g: &Gen) -> String {
    if g.wild > 0 && t.chance(g.wild, 3000) {
        return any_key(t);
    }
    match k {
        K::Str | K::Probe if t.chance(g.bulk, 1000) => bulk_string(t),
        K::Str | K::Probe => any_key(t),
        K::Bool => (*t.pick(&["false", "true"])).to_owned(),
        K::Char => {
            if t.chance(1, 2) {
                t.pick(CHARS).to_string()
            } else {
                ((b'a' + t.below(4) as u8) as char).to_string()
            }
        }
        K::Int(lo, hi) => {
            let (lo, hi) = (lo.max(-(1 << 100)), hi.min(1 << 100));
            let v = if t.chance(1, 2) { (t.below(8) as i128).clamp(lo, hi) } else { int(t, lo, hi) };
            if g.dup > 0 && v >= 0 && t.chance(1, 8) {
                format!("{}{v}", t.pick(&["+", "0", "00"]))
            } else {
                v.to_string()
            }
        }
        K::Fold => {
            let s: String = (0..t.below(3)).map(|_| *t.pick(&['a', 'A', 'b', 'B', 'Z'])).collect();
            s
        }
    }
}

/// A document for the type. With `wild == 0` the type accepts it.
pub fn gen(s: &S, t: &mut Tape, depth: usize, g: &Gen) -> Ast {
    if g.wild > 0 && t.chance(g.wild, 1000) {
        if t.chance(1, 2) {
            return near(s, t, depth.min(2), g);
        }
        return any(t, depth.min(2), g);
    }
    let small = depth == 0;
    let mut d = depth.saturating_sub(1);
    let lean = g.slim();
    let mut g = g;
    let mut len = |t: &mut Tape| {
        if !t.chance(g.bulk, 1000) {
            return if small { t.below(2) } else { t.size(g.width) };
        }
        // Many elements, each of them small.
        g = &lean;
        d = 0;
        bulk_len(t)
    };
    let n = match s {
        S::Vec(i) | S::PVec(i) | S::Map(_, i, _) if small && matches!(**i, S::Lazy(_) | S::Boxed(_)) => 0,
        S::Vec(_) | S::PVec(_) | S::Map(..) | S::PMap(_) | S::VArr | S::VObj => len(t),
        _ => 0,
    };
    match s {
        S::Unit => Ast::Null,
        S::Bool => Ast::Bool(t.chance(1, 2)),
        S::Str => Ast::Str(text(t, g)),
        S::Int(lo, hi) => int_ast(int(t, *lo, *hi)),
        S::Level(_) => int_ast(int(t, 0, i128::from(u32::MAX))),
        S::F64 => match t.draw(6) {
            0 => int_ast(int(t, i128::from(i64::MIN), i128::from(u64::MAX))),
            1 if !g.plain => safe_raw(t, g),
            _ => num_f(t, g),
        },
        S::F32 => match t.draw(4) {
            0 => int_ast(int(t, -1 << 24, 1 << 24)),
            _ => {
                let f = f32::from_bits(t.draw(1 << 32) as u32);
                Ast::Num(Num::F32(if f.is_finite() { f } else { 0.5 }))
            }
        },
        S::Boxed(i) => gen(i, t, depth, g),
        S::Opt(i) => {
            if (small && matches!(**i, S::Boxed(_) | S::Lazy(_))) || t.chance(1, 3) {
                Ast::Null
            } else {
                gen(i, t, depth, g)
            }
        }
        S::Pair(a, b) => Ast::Arr(vec![gen(a, t, d, g), gen(b, t, d, g)]),
        S::Vec(i) | S::PVec(i) => {
            Ast::Arr((0..n).map(|_| gen(i, t, d, g)).collect())
        }
        S::Arr(n, i) => {
            let m = if g.wild > 0 && t.chance(g.wild, 1000) { t.below(*n + 3) } else { *n };
            Ast::Arr((0..m).map(|_| gen(i, t, d, g)).collect())
        }
        S::Map(k, i, _) => {
            members(t, n, g, |t| gen_key(*k, t, g), |t| gen(i, t, d, g), &|s| key_model(*k, s).map(|k| key_text(&k)))
        }
        S::PMap(i) => {
            members(t, n, g, any_key, |t| gen(i, t, d, g), &|s| Some(s.to_owned()))
        }
        S::Value | S::Probe => any(t, depth, g),
        S::VArr => {
            Ast::Arr((0..n).map(|_| any(t, d, g)).collect())
        }
        S::VObj => {
            members(t, n, g, any_key, |t| any(t, d, g), &|s| Some(s.to_owned()))
        }
        S::Number => match t.draw(3) {
            0 => num_f(t, g),
            1 if !g.plain => safe_raw(t, g),
            _ => int_ast(int(t, i128::from(i64::MIN), i128::from(u64::MAX))),
        },
        S::Struct(fs) => {
            let mut v = Vec::new();
            for (name, f) in fs.iter() {
                if missing(f).is_some() && g.unknown > 0 && t.chance(1, 4) {
                    continue;
                }
                if g.wild > 0 && t.chance(g.wild, 2000) {
                    continue;
                }
                if g.dup > 0 && t.chance(g.dup, 1000) {
                    v.push(((*name).to_owned(), gen(f, t, d, g)));
                }
                v.push(((*name).to_owned(), gen(f, t, d, g)));
            }
            if g.unknown > 0 {
                if t.chance(1, 3) {
                    shuffle(t, &mut v);
                }
                while t.chance(g.unknown, 1000) {
                    let at = t.below(v.len() + 1);
                    let mut k = any_key(t);
                    if t.chance(1, 2) && !fs.is_empty() {
                        // A name close to a real one.
                        k = t.pick(fs).0.to_owned();
                        match t.draw(9) {
                            0 => k.push('x'),
                            1 => k = k.to_uppercase(),
                            2 => k = format!("r#{k}"),
                            3 => k.push(' '),
                            4 => k.insert(0, ' '),
                            5 => k.push('\0'),
                            6 => k = k.replace('_', "-"),
                            7 => {
                                let mut it = k.chars();
                                k = it.next().map_or(String::new(), |c| c.to_uppercase().chain(it).collect());
                            }
                            _ => {
                                k.pop();
                            }
                        }
                    }
                    if fs.iter().any(|(n, _)| *n == k) {
                        break;
                    }
                    let e = any(t, d.min(3), g);
                    v.insert(at, (k, e));
                }
            }
            Ast::Obj(v)
        }
        S::Enum(vs) => Ast::Str((*t.pick(vs)).to_owned()),
        S::Lazy(f) => gen(&f(), t, depth, g),
    }
}

/// What a lenient reader might take for a value of the type; the type does not accept most of these.
fn near(s: &S, t: &mut Tape, depth: usize, g: &Gen) -> Ast {
    let mut s = s.clone();
    loop {
        s = match s {
            S::Lazy(f) => f(),
            S::Boxed(i) | S::Opt(i) if t.chance(1, 2) => (*i).clone(),
            x => break s = x,
        }
    }
    let tame = Gen { wild: 0, bulk: 0, ..*g };
    let ok = gen(&s, t, depth, &tame);
    let wrap = |t: &mut Tape, a: Ast| match t.draw(3) {
        0 => Ast::Arr(vec![a]),
        1 => Ast::Obj(vec![(any_key(t), a)]),
        _ => Ast::Obj(vec![("value".to_owned(), a)]),
    };
    if t.chance(1, 6) {
        return wrap(t, ok);
    }
    let text = |a: &Ast| match a {
        Ast::Num(Num::U(n)) => n.to_string(),
        Ast::Num(Num::I(n)) => n.to_string(),
        Ast::Num(Num::F(f)) => format!("{f:?}"),
        Ast::Num(Num::F32(f)) => format!("{f:?}"),
        Ast::Bool(b) => b.to_string(),
        Ast::Raw(s) | Ast::Str(s) => s.clone(),
        _ => "null".to_owned(),
    };
    match (&s, ok) {
        (S::Enum(vs), _) => {
            let i = t.below(vs.len());
            let v = vs[i];
            let mut it = v.chars();
            Ast::Str(match t.draw(11) {
                0 => v.to_uppercase(),
                1 => v.to_lowercase(),
                2 => it.next().map_or(String::new(), |c| c.to_lowercase().chain(it).collect()),
                3 => it.next().map_or(String::new(), |c| c.to_uppercase().chain(it).collect()),
                4 => format!(" {v}"),
                5 => format!("{v} "),
                6 => format!("{v}\0"),
                7 => v.chars().rev().skip(1).collect::<String>().chars().rev().collect(),
                8 => format!("{v}{v}"),
                9 => return Ast::Num(Num::U(i as u64)),
                _ => return Ast::Obj(vec![(v.to_owned(), Ast::Null)]),
            })
        }
        (S::Bool, ok) => match t.draw(3) {
            0 => Ast::Num(Num::U(t.draw(2))),
            1 => Ast::Str(text(&ok)),
            _ => Ast::Null,
        },
        (S::Unit, _) => t.pick(&[Ast::Arr(vec![]), Ast::Obj(vec![]), Ast::Bool(false), Ast::Num(Num::U(0)), Ast::Str(String::new()), Ast::Str("null".to_owned())]).clone(),
        (S::Int(lo, hi), _) => match t.draw(5) {
            0 => Ast::Str(int(t, *lo, *hi).to_string()),
            1 => Ast::Raw(format!("{}.0", t.below(120))),
            2 => Ast::Raw(format!("{}e0", t.below(120))),
            3 => Ast::Raw(lo.saturating_sub(1).max(-(1 << 63)).to_string()),
            _ => Ast::Raw(hi.saturating_add(1).min((1 << 64) - 1).to_string()),
        },
        (S::Level(_) | S::F32 | S::F64 | S::Number, ok) => match t.draw(4) {
            0 | 1 => Ast::Str(text(&ok)),
            2 => Ast::Null,
            _ => Ast::Str((*t.pick(&["NaN", "inf", "-Infinity", "", "0x10"])).to_owned()),
        },
        (S::Str, _) => match t.draw(5) {
            0 => Ast::Num(Num::U(t.draw(100))),
            1 => Ast::Bool(true),
            2 => Ast::Null,
            3 => Ast::Arr(vec![Ast::Str("a".to_owned()), Ast::Str("b".to_owned())]),
            _ => Ast::Arr(vec![Ast::Num(Num::U(104)), Ast::Num(Num::U(105))]),
        },
        (S::Opt(_), ok) => t.pick(&[Ast::Arr(vec![]), Ast::Obj(vec![]), Ast::Str(String::new()), Ast::Bool(false), Ast::Obj(vec![("Some".to_owned(), ok)]), Ast::Str("None".to_owned())]).clone(),
        // A single element for a sequence, an object with indices for it, and the other way round.
        (S::Pair(..) | S::Arr(..) | S::Vec(_) | S::PVec(_) | S::VArr, Ast::Arr(mut v)) => match t.draw(6) {
            0 => v.pop().unwrap_or(Ast::Null),
            1 => {
                v.pop();
                Ast::Arr(v)
            }
            2 => {
                v.push(any(t, 1, g));
                Ast::Arr(v)
            }
            3 => {
                v.push(Ast::Null);
                Ast::Arr(v)
            }
            4 => Ast::Null,
            _ => Ast::Obj(v.into_iter().enumerate().map(|(i, e)| (i.to_string(), e)).collect()),
        },
        (_, Ast::Obj(v)) => match t.draw(4) {
            0 => Ast::Arr(v.into_iter().map(|(_, e)| e).collect()),
            1 => Ast::Arr(v.into_iter().map(|(k, e)| Ast::Arr(vec![Ast::Str(k), e])).collect()),
            2 => Ast::Arr(vec![Ast::Obj(v)]),
            _ => Ast::Null,
        },
        (_, ok) => wrap(t, ok),
    }
}

fn safe_raw(t: &mut Tape, g: &Gen) -> Ast {
    if t.chance(g.bulk, 1000) {
        let Ast::Raw(s) = bulk_number(t) else { unreachable!() };
        let p = crate::refjson::parse(&s);
        if p.ast.is_ok() && !p.grey {
            return Ast::Raw(s);
        }
    }
    for _ in 0..4 {
        let r = raw_number(t);
        if let Ast::Raw(s) = &r {
            let p = crate::refjson::parse(s);
            if p.ast.is_ok() && !p.grey {
                return r;
            }
        }
    }
    Ast::Raw("1E+2".to_owned())
}

fn members(
    t: &mut Tape,
    n: usize,
    g: &Gen,
    mut key: impl FnMut(&mut Tape) -> String,
    mut val: impl FnMut(&mut Tape) -> Ast,
    canon: &dyn Fn(&str) -> Option<String>,
) -> Ast {
    let mut v: Vec<(String, Ast)> = Vec::new();
    for _ in 0..n {
        let k = if g.dup > 0 && !v.is_empty() && t.chance(g.dup, 1000) { t.pick(&v).0.clone() } else { key(t) };
        let e = val(t);
        if g.dup > 0 || !v.iter().any(|(q, _)| canon(q) == canon(&k)) {
            v.push((k, e));
        }
    }
    Ast::Obj(v)
}

pub fn shuffle<T>(t: &mut Tape, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = i - t.below(i + 1);
        v.swap(i, j);
    }
}

// ---------------------------------------------------------------- types

pub trait Zoo: Deserialize + Serialize + Sized + 'static {
    fn schema() -> S;
    /// From the canonical form that `decode` yields.
    fn build(a: &Ast) -> Self;
    fn ast(&self) -> Ast;
}

macro_rules! zoo_simple {
    ($ty:ty, $s:expr, |$a:ident| $b:expr, |$v:ident| $r:expr) => {
        impl Zoo for $ty {
            fn schema() -> S {
                $s
            }
            fn build($a: &Ast) -> Self {
                $b
            }
            fn ast(&self) -> Ast {
                let $v = self;
                $r
            }
        }
    };
}
fn bad<T>(a: &Ast) -> T {
    panic!("harness: cannot build from {a:?}")
}
fn vi(a: &Ast) -> i128 {
    match a {
        Ast::Num(Num::U(n)) => i128::from(*n),
        Ast::Num(Num::I(n)) => i128::from(*n),
        _ => bad(a),
    }
}
fn arr(a: &Ast) -> &[Ast] {
    match a {
        Ast::Arr(v) => v,
        _ => bad(a),
    }
}
fn obj(a: &Ast) -> &[(String, Ast)] {
    match a {
        Ast::Obj(v) | Ast::Set(v) => v,
        _ => bad(a),
    }
}
fn st(a: &Ast) -> &str {
    match a {
        Ast::Str(s) => s,
        _ => bad(a),
    }
}
zoo_simple!((), S::Unit, |_a| (), |_v| Ast::Null);
zoo_simple!(bool, S::Bool, |a| *a == Ast::Bool(true), |v| Ast::Bool(*v));
zoo_simple!(String, S::Str, |a| st(a).to_owned(), |v| Ast::Str(v.to_owned()));
macro_rules! zoo_int {
    ($($t:ident)*) => {$(
        zoo_simple!($t, S::Int($t::MIN as i128, $t::MAX as i128), |a| vi(a) as $t, |v| int_ast(*v as i128));
    )*};
}
zoo_int!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
zoo_simple!(
    f64,
    S::F64,
    |a| match a {
        Ast::Num(Num::F(f)) => *f,
        Ast::Num(Num::U(n)) => *n as f64,
        Ast::Num(Num::I(n)) => *n as f64,
        _ => bad(a),
    },
    |v| Ast::Num(Num::F(*v))
);
zoo_simple!(
    f32,
    S::F32,
    |a| match a {
        Ast::Num(Num::F32(f)) => *f,
        Ast::Num(Num::F(f)) => *f as f32,
        Ast::Num(Num::U(n)) => *n as f32,
        Ast::Num(Num::I(n)) => *n as f32,
        _ => bad(a),
    },
    |v| Ast::Num(Num::F32(*v))
);

fn r<T: Zoo>() -> Rc<S> {
    Rc::new(T::schema())
}
impl<T: Zoo> Zoo for Box<T> {
    fn schema() -> S {
        S::Boxed(r::<T>())
    }
    fn build(a: &Ast) -> Self {
        Box::new(T::build(a))
    }
    fn ast(&self) -> Ast {
        (**self).ast()
    }
}
impl<T: Zoo> Zoo for Option<T> {
    fn schema() -> S {
        S::Opt(r::<T>())
    }
    fn build(a: &Ast) -> Self {
        match a {
            Ast::Null => None,
            a => Some(T::build(a)),
        }
    }
    fn ast(&self) -> Ast {
        match self {
            None => Ast::Null,
            Some(v) => v.ast(),
        }
    }
}
impl<A: Zoo, B: Zoo> Zoo for (A, B) {
    fn schema() -> S {
        S::Pair(r::<A>(), r::<B>())
    }
    fn build(a: &Ast) -> Self {
        (A::build(&arr(a)[0]), B::build(&arr(a)[1]))
    }
    fn ast(&self) -> Ast {
        Ast::Arr(vec![self.0.ast(), self.1.ast()])
    }
}
impl<T: Zoo> Zoo for Vec<T> {
    fn schema() -> S {
        S::Vec(r::<T>())
    }
    fn build(a: &Ast) -> Self {
        arr(a).iter().map(T::build).collect()
    }
    fn ast(&self) -> Ast {
        Ast::Arr(self.iter().map(T::ast).collect())
    }
}
impl<T: Zoo, const N: usize> Zoo for [T; N] {
    fn schema() -> S {
        S::Arr(N, r::<T>())
    }
    fn build(a: &Ast) -> Self {
        std::array::from_fn(|i| T::build(&arr(a)[i]))
    }
    fn ast(&self) -> Ast {
        Ast::Arr(self.iter().map(T::ast).collect())
    }
}

pub trait ZKey: FromStr + ToString + Hash + Eq + Ord + 'static {
    fn kind() -> K;
    fn make(s: &str) -> Self;
    fn text(&self) -> String;
}
macro_rules! zkey {
    ($($t:ident $k:expr;)*) => {$(
        impl ZKey for $t {
            fn kind() -> K { $k }
            fn make(s: &str) -> Self { s.parse().ok().expect("harness: key") }
            fn text(&self) -> String { self.to_string() }
        }
    )*};
}
zkey! {
    String K::Str; bool K::Bool; char K::Char;
    u8 K::Int(0, 255); i32 K::Int(i32::MIN as i128, i32::MAX as i128); u64 K::Int(0, u64::MAX as i128); i128 K::Int(i128::MIN, i128::MAX);
}
impl ZKey for PKey {
    fn kind() -> K {
        K::Probe
    }
    fn make(s: &str) -> Self {
        PKey::of(s)
    }
    fn text(&self) -> String {
        self.s.clone()
    }
}

/// A key that is compared without regard to case and written in lower case.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Fold(String);
impl FromStr for Fold {
    type Err = ();
    fn from_str(s: &str) -> std::result::Result<Self, ()> {
        Ok(Fold(s.to_ascii_lowercase()))
    }
}
impl std::fmt::Display for Fold {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl ZKey for Fold {
    fn kind() -> K {
        K::Fold
    }
    fn make(s: &str) -> Self {
        s.parse().unwrap()
    }
    fn text(&self) -> String {
        self.0.clone()
    }
}

/// The simulated hasher: seed and collision pattern are set by the simulator per node.
#[derive(Clone)]
pub struct SimHash(u64, u8);
thread_local! { static HASHER: Cell<(u64, u8)> = const { Cell::new((0, 0)) }; }
pub fn get_hasher() -> (u64, u8) {
    HASHER.with(Cell::get)
}
pub fn set_hasher(seed: u64, mode: u8) {
    HASHER.with(|h| h.set((seed, mode)));
}
impl Default for SimHash {
    fn default() -> Self {
        let (s, m) = HASHER.with(Cell::get);
        SimHash(s, m)
    }
}
impl BuildHasher for SimHash {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher(self.0, self.1)
    }
}
pub struct SimHasher(u64, u8);
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x100_0000_01b3).rotate_left(29);
        }
    }
    fn finish(&self) -> u64 {
        let mut s = self.0;
        let h = crate::tape::splitmix(&mut s);
        match self.1 {
            0 => h,
            1 => 0,                       // everything collides
            2 => u64::MAX,                // everything collides, other bucket
            3 => h & 0x3,                 // few buckets, one tag
            4 => h & 0xfe00_0000_0000_0000, // one bucket, many tags
            _ => h & 0xff,
        }
    }
}

impl<Q: ZKey, T: Zoo> Zoo for HashMap<Q, T, SimHash> {
    fn schema() -> S {
        S::Map(Q::kind(), r::<T>(), false)
    }
    fn build(a: &Ast) -> Self {
        obj(a).iter().map(|(k, v)| (Q::make(k), T::build(v))).collect()
    }
    fn ast(&self) -> Ast {
        Ast::Set(self.iter().map(|(k, v)| (k.text(), v.ast())).collect())
    }
}
/// With the hasher every user has.
impl<Q: ZKey, T: Zoo> Zoo for HashMap<Q, T> {
    fn schema() -> S {
        S::Map(Q::kind(), r::<T>(), false)
    }
    fn build(a: &Ast) -> Self {
        obj(a).iter().map(|(k, v)| (Q::make(k), T::build(v))).collect()
    }
    fn ast(&self) -> Ast {
        Ast::Set(self.iter().map(|(k, v)| (k.text(), v.ast())).collect())
    }
}
impl<Q: ZKey, T: Zoo> Zoo for BTreeMap<Q, T> {
    fn schema() -> S {
        S::Map(Q::kind(), r::<T>(), true)
    }
    fn build(a: &Ast) -> Self {
        obj(a).iter().map(|(k, v)| (Q::make(k), T::build(v))).collect()
    }
    fn ast(&self) -> Ast {
        Ast::Obj(self.iter().map(|(k, v)| (k.text(), v.ast())).collect())
    }
}

pub fn number_ast(n: &Number) -> Ast {
    Ast::Num(match n {
        Number::U64(n) => Num::U(*n),
        Number::I64(n) => Num::I(*n),
        Number::F64(n) => Num::F(*n),
    })
}
pub fn number_build(a: &Ast) -> Number {
    match a {
        Ast::Num(Num::U(n)) => Number::U64(*n),
        Ast::Num(Num::I(n)) => Number::I64(*n),
        Ast::Num(Num::F(n)) => Number::F64(*n),
        Ast::Num(Num::F32(n)) => Number::F64(f64::from(*n)),
        _ => bad(a),
    }
}
pub fn value_ast(v: &Value) -> Ast {
    match v {
        Value::Null => Ast::Null,
        Value::Bool(b) => Ast::Bool(*b),
        Value::Number(n) => number_ast(n),
        Value::String(s) => Ast::Str(s.clone()),
        Value::Array(a) => Ast::Arr(a.iter().map(value_ast).collect()),
        Value::Object(o) => Ast::Obj(o.iter().map(|(k, v)| (k.clone(), value_ast(v))).collect()),
    }
}
pub fn value_build(a: &Ast) -> Value {
    match a {
        Ast::Null => Value::Null,
        Ast::Bool(b) => Value::Bool(*b),
        Ast::Num(_) => Value::Number(number_build(a)),
        Ast::Str(s) => Value::String(s.clone()),
        Ast::Arr(v) => {
            let mut x = Array::new();
            for e in v {
                x.push(value_build(e));
            }
            Value::Array(x)
        }
        Ast::Obj(v) | Ast::Set(v) => {
            let mut x = Object::new();
            for (k, e) in v {
                x.insert(k.clone(), value_build(e));
            }
            Value::Object(x)
        }
        Ast::Raw(_) => bad(a),
    }
}
zoo_simple!(Value, S::Value, |a| value_build(a), |v| value_ast(v));
zoo_simple!(Number, S::Number, |a| number_build(a), |v| number_ast(v));
zoo_simple!(Array, S::VArr, |a| arr(a).iter().map(value_build).collect(), |v| Ast::Arr(v.iter().map(value_ast).collect()));
zoo_simple!(
    Object,
    S::VObj,
    |a| obj(a).iter().map(|(k, v)| (k.clone(), value_build(v))).collect(),
    |v| Ast::Obj(v.iter().map(|(k, v)| (k.clone(), value_ast(v))).collect())
);

fn probe_ast(p: &Probe) -> Ast {
    match &p.v {
        PV::Null => Ast::Null,
        PV::Bool(b) => Ast::Bool(*b),
        PV::Str(s) => Ast::Str(s.clone()),
        PV::Neg(n) => Ast::Num(Num::I(*n)),
        PV::Pos(n) => Ast::Num(Num::U(*n)),
        PV::Float(n) => Ast::Num(Num::F(*n)),
        PV::Seq(v) => Ast::Arr(v.iter().map(probe_ast).collect()),
        PV::Map(v) => Ast::Obj(v.iter().map(|(k, v)| (k.clone(), probe_ast(v))).collect()),
    }
}
fn probe_build(a: &Ast) -> Probe {
    Probe::new(match a {
        Ast::Null => PV::Null,
        Ast::Bool(b) => PV::Bool(*b),
        Ast::Num(Num::U(n)) => PV::Pos(*n),
        Ast::Num(Num::I(n)) => PV::Neg(*n),
        Ast::Num(Num::F(n)) => PV::Float(*n),
        Ast::Num(Num::F32(n)) => PV::Float(f64::from(*n)),
        Ast::Str(s) => PV::Str(s.clone()),
        Ast::Arr(v) => PV::Seq(v.iter().map(probe_build).collect()),
        Ast::Obj(v) | Ast::Set(v) => PV::Map(v.iter().map(|(k, v)| (k.clone(), probe_build(v))).collect()),
        Ast::Raw(_) => bad(a),
    })
}
zoo_simple!(Probe, S::Probe, |a| probe_build(a), |v| probe_ast(v));

// ---------------------------------------------------------------- user containers around any type

/// A hand-written sequence type that records its callbacks and owns a token.
pub struct PVec<T> {
    tok: sim::Tok,
    v: Vec<T>,
}
impl<T> Drop for PVec<T> {
    fn drop(&mut self) {
        self.tok.check("destructor of a user sequence");
        part::drop_cb("user sequence");
    }
}
make_place!(Place);
impl<T: Deserialize> Deserialize for PVec<T> {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        impl<T: Deserialize> Visitor for Place<PVec<T>> {
            fn seq(&mut self) -> Result<Box<dyn DeSeq + '_>> {
                if part::cb(Ev::Seq).map_err(|()| Error)? == part::Go::Skip {
                    return <dyn Visitor>::ignore().seq();
                }
                Ok(Box::new(PVecB { tok: sim::Tok::new(), id: part::open(), out: &mut self.out, e: None, acc: Vec::new() }))
            }
        }
        Place::new(out)
    }
}
struct PVecB<'a, T> {
    tok: sim::Tok,
    id: u32,
    out: &'a mut Option<PVec<T>>,
    e: Option<T>,
    acc: Vec<T>,
}
impl<'a, T: Deserialize> DeSeq for PVecB<'a, T> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.tok.check("element() of a user sequence builder");
        if let Some(e) = self.e.take() {
            self.acc.push(e);
        }
        match part::cb(Ev::Elem).map_err(|()| Error)? {
            part::Go::Write => Ok(Deserialize::begin(&mut self.e)),
            part::Go::Skip => Ok(<dyn Visitor>::ignore()),
        }
    }
    fn finish(&mut self) -> Result<()> {
        self.tok.check("finish() of a user sequence builder");
        if let Some(e) = self.e.take() {
            self.acc.push(e);
        }
        if part::cb(Ev::SeqEnd).map_err(|()| Error)? == part::Go::Write {
            *self.out = Some(PVec { tok: sim::Tok::new(), v: std::mem::take(&mut self.acc) });
        }
        Ok(())
    }
}
impl<'a, T> Drop for PVecB<'a, T> {
    fn drop(&mut self) {
        self.tok.check("destructor of a user sequence builder");
        if let Some(o) = self.out.as_ref() {
            o.tok.check("the slot a user sequence builder writes to");
        }
        part::close(self.id, "user sequence builder");
        part::drop_cb("user sequence builder");
    }
}
impl<T: Serialize> Serialize for PVec<T> {
    fn begin(&self) -> Fragment<'_> {
        self.tok.check("serialized user sequence");
        self.v.begin()
    }
}
impl<T: Zoo> Zoo for PVec<T> {
    fn schema() -> S {
        S::PVec(r::<T>())
    }
    fn build(a: &Ast) -> Self {
        PVec { tok: sim::Tok::new(), v: Vec::build(a) }
    }
    fn ast(&self) -> Ast {
        self.v.ast()
    }
}

/// A hand-written map type that keeps every member in order.
pub struct PMap<T> {
    tok: sim::Tok,
    v: Vec<(String, T)>,
}
impl<T> Drop for PMap<T> {
    fn drop(&mut self) {
        self.tok.check("destructor of a user map");
        part::drop_cb("user map");
    }
}
impl<T: Deserialize> Deserialize for PMap<T> {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        impl<T: Deserialize> Visitor for Place<PMap<T>> {
            fn map(&mut self) -> Result<Box<dyn DeMap + '_>> {
                if part::cb(Ev::Map).map_err(|()| Error)? == part::Go::Skip {
                    return <dyn Visitor>::ignore().map();
                }
                Ok(Box::new(PMapB { tok: sim::Tok::new(), id: part::open(), out: &mut self.out, k: None, e: None, acc: Vec::new() }))
            }
        }
        Place::new(out)
    }
}
struct PMapB<'a, T> {
    tok: sim::Tok,
    id: u32,
    out: &'a mut Option<PMap<T>>,
    k: Option<String>,
    e: Option<T>,
    acc: Vec<(String, T)>,
}
impl<'a, T> PMapB<'a, T> {
    fn shift(&mut self) {
        if let (Some(k), Some(e)) = (self.k.take(), self.e.take()) {
            self.acc.push((k, e));
        }
    }
}
impl<'a, T: Deserialize> DeMap for PMapB<'a, T> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.tok.check("key() of a user map builder");
        self.shift();
        let own = {
            let _p = sim::pause();
            k.to_owned()
        };
        let go = part::cb(Ev::Key(own)).map_err(|()| Error)?;
        self.k = Some(k.to_owned());
        match go {
            part::Go::Write => Ok(Deserialize::begin(&mut self.e)),
            part::Go::Skip => Ok(<dyn Visitor>::ignore()),
        }
    }
    fn finish(&mut self) -> Result<()> {
        self.tok.check("finish() of a user map builder");
        self.shift();
        if part::cb(Ev::MapEnd).map_err(|()| Error)? == part::Go::Write {
            *self.out = Some(PMap { tok: sim::Tok::new(), v: std::mem::take(&mut self.acc) });
        }
        Ok(())
    }
}
impl<'a, T> Drop for PMapB<'a, T> {
    fn drop(&mut self) {
        self.tok.check("destructor of a user map builder");
        if let Some(o) = self.out.as_ref() {
            o.tok.check("the slot a user map builder writes to");
        }
        part::close(self.id, "user map builder");
        part::drop_cb("user map builder");
    }
}
impl<T: Serialize> Serialize for PMap<T> {
    fn begin(&self) -> Fragment<'_> {
        struct It<'a, T>(std::slice::Iter<'a, (String, T)>);
        impl<'a, T: Serialize> ser::Map for It<'a, T> {
            fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
                let (k, v) = self.0.next()?;
                Some((Cow::Borrowed(k), v))
            }
        }
        self.tok.check("serialized user map");
        Fragment::Map(Box::new(It(self.v.iter())))
    }
}
impl<T: Zoo> Zoo for PMap<T> {
    fn schema() -> S {
        S::PMap(r::<T>())
    }
    fn build(a: &Ast) -> Self {
        PMap { tok: sim::Tok::new(), v: obj(a).iter().map(|(k, v)| (k.clone(), T::build(v))).collect() }
    }
    fn ast(&self) -> Ast {
        Ast::Obj(self.v.iter().map(|(k, v)| (k.clone(), v.ast())).collect())
    }
}

// ---------------------------------------------------------------- derived types

macro_rules! zoo_struct {
    ($name:ident { $($(#[$m:meta])* $f:ident : $t:ty = $w:literal),* $(,)? }) => {
        #[derive(Serialize, Deserialize)]
        pub struct $name { $($(#[$m])* pub $f: $t),* }
        impl Zoo for $name {
            fn schema() -> S {
                #[allow(unused_mut)]
                let mut v: Vec<(&'static str, S)> = Vec::new();
                $(v.push(($w, zoo_field!($t)));)*
                S::Struct(Rc::new(v))
            }
            #[allow(unused_assignments, unused_mut, unused_variables)]
            fn build(a: &Ast) -> Self {
                let mut i = 0;
                let o = obj(a);
                $name { $($f: { let x = Zoo::build(&o[i].1); i += 1; x }),* }
            }
            fn ast(&self) -> Ast {
                Ast::Obj(vec![$(($w.to_owned(), self.$f.ast())),*])
            }
        }
    };
}
macro_rules! zoo_field {
    (Option<Box<Node>>) => {
        S::Opt(Rc::new(S::Boxed(Rc::new(S::Lazy(Node::schema)))))
    };
    (Vec<Tree>) => {
        S::Vec(Rc::new(S::Lazy(Tree::schema)))
    };
    ($t:ty) => {
        <$t as Lazily>::lazily()
    };
}
/// Recursive types must not expand their schema eagerly.
trait Lazily {
    fn lazily() -> S;
}
impl<T: Zoo> Lazily for T {
    fn lazily() -> S {
        T::schema()
    }
}

zoo_struct!(Empty {});
zoo_struct!(One { a: u32 = "a" });
zoo_struct!(Point { x: i32 = "x", y: i32 = "y" });
zoo_struct!(Plain {
    id: u64 = "id",
    name: String = "name",
    on: bool = "on",
    ratio: f64 = "ratio",
    nick: Option<String> = "nick",
});
zoo_struct!(Renamed {
    #[serde(rename = "x y")]
    a: u8 = "x y",
    #[serde(rename = "")]
    b: Option<i8> = "",
    #[serde(rename = "quote\"\\\n\u{e9}\u{1f600}")]
    c: bool = "quote\"\\\n\u{e9}\u{1f600}",
    #[serde(rename = "a")]
    d: i64 = "a",
    r#type: u16 = "type",
    r#match: Option<()> = "match",
    ÿ: Option<u8> = "ÿ",
});
/// A user type with a default of its own: a missing member is not an error.
pub struct Level(u32);
make_place!(LevelPlace);
impl Visitor for LevelPlace<Level> {
    fn nonnegative(&mut self, n: u64) -> Result<()> {
        self.out = Some(Level(u32::try_from(n).map_err(|_| Error)?));
        Ok(())
    }
    fn negative(&mut self, n: i64) -> Result<()> {
        if n != 0 {
            return Err(Error);
        }
        self.out = Some(Level(0));
        Ok(())
    }
}
impl Deserialize for Level {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        LevelPlace::new(out)
    }
    fn default() -> Option<Self> {
        Some(Level(7))
    }
}
impl Serialize for Level {
    fn begin(&self) -> Fragment<'_> {
        Fragment::U64(u64::from(self.0))
    }
}
impl Zoo for Level {
    fn schema() -> S {
        S::Level(7)
    }
    fn build(a: &Ast) -> Self {
        Level(vi(a) as u32)
    }
    fn ast(&self) -> Ast {
        int_ast(i128::from(self.0))
    }
}
type Maybe<T> = std::option::Option<T>;
type Num16 = i16;
zoo_struct!(Defaults {
    a: Level = "a",
    b: Maybe<u8> = "b",
    c: std::option::Option<Level> = "c",
    d: Box<Level> = "d",
    e: Num16 = "e",
    f: Maybe<Maybe<Level>> = "f",
});
// Wire names that could be taken for one another.
zoo_struct!(Names {
    #[serde(rename = "r#type")]
    a: u8 = "r#type",
    r#type: u8 = "type",
    /// A doc comment, and another attribute, before the rename.
    #[allow(dead_code)]
    #[serde(rename = " type")]
    b: Option<u8> = " type",
    #[serde(rename = "type ")]
    c: Option<u8> = "type ",
    #[serde(rename = "Type")]
    d: Option<u8> = "Type",
    x_y: i8 = "x_y",
    #[serde(rename = "xY")]
    e: Option<i8> = "xY",
    #[serde(rename = "x-y")]
    f: Option<i8> = "x-y",
    _x: Option<bool> = "_x",
    x_: Option<bool> = "x_",
    #[serde(rename = "_")]
    g: Option<bool> = "_",
    #[serde(rename = "\u{0}")]
    h: Option<bool> = "\u{0}",
    #[serde(rename = "\u{e9}")]
    i: Option<u8> = "\u{e9}",
    #[serde(rename = "e\u{301}")]
    j: Option<u8> = "e\u{301}",
    #[serde(rename = "\\u00e9")]
    k: Option<u8> = "\\u00e9",
    #[serde(rename = "null")]
    l: Option<()> = "null",
    #[serde(rename = "0")]
    m: Option<u8> = "0",
    #[serde(rename = "a name that is much longer than the others, and keeps going for a while after that")]
    n: Option<String> = "a name that is much longer than the others, and keeps going for a while after that",
    #[serde(rename = "a name that is much longer than the others, and keeps going for a while after this")]
    o: Option<String> = "a name that is much longer than the others, and keeps going for a while after this",
    data: Option<u8> = "data",
    state: Option<u8> = "state",
    out: Option<u8> = "out",
    value: Option<u8> = "value",
    miniserde: Option<u8> = "miniserde",
});
zoo_struct!(Wide {
    f00: u8 = "f00", f01: u8 = "f01", f02: u8 = "f02", f03: u8 = "f03", f04: u8 = "f04", f05: u8 = "f05", f06: u8 = "f06", f07: u8 = "f07", f08: u8 = "f08",
    f09: Option<u8> = "f09", f10: u8 = "f10", f11: u8 = "f11", f12: u8 = "f12", f13: u8 = "f13", f14: u8 = "f14", f15: u8 = "f15", f16: u8 = "f16", f17: String = "f17",
    f18: u8 = "f18", f19: u8 = "f19", f20: u8 = "f20", f21: u8 = "f21", f22: u8 = "f22", f23: u8 = "f23", f24: u8 = "f24", f25: u8 = "f25", f26: u8 = "f26",
    f27: u8 = "f27", f28: u8 = "f28", f29: u8 = "f29", f30: u8 = "f30", f31: u8 = "f31", f32: bool = "f32", f33: Option<String> = "f33",
});
zoo_struct!(Opts {
    a: Option<u8> = "a",
    b: Option<Vec<u8>> = "b",
    c: Option<Option<bool>> = "c",
    d: Option<Point> = "d",
    e: Option<Value> = "e",
    f: Option<Box<Plain>> = "f",
    g: Option<BTreeMap<String, i32>> = "g",
    h: Option<(u8, String)> = "h",
    i: Option<[u8; 2]> = "i",
    j: Option<f32> = "j",
    k: Option<Color> = "k",
    l: Option<()> = "l",
});
zoo_struct!(Strict {
    a: Vec<u8> = "a",
    b: Box<Option<u8>> = "b",
    c: BTreeMap<String, u8> = "c",
    d: (u8, u8) = "d",
    e: [i8; 3] = "e",
    f: Color = "f",
    g: Box<Point> = "g",
    h: Value = "h",
    i: () = "i",
});
zoo_struct!(Outer {
    head: Point = "head",
    list: Vec<Plain> = "list",
    map: BTreeMap<String, Opts> = "map",
    color: Color = "color",
    any: Value = "any",
    inner: Option<Box<Strict>> = "inner",
});
zoo_struct!(Nums {
    a: i8 = "a",
    b: i16 = "b",
    c: i32 = "c",
    d: i64 = "d",
    e: isize = "e",
    f: u8 = "f",
    g: u16 = "g",
    h: u32 = "h",
    i: u64 = "i",
    j: usize = "j",
    k: f32 = "k",
    l: f64 = "l",
    m: Number = "m",
});
zoo_struct!(PHold {
    p: Probe = "p",
    q: Option<Probe> = "q",
    v: Vec<Probe> = "v",
    b: Box<Probe> = "b",
});
zoo_struct!(PDeep {
    a: BTreeMap<PKey, Probe> = "a",
    b: [Box<Probe>; 2] = "b",
    c: (Probe, Option<Box<PHold>>) = "c",
    d: HashMap<PKey, Vec<Probe>, SimHash> = "d",
    e: PVec<PMap<Probe>> = "e",
});
zoo_struct!(PMini { k: Probe = "k", z: Option<Box<(Probe, Probe)>> = "z" });

#[derive(Serialize, Deserialize)]
pub struct Node {
    pub v: i32,
    pub next: Option<Box<Node>>,
}
impl Zoo for Node {
    fn schema() -> S {
        S::Struct(Rc::new(vec![("v", i32::schema()), ("next", zoo_field!(Option<Box<Node>>))]))
    }
    fn build(a: &Ast) -> Self {
        let o = obj(a);
        Node { v: Zoo::build(&o[0].1), next: Zoo::build(&o[1].1) }
    }
    fn ast(&self) -> Ast {
        Ast::Obj(vec![("v".to_owned(), self.v.ast()), ("next".to_owned(), self.next.ast())])
    }
}
#[derive(Serialize, Deserialize)]
pub struct Tree {
    pub name: String,
    pub kids: Vec<Tree>,
}
impl Zoo for Tree {
    fn schema() -> S {
        S::Struct(Rc::new(vec![("name", S::Str), ("kids", zoo_field!(Vec<Tree>))]))
    }
    fn build(a: &Ast) -> Self {
        let o = obj(a);
        Tree { name: Zoo::build(&o[0].1), kids: Zoo::build(&o[1].1) }
    }
    fn ast(&self) -> Ast {
        Ast::Obj(vec![("name".to_owned(), self.name.ast()), ("kids".to_owned(), self.kids.ast())])
    }
}

/// Generic, with bounds, a const parameter and a where clause.
#[derive(Serialize, Deserialize)]
pub struct Generic<T, U: Clone, const N: usize>
where
    T: 'static,
{
    pub first: T,
    pub second: Option<U>,
    #[serde(rename = "N")]
    pub n: [u8; N],
    pub rest: Vec<(T, U)>,
}
impl<T: Zoo, U: Zoo + Clone, const N: usize> Zoo for Generic<T, U, N> {
    fn schema() -> S {
        S::Struct(Rc::new(vec![
            ("first", T::schema()),
            ("second", Option::<U>::schema()),
            ("N", <[u8; N]>::schema()),
            ("rest", Vec::<(T, U)>::schema()),
        ]))
    }
    fn build(a: &Ast) -> Self {
        let o = obj(a);
        Generic { first: Zoo::build(&o[0].1), second: Zoo::build(&o[1].1), n: Zoo::build(&o[2].1), rest: Zoo::build(&o[3].1) }
    }
    fn ast(&self) -> Ast {
        Ast::Obj(vec![
            ("first".to_owned(), self.first.ast()),
            ("second".to_owned(), self.second.ast()),
            ("N".to_owned(), self.n.ast()),
            ("rest".to_owned(), self.rest.ast()),
        ])
    }
}

macro_rules! zoo_enum {
    ($name:ident { $($(#[$m:meta])* $v:ident = $w:literal),* $(,)? }) => {
        #[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
        pub enum $name { $($(#[$m])* $v),* }
        impl Zoo for $name {
            fn schema() -> S {
                S::Enum(&[$($w),*])
            }
            fn build(a: &Ast) -> Self {
                match st(a) { $($w => $name::$v,)* _ => bad(a) }
            }
            fn ast(&self) -> Ast {
                Ast::Str(match self { $($name::$v => $w),* }.to_owned())
            }
        }
    };
}
include!("zoo_vast.rs");
zoo_enum!(Color {
    Red = "Red",
    #[serde(rename = "light green")]
    Green = "light green",
    Blue = "Blue",
    #[serde(rename = "Grün \"ü\"")]
    Gruen = "Grün \"ü\"",
});
zoo_enum!(Raw { Self_ = "Self_", r#Loop = "Loop", #[serde(rename = "")] Nothing = "" });
zoo_enum!(Single { Only = "Only" });
zoo_enum!(Alike {
    #[serde(rename = "r#fn")]
    A = "r#fn",
    #[allow(non_camel_case_types)]
    r#fn = "fn",
    Fn = "Fn",
    #[serde(rename = "FN")]
    B = "FN",
    #[serde(rename = " fn")]
    C = " fn",
    /// Documented.
    #[serde(rename = "fn ")]
    D = "fn ",
    #[serde(rename = "fnfn")]
    E = "fnfn",
    #[serde(rename = "\u{0}")]
    F = "\u{0}",
    #[serde(rename = "\u{fb00}n")]
    G = "\u{fb00}n",
    #[serde(rename = "true")]
    H = "true",
    Some = "Some",
    None = "None",
    Ok = "Ok",
    Err = "Err",
});

// Versions of one record, as in a rolling upgrade. All wire names that coincide mean the same.
zoo_struct!(RecV1 { id: u64 = "id", name: String = "name" });
zoo_struct!(RecV2 { name: String = "name", id: u64 = "id", tags: Option<Vec<String>> = "tags" });
zoo_struct!(RecV3 {
    id: u64 = "id",
    #[serde(rename = "name")]
    full_name: String = "name",
    tags: Option<Vec<String>> = "tags",
    owner: Option<Box<RecV1>> = "owner",
    kind: Option<Color> = "kind",
    extra: Option<Value> = "extra",
});
zoo_struct!(RecV4 {
    id: u64 = "id",
    tags: Vec<String> = "tags",
    limits: Option<BTreeMap<String, i64>> = "limits",
    kind: Color = "kind",
    pos: Option<Point> = "pos",
});

// ---------------------------------------------------------------- table

pub trait Obj {
    fn value(&self) -> Ast;
    fn to_json(&self) -> String;
}
impl<T: Zoo> Obj for T {
    fn value(&self) -> Ast {
        Zoo::ast(self)
    }
    fn to_json(&self) -> String {
        miniserde::json::to_string(self)
    }
}

pub struct Entry {
    pub name: &'static str,
    pub schema: S,
    pub from: fn(&str) -> std::result::Result<Box<dyn Obj>, ()>,
    pub build: fn(&Ast) -> Box<dyn Obj>,
    pub probing: bool,
    pub hashing: bool,
    pub pkeys: bool,
    /// Hash maps with untyped values, whose destructors allocate.
    pub hash_value: bool,
    pub floats: bool,
    /// Contains Box<T>: may legitimately panic when a participant accepts without writing.
    pub boxing: bool,
    /// Only hash maps with the standard random hasher: iteration order is not repeatable.
    pub random: bool,
}

fn entry<T: Zoo>(name: &'static str) -> Entry {
    let schema = T::schema();
    Entry {
        name,
        from: |s| match miniserde::json::from_str::<T>(s) {
            Ok(v) => Ok(Box::new(v)),
            Err(_) => Err(()),
        },
        build: |a| Box::new(T::build(a)),
        probing: has(&schema, &|s| matches!(s, S::Probe | S::PVec(_) | S::PMap(_) | S::Map(K::Probe, _, _))),
        hashing: has(&schema, &|s| matches!(s, S::Map(_, _, false))),
        hash_value: has(&schema, &|s| matches!(s, S::Map(_, i, false) if has(i, &|s| matches!(s, S::Value | S::VArr | S::VObj)))),
        pkeys: has(&schema, &|s| matches!(s, S::Map(K::Probe, _, _))),
        floats: has(&schema, &|s| matches!(s, S::F64 | S::F32 | S::Value | S::VArr | S::VObj | S::Number | S::Probe)),
        boxing: has(&schema, &|s| matches!(s, S::Boxed(_))),
        random: name.contains("StdHash"),
        schema,
    }
}

pub type HM<A, B> = HashMap<A, B, SimHash>;
pub type BM<A, B> = BTreeMap<A, B>;

macro_rules! table {
    ($($t:ty),* $(,)?) => {
        pub fn table() -> &'static [Entry] {
            static T: std::sync::OnceLock<TableBox> = std::sync::OnceLock::new();
            &T.get_or_init(|| TableBox(vec![$(entry::<$t>(stringify!($t)),)* entry::<HashMap<String, u32>>("StdHashMap<String, u32>"), entry::<HashMap<i32, Vec<Plain>>>("StdHashMap<i32, Vec<Plain>>")])).0
        }
    };
}
struct TableBox(Vec<Entry>);
// The table is immutable after construction; the reference counts inside schemas are only cloned
// while no simulated threads run.
unsafe impl Send for TableBox {}
unsafe impl Sync for TableBox {}

table! {
    // untyped
    Value, Array, Object, Number, Vec<Value>, Option<Value>, Box<Value>, (Value, Value), [Value; 2], BM<String, Value>, HM<String, Value>,
    Vec<Object>, Vec<Array>, Option<Object>, Box<Array>, Option<Number>, HM<i32, Array>,
    // scalars
    (), bool, String, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64,
    Option<()>, Option<u8>, Option<Option<i64>>, Box<u64>, Box<String>, Box<bool>, Box<f64>, Box<i64>, Box<()>, Box<Box<i16>>,
    // sequences
    Vec<()>, Vec<u8>, Vec<bool>, Vec<f64>, Vec<f32>, Vec<i64>, Vec<String>, Vec<Vec<u8>>, Vec<Option<u8>>, Vec<Box<String>>, Vec<(u8, String)>,
    [u8; 0], [u8; 1], [String; 3], [[u8; 2]; 2], [Vec<String>; 2], [Option<Box<u8>>; 4], Option<[u8; 3]>, Box<[String; 2]>, [Value; 1], [(); 2], [i32; 9],
    (u8, String), (String, (bool, f64)), ((u8, u8), [u8; 1]), Option<(u8, u8)>, Box<(String, String)>, ((), Vec<()>),
    Box<Vec<String>>, Option<Vec<String>>, Box<Option<Vec<u8>>>, Box<Box<Vec<Box<u8>>>>,
    // maps
    BM<String, u32>, BM<String, String>, BM<i32, bool>, BM<u64, Vec<u8>>, BM<char, u8>, BM<bool, String>, BM<i128, u8>, BM<Fold, u32>, BM<String, BM<u8, String>>,
    HM<String, u32>, HM<String, String>, HM<i32, bool>, HM<u8, String>, HM<char, Value>, HM<bool, u8>, HM<Fold, String>, HM<String, HM<String, u8>>, HM<String, Vec<Plain>>,
    Vec<HM<String, u8>>, Vec<BM<u8, u8>>, Option<BM<String, u8>>, Box<BM<String, String>>, Box<HM<String, String>>, (BM<String, u8>, HM<String, u8>), BM<String, Option<u8>>, [BM<u8, u8>; 2],
    // derived
    Empty, One, Point, Plain, Renamed, Opts, Strict, Outer, Nums, Node, Tree, Color, Raw, Single, Alike, Names, Wide, Defaults, Level, Vec<Defaults>, (Level, Level), BM<String, Level>, Box<Names>, Vec<Alike>, BM<Fold, Defaults>, RecV1, RecV2, RecV3, RecV4,
    Vast, Crowd, Vec<Crowd>, [u8; 300], Box<[Option<Box<u8>>; 600]>,
    Generic<String, u8, 2>, Generic<Value, bool, 0>, Generic<Option<Point>, String, 1>,
    Vec<Plain>, Vec<Color>, Option<Plain>, Option<Color>, Box<Plain>, Box<Outer>, Box<Color>, (Point, Color), [Point; 2], BM<String, Point>, HM<String, Opts>, HM<i32, Renamed>, Option<Box<Strict>>, Vec<Tree>,
    // user types
    Probe, Vec<Probe>, Option<Probe>, Box<Probe>, (Probe, Probe), [Probe; 3], [Probe; 1], BM<String, Probe>, HM<String, Probe>, BM<PKey, Probe>, HM<PKey, Probe>, BM<PKey, u8>, HM<PKey, String>,
    Vec<Vec<Probe>>, Vec<Option<Probe>>, Vec<Box<Probe>>, Box<Vec<Probe>>, Option<Vec<Probe>>, Option<Box<Probe>>, Box<Option<Probe>>, Box<Box<Probe>>, Vec<(Probe, Probe)>, (Vec<Probe>, Probe), [Vec<Probe>; 2], [Box<Probe>; 2],
    [[Probe; 2]; 2], [(Probe, Probe); 2], Box<[Probe; 2]>, Option<[Probe; 2]>, Vec<[Probe; 2]>, BM<PKey, Vec<Probe>>, HM<PKey, [Probe; 2]>, Vec<HM<PKey, Probe>>, Vec<BM<PKey, Probe>>, Box<BM<PKey, Probe>>, Box<HM<PKey, Probe>>,
    Option<BM<String, Box<Probe>>>, BM<String, BM<PKey, Probe>>, Box<(Probe, Probe)>,
    PHold, PDeep, PMini, Vec<PHold>, Box<PHold>, Option<PMini>, BM<PKey, PMini>, HM<String, PHold>, [PMini; 2], Vec<PDeep>,
    PVec<Probe>, PMap<Probe>, PVec<Value>, PMap<Plain>, PVec<[Probe; 2]>, PMap<Vec<Probe>>, PVec<Box<PHold>>, PMap<BM<PKey, Probe>>, Box<PVec<Probe>>, Vec<PMap<u8>>, Option<PVec<Option<Probe>>>, PVec<(u8, Probe)>, PMap<Option<Box<PMap<Probe>>>>, Box<PMap<Box<PVec<String>>>>,
}

thread_local! { static BARE: Cell<bool> = const { Cell::new(false) }; }
/// While set, no type with a hash map is drawn.
pub fn set_bare(on: bool) {
    BARE.with(|b| b.set(on));
}
pub fn bare() -> bool {
    BARE.with(Cell::get)
}

pub fn find(name: &str) -> &'static Entry {
    table().iter().find(|e| e.name == name).unwrap_or_else(|| panic!("no type {name}"))
}
