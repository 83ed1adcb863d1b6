//! C20: Debug and Display text of values, written to sinks that fail, panic or call back.

use crate::refjson::{Ast, Num};
use crate::sim::{self, Stop};
use crate::tape::Tape;
use crate::zoo::{self, Gen};
use crate::{note, violate, Tier};
use miniserde::json::{self, Array, Number, Object, Value};
use std::fmt::{self, Debug, Display, Write};

/// What the text must look like, built with std's own formatting helpers from the reference form.
/// Floats are left as `\u{1}bits\u{2}`: their digits are judged by value.
struct Model<'a>(&'a Ast);
struct Entries<'a>(&'a [(String, Ast)]);
fn number(n: &Num) -> String {
    match n {
        Num::U(n) => n.to_string(),
        Num::I(n) => n.to_string(),
        Num::F(f) => format!("\u{1}{:016x}\u{2}", f.to_bits()),
        Num::F32(f) => format!("\u{1}{:016x}\u{2}", f64::from(*f).to_bits()),
    }
}
impl Debug for Model<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            Ast::Null => f.write_str("Null"),
            Ast::Bool(true) => f.write_str("Bool(true)"),
            Ast::Bool(false) => f.write_str("Bool(false)"),
            Ast::Num(n) => write!(f, "Number({})", number(n)),
            Ast::Str(s) | Ast::Raw(s) => {
                let q = format!("{s:?}");
                f.write_str("String(")?;
                f.write_str(&q)?;
                f.write_str(")")
            }
            Ast::Arr(v) => {
                f.write_str("Array ")?;
                let mut l = f.debug_list();
                for e in v {
                    l.entry(&Model(e));
                }
                l.finish()
            }
            Ast::Obj(v) | Ast::Set(v) => Entries(v).fmt(f),
        }
    }
}
impl Debug for Entries<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Object ")?;
        let mut m = f.debug_map();
        for (k, e) in self.0 {
            m.entry(&k.as_str(), &Model(e));
        }
        m.finish()
    }
}
struct NumberModel<'a>(&'a Num);
impl Debug for NumberModel<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        struct F(f64);
        impl Debug for F {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "\u{1}{:016x}\u{2}", self.0.to_bits())
            }
        }
        match self.0 {
            Num::U(n) => f.debug_tuple("U64").field(n).finish(),
            Num::I(n) => f.debug_tuple("I64").field(n).finish(),
            Num::F(n) => f.debug_tuple("F64").field(&F(*n)).finish(),
            Num::F32(n) => f.debug_tuple("F64").field(&F(f64::from(*n))).finish(),
        }
    }
}

/// Does `got` say what `want` says?
fn agrees(want: &str, got: &str) -> bool {
    let mut g = got;
    let mut rest = want;
    loop {
        let Some(i) = rest.find('\u{1}') else { return rest == g };
        let Some(after) = g.strip_prefix(&rest[..i]) else { return false };
        let bits = &rest[i + 1..i + 17];
        let x = f64::from_bits(u64::from_str_radix(bits, 16).unwrap());
        rest = &rest[i + 18..];
        let n = after.find(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).unwrap_or(after.len());
        let (num, tail) = after.split_at(n);
        // A float does not look like an integer.
        let floaty = num.contains(['.', 'e', 'E', 'N', 'n', 'i']);
        match num.parse::<f64>() {
            Ok(y) if floaty && (x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan()) => g = tail,
            _ => return false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Break {
    Never,
    /// The n-th write (0-based) fails, panics, or takes a part of its text and then fails.
    Err(usize),
    Panic(usize),
    Torn(usize, usize),
}
struct Sink<'a> {
    text: String,
    writes: usize,
    at: Break,
    broken: bool,
    after: bool,
    /// Serializes this value within every third write.
    back: Option<(&'a Value, &'a str)>,
    nested_bad: bool,
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.writes;
        self.writes += 1;
        if self.broken {
            self.after = true;
            return Err(fmt::Error);
        }
        if let (Some((v, json)), true) = (self.back, n % 3 == 0) {
            self.nested_bad |= json::to_string(v) != json;
        }
        let _p = sim::pause();
        match self.at {
            Break::Err(k) if k == n => {
                self.broken = true;
                return Err(fmt::Error);
            }
            Break::Torn(k, cut) if k == n => {
                let mut c = cut.min(s.len());
                while !s.is_char_boundary(c) {
                    c -= 1;
                }
                self.text.push_str(&s[..c]);
                self.broken = true;
                return Err(fmt::Error);
            }
            Break::Panic(k) if k == n => {
                self.broken = true;
                drop(_p);
                sim::inject_panic();
            }
            _ => {}
        }
        self.text.push_str(s);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Plain,
    Pretty,
    Inside,
    InsidePretty,
    Display,
}

enum Thing {
    V(Value),
    A(Array),
    O(Object),
    N(Number),
}
impl Thing {
    fn write(&self, s: &mut Sink, f: Form) -> fmt::Result {
        fn dbg<T: Debug>(x: &T, s: &mut Sink, f: Form) -> fmt::Result {
            match f {
                Form::Plain | Form::Display => write!(s, "{x:?}"),
                Form::Pretty => write!(s, "{x:#?}"),
                Form::Inside => write!(s, "{:?}", [Some(x)]),
                Form::InsidePretty => write!(s, "{:#?}", [Some(x)]),
            }
        }
        fn disp<T: Display>(x: &T, s: &mut Sink) -> fmt::Result {
            write!(s, "{x}")
        }
        match self {
            Thing::V(x) => dbg(x, s, f),
            Thing::A(x) => dbg(x, s, f),
            Thing::O(x) => dbg(x, s, f),
            Thing::N(x) if f == Form::Display => disp(x, s),
            Thing::N(x) => dbg(x, s, f),
        }
    }
    fn ast(&self) -> Ast {
        match self {
            Thing::V(x) => zoo::value_ast(x),
            Thing::A(x) => Ast::Arr(x.iter().map(zoo::value_ast).collect()),
            Thing::O(x) => Ast::Obj(x.iter().map(|(k, v)| (k.clone(), zoo::value_ast(v))).collect()),
            Thing::N(x) => zoo::number_ast(x),
        }
    }
    fn want(&self, a: &Ast, f: Form) -> String {
        fn form<T: Debug>(x: T, f: Form) -> String {
            match f {
                Form::Plain | Form::Display => format!("{x:?}"),
                Form::Pretty => format!("{x:#?}"),
                Form::Inside => format!("{:?}", [Some(x)]),
                Form::InsidePretty => format!("{:#?}", [Some(x)]),
            }
        }
        match (self, a) {
            (Thing::N(_), Ast::Num(n)) if f == Form::Display => number(n),
            (Thing::N(_), Ast::Num(n)) => form(NumberModel(n), f),
            (Thing::O(_), Ast::Obj(v)) => form(Entries(v), f),
            _ => form(Model(a), f),
        }
    }
}

fn float(t: &mut Tape) -> f64 {
    match t.draw(8) {
        0 => f64::NAN,
        1 => *t.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        2 => *t.pick(&[0.0, -0.0, 1.0, -1.0, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 1e16, 1e15, 123456789012345680.0, 1e-5, 1e-7, 0.1]),
        3 => t.draw(1000) as f64 - 500.0,
        _ => f64::from_bits(t.u64()),
    }
}

fn int(t: &mut Tape) -> u64 {
    match t.draw(3) {
        0 => t.draw(300),
        1 => *t.pick(&[0, 1, u64::MAX, i64::MAX as u64, i64::MIN as u64, 1 << 53]),
        _ => t.u64(),
    }
}

fn thing(t: &mut Tape) -> Thing {
    let g = Gen { width: *t.pick(&[3, 5, 9]), depth: 4, bulk: zoo::BULK / 4, ..zoo::SENT };
    let d = t.range(0, 4);
    if crate::vast::due(t, 400) {
        // (The standard library's indentation costs the square of the depth.)
        let a = zoo::any(t, d, &g.slim());
        let a = crate::sc_text::parse_numbers(crate::vast::amplify(t, &a));
        sim::stat("coverage.vast_values", 1);
        if crate::vast::depth(&a) < 60 {
            return Thing::V(zoo::value_build(&a));
        }
    }
    match t.draw(8) {
        0..=3 => Thing::V(zoo::value_build(&zoo::any(t, d, &g))),
        4 => {
            let n = t.size(6);
            Thing::A((0..n).map(|_| zoo::value_build(&zoo::any(t, d, &g))).collect())
        }
        5 => {
            let n = t.size(6);
            Thing::O((0..n).map(|_| (zoo::string(t), zoo::value_build(&zoo::any(t, d, &g)))).collect())
        }
        _ => Thing::N(match t.draw(4) {
            0 => Number::U64(int(t)),
            1 => Number::I64(int(t) as i64),
            _ => Number::F64(float(t)),
        }),
    }
}

fn brief(s: &str) -> String {
    crate::refjson::brief(s)
}

pub fn c20(t: &mut Tape, tier: Tier) {
    let x = {
        let _e = sim::enter();
        thing(t)
    };
    let ast = x.ast();
    let side = {
        let _e = sim::enter();
        zoo::value_build(&zoo::any(t, 2, &zoo::SENT))
    };
    let side_json = json::to_string(&side);
    let rounds = t.range(1, tier.pick(3, 4, 1));
    for _ in 0..rounds {
        if sim::violated() {
            break;
        }
        let form = *t.pick(&[Form::Plain, Form::Pretty, Form::Plain, Form::Pretty, Form::Inside, Form::InsidePretty, Form::Display]);
        let sink = |at, back| Sink { text: String::new(), writes: 0, at, broken: false, after: false, back: if back { Some((&side, side_json.as_str())) } else { None }, nested_bad: false };
        let want = x.want(&ast, form);
        // (Indentation makes deep values costly to write.)
        let large = want.len() > 2500;
        let back = t.chance(1, 4) && !large;
        let mut full = sink(Break::Never, back);
        let r = sim::sut(|| x.write(&mut full, form));
        sim::stat("calls", 1);
        sim::step();
        sim::observe_str(&full.text);
        note!("{form:?} -> {}", brief(&full.text));
        match r {
            Ok(Ok(())) => {}
            r => violate!("fmt-failed", "{form:?} form of {}: {r:?} from a sink that works", brief(&want)),
        }
        if !agrees(&want, &full.text) {
            violate!("fmt-content", "{form:?} form: {} instead of {}", brief(&full.text), brief(&want));
        }
        // Every write of a short text is broken once, of a long one a sample.
        let n = full.writes;
        let k = n.min(if large { 3 } else { tier.pick(12, 40, 3) });
        for i in 0..k {
            if sim::violated() {
                break;
            }
            let w = if n <= k { i } else { t.below(n) };
            let at = match t.draw(4) {
                0 => Break::Panic(w),
                1 => Break::Torn(w, t.below(6)),
                _ => Break::Err(w),
            };
            let mut s = sink(at, back);
            let r = sim::sut(|| x.write(&mut s, form));
            sim::stat("calls", 1);
            sim::step();
            sim::stat(match at { Break::Panic(_) => "fault.sink-panic", Break::Torn(..) => "fault.sink-torn-write", _ => "fault.sink-error" }, 1);
            sim::observe(s.text.len() as u64);
            note!("{form:?}, {at:?}: {r:?} after {}", brief(&s.text));
            match (at, &r) {
                (Break::Panic(_), Err(Stop::Injected)) => {}
                (Break::Err(_) | Break::Torn(..), Ok(Err(_))) => {}
                _ if !s.broken => violate!("fmt-unstable", "{form:?} form of {} makes {} writes, then {n}", brief(&want), s.writes),
                _ => violate!("sink-error-lost", "{form:?} form of {}: the sink failed at write {w} ({at:?}) and formatting reports {r:?}", brief(&want)),
            }
            if s.after {
                violate!("write-after-error", "{form:?} form of {}: written to after the sink had failed ({at:?})", brief(&want));
            }
            if !full.text.starts_with(&s.text) {
                violate!("fmt-prefix", "{form:?} form: {} was written before the failure, not a prefix of {}", brief(&s.text), brief(&full.text));
            }
            if s.nested_bad {
                violate!("nested", "to_string called from within a sink gave another result");
            }
        }
        if full.nested_bad {
            violate!("nested", "to_string called from within a sink gave another result");
        }
        let now = x.ast();
        if format!("{ast:?}") != format!("{now:?}") {
            violate!("fmt-changed-value", "after formatting the value is {}", crate::refjson::show(&now));
        }
    }
    let _e = sim::enter();
    drop(x);
    drop(side);
    drop(_e);
    sim::conservation_check("after the values were dropped");
}
