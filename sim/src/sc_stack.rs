//! C08: the same work shallow and deep on a painted stack; the high-water mark must not follow the
//! depth.

use crate::part::{self, FK};
use crate::sim::{self, Out, Stop, Tok};
use crate::tape::Tape;
use crate::zoo;
use crate::{alloc, note, violate, Tier};
use miniserde::json::{Array, Object, Value};
use miniserde::ser::{Fragment, Map, Seq};
use miniserde::{json, Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::Cell;
use crate::bare::HashMap;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

const PAINT: usize = 192 << 10;
const GROWTH: usize = 32 << 10;
const SHALLOW: usize = 6;

// ---------------------------------------------------------------- documents

const SIB: &[&str] = &["1", "\"s\"", "[]", "{}", "[[]]", "null", "{\"k\":[1]}", "[{},[\"x\"]]", "{\"k\":{}}", "-1.5"];

struct Level {
    obj: bool,
    /// The member that leads down, as written and as read.
    name: (&'static str, &'static str),
    before: Vec<&'static str>,
    after: Vec<&'static str>,
}

const NAMES: &[(&str, &str)] = &[
    ("m", "m"),
    ("m", "m"),
    ("", ""),
    ("next", "next"),
    ("\\n", "\n"),
    ("\\u006d", "m"),
    ("\\u00e9", "é"),
    ("zz", "zz"),
    (" ", " "),
    ("0", "0"),
    ("a name of some length, such as no program would choose for a member of anything", "a name of some length, such as no program would choose for a member of anything"),
];

pub struct Shape {
    levels: Vec<Level>,
    leaf: &'static str,
    fancy: bool,
}

thread_local! {
    /// Bytes that a level of the work takes: what is broad is not as deep.
    static WEIGHT: Cell<usize> = const { Cell::new(0) };
}

impl Shape {
    /// `fancy`: names of all sorts, and many siblings. Otherwise members are in order, and written as the library does.
    fn pick(t: &mut Tape, fancy: bool) -> Shape {
        let p = t.range(1, 6);
        let mode = t.draw(4);
        let crowd = fancy && t.chance(1, 10);
        let levels = (0..p)
            .map(|_| {
                let name = if fancy { *t.pick(NAMES) } else { NAMES[0] };
                let sibs = |t: &mut Tape| {
                    let n = if t.chance(1, 2) {
                        0
                    } else if crowd {
                        t.range(4, 40)
                    } else {
                        t.range(1, 3)
                    };
                    (0..n).map(|_| *t.pick(SIB)).collect()
                };
                Level { obj: mode == 1 || mode >= 2 && t.chance(1, 2), name, before: sibs(t), after: sibs(t) }
            })
            .collect();
        let sh = Shape { levels, leaf: t.pick(&["1", "[]", "{}", "\"x\"", "null", "[1,2]", "{\"k\":[]}"]), fancy };
        WEIGHT.with(|w| w.set(sh.text(p).0.len() / p));
        sh
    }
    fn before(&self, j: usize) -> String {
        if self.fancy {
            format!("a{j}")
        } else {
            ["a", "b", "c"][j].to_owned()
        }
    }
    fn after(&self, j: usize) -> String {
        if self.fancy {
            format!("x{j}")
        } else {
            ["x", "y", "z"][j].to_owned()
        }
    }
    /// The text, and where its opening half ends.
    fn text(&self, depth: usize) -> (String, usize) {
        self.render(depth, false)
    }
    /// The text as the library writes it: members in order of their names, which are not escaped
    /// without need.
    fn canon(&self, depth: usize) -> String {
        self.render(depth, true).0
    }
    fn render(&self, depth: usize, canon: bool) -> (String, usize) {
        // One piece per level of the pattern, repeated.
        let pieces: Vec<(String, String)> = self
            .levels
            .iter()
            .map(|l| {
                let (mut open, mut close) = (String::from(if l.obj { '{' } else { '[' }), String::new());
                // (name as read, name as written, value), None for the way down.
                let mut m: Vec<(String, String, Option<&str>)> = Vec::new();
                m.extend(l.before.iter().enumerate().map(|(j, b)| (self.before(j), self.before(j), Some(*b))));
                let written = if canon && l.name.1 != "\n" { l.name.1 } else { l.name.0 };
                m.push((l.name.1.to_owned(), written.to_owned(), None));
                m.extend(l.after.iter().enumerate().map(|(j, b)| (self.after(j), self.after(j), Some(*b))));
                if canon && l.obj {
                    m.sort_by(|x, y| x.0.cmp(&y.0));
                }
                let mut down = false;
                for (j, (_, w, v)) in m.iter().enumerate() {
                    let to = if down { &mut close } else { &mut open };
                    if j > 0 {
                        to.push(',');
                    }
                    if l.obj {
                        to.push_str(&format!("\"{w}\":"));
                    }
                    match v {
                        Some(v) => to.push_str(v),
                        None => down = true,
                    }
                }
                close.push(if l.obj { '}' } else { ']' });
                (open, close)
            })
            .collect();
        let mut s = String::new();
        for i in 0..depth {
            s.push_str(&pieces[i % pieces.len()].0);
        }
        let half = s.len();
        s.push_str(self.leaf);
        for i in (0..depth).rev() {
            s.push_str(&pieces[i % pieces.len()].1);
        }
        (s, half)
    }
    /// Build it by hand from the inside, without the parser.
    fn build(&self, depth: usize) -> Value {
        let leaf = |s: &str| json::from_str::<Value>(s).unwrap_or_default();
        let mut v = leaf(self.leaf);
        for i in (0..depth).rev() {
            let l = &self.levels[i % self.levels.len()];
            if l.obj {
                let mut o = Object::new();
                for (j, b) in l.before.iter().enumerate() {
                    o.insert(self.before(j), leaf(b));
                }
                o.insert(l.name.1.to_owned(), v);
                for (j, b) in l.after.iter().enumerate() {
                    o.insert(self.after(j), leaf(b));
                }
                v = Value::Object(o);
            } else {
                let mut a = Array::new();
                a.extend(l.before.iter().map(|b| leaf(b)));
                a.push(v);
                a.extend(l.after.iter().map(|b| leaf(b)));
                v = Value::Array(a);
            }
        }
        v
    }
}

// ---------------------------------------------------------------- user types that nest

/// Nests through every library container.
#[derive(Serialize, Deserialize, Default)]
struct Rec {
    a: Option<Box<Rec>>,
    b: Option<Vec<Rec>>,
    c: Option<BTreeMap<String, Rec>>,
    d: Option<(u8, Vec<Rec>)>,
    e: Option<HashMap<String, Rec>>,
    f: Option<Box<[Box<Rec>; 1]>>,
    v: Option<Value>,
    p: Option<zoo::PMini>,
}

/// Takes a completed deep user value apart level by level: its derived drop is recursive.
fn dismantle(r: Rec) {
    let mut w = vec![r];
    while let Some(mut r) = w.pop() {
        w.extend(r.a.take().map(|b| *b));
        w.extend(r.b.take().into_iter().flatten());
        w.extend(r.c.take().into_iter().flatten().map(|x| x.1));
        w.extend(r.d.take().into_iter().flat_map(|x| x.1));
        w.extend(r.e.take().into_iter().flatten().map(|x| x.1));
        w.extend(r.f.take().map(|b| {
            let [x] = *b;
            *x
        }));
        drop(r);
    }
}

fn rec_text(kinds: &[usize], depth: usize, fault: bool) -> (String, usize) {
    const OPEN: [(&str, &str); 6] = [
        ("{\"a\":", "}"),
        ("{\"b\":[{},", "]}"),
        ("{\"c\":{\"k\":{},\"l\":", "}}"),
        ("{\"d\":[7,[", "]]}"),
        ("{\"e\":{\"k\":", "}}"),
        ("{\"f\":[", "]}"),
    ];
    let mut s = String::new();
    for i in 0..depth {
        s.push_str(OPEN[kinds[i % kinds.len()]].0);
    }
    s.push_str(if fault { "{\"p\":{\"k\":1,\"z\":[2,3]}}" } else { "{}" });
    let half = s.len();
    for i in (0..depth).rev() {
        s.push_str(OPEN[kinds[i % kinds.len()]].1);
    }
    (s, half)
}

/// Serializes itself `depth` levels down, each stream making and lending the next level.
struct Deep {
    tok: Tok,
    depth: usize,
    kind: usize,
    last: bool,
}
impl Deep {
    fn new(depth: usize, kind: usize) -> Deep {
        Deep { tok: Tok::new(), depth, kind, last: false }
    }
}
struct DeepStream {
    tok: Tok,
    child: Deep,
    i: usize,
    boxed: Option<Box<Deep>>,
}
impl Drop for DeepStream {
    fn drop(&mut self) {
        self.tok.check("destructor of a stream");
        part::drop_cb("stream");
    }
}
impl DeepStream {
    fn step(&mut self) -> Option<&Deep> {
        self.tok.check("next() of a stream");
        let _ = part::cb(part::Ev::Next(0, self.i));
        self.i += 1;
        match self.i {
            1 => Some(&self.child),
            2 if self.child.kind % 7 == 3 => {
                self.boxed = Some(Box::new(Deep::new(0, 0)));
                self.boxed.as_deref()
            }
            _ => None,
        }
    }
}
impl Seq for DeepStream {
    fn next(&mut self) -> Option<&dyn Serialize> {
        self.step().map(|d| d as &dyn Serialize)
    }
}
impl Map for DeepStream {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let own = self.i % 2 == 0;
        self.step().map(|d| {
            let k = ["k", "", "\n", "a longer name"][(d.kind + d.depth / 5) % 4];
            (if own { Cow::Owned(k.to_owned()) } else { Cow::Borrowed(k) }, d as &dyn Serialize)
        })
    }
}
impl Serialize for Deep {
    fn begin(&self) -> Fragment<'_> {
        self.tok.check("begin()");
        let _ = part::cb(part::Ev::Begin(0));
        if self.depth == 0 {
            return Fragment::Bool(true);
        }
        let s = Box::new(DeepStream { tok: Tok::new(), child: Deep::new(self.depth - 1, self.kind / 2 + self.depth), i: 0, boxed: None });
        match (self.kind + self.depth) % 3 {
            0 => Fragment::Map(s),
            1 => Fragment::Seq(s),
            _ if self.kind % 2 == 0 => Fragment::Map(s),
            _ => Fragment::Seq(s),
        }
    }
}

// ---------------------------------------------------------------- receiving types

/// Ignores almost everything it is sent.
#[derive(Deserialize)]
#[allow(dead_code)]
struct Picky {
    n: Option<u8>,
}
#[derive(Deserialize, Serialize)]
struct Holder {
    v: Value,
    n: u8,
}
#[derive(Deserialize, Serialize)]
struct HolderArr {
    v: Array,
    n: Option<u8>,
}
#[derive(Deserialize, Serialize)]
struct HolderObj {
    v: Object,
    n: Option<u8>,
}

fn go<T: Deserialize>(s: &str) -> Result<bool, ()> {
    match json::from_str::<T>(s) {
        Ok(v) => {
            drop(v);
            Ok(true)
        }
        Err(_) => Ok(false),
    }
}

type Recv = (&'static str, fn(&str) -> Result<bool, ()>, &'static str, &'static str);
/// Type, how to call it, and what to put around the deep document.
const RECV: &[Recv] = &[
    ("Value", go::<Value>, "", ""),
    ("Array", go::<Array>, "", ""),
    ("Object", go::<Object>, "", ""),
    ("Vec<Value>", go::<Vec<Value>>, "[0,", ",1]"),
    ("Option<Value>", go::<Option<Value>>, "", ""),
    ("Box<Value>", go::<Box<Value>>, "", ""),
    ("(Value, u8)", go::<(Value, u8)>, "[", ",1]"),
    ("(u8, Value)", go::<(u8, Value)>, "[1,", "]"),
    ("(Value, bad)", go::<(Value, u8)>, "[", ",\"\"]"),
    ("[Value; 2]", go::<[Value; 2]>, "[", ",1]"),
    ("[Value; 3] short", go::<[Value; 3]>, "[", ",1]"),
    ("[Value; 1] long", go::<[Value; 1]>, "[", ",1]"),
    ("BTreeMap<String, Value>", go::<BTreeMap<String, Value>>, "{\"k\":", "}"),
    ("BTreeMap<String, Value> twice", go::<BTreeMap<String, Value>>, "{\"k\":", ",\"k\":1}"),
    ("HashMap<String, Value>", go::<HashMap<String, Value>>, "{\"k\":", "}"),
    ("HashMap<String, Array>", go::<HashMap<String, Array>>, "{\"k\":", "}"),
    ("Value in array", go::<Value>, "[0,", ",{}]"),
    ("Value in object", go::<Value>, "{\"a\":", ",\"b\":[]}"),
    ("Object repeated member", go::<Object>, "{\"a\":", ",\"a\":[]}"),
    ("Holder", go::<Holder>, "{\"v\":", ",\"n\":1}"),
    ("Holder bad after", go::<Holder>, "{\"v\":", ",\"n\":-1}"),
    ("Holder repeated", go::<Holder>, "{\"v\":", ",\"v\":2,\"n\":1}"),
    ("Holder missing", go::<Holder>, "{\"v\":", "}"),
    ("HolderArr", go::<HolderArr>, "{\"n\":1,\"v\":", "}"),
    ("HolderObj", go::<HolderObj>, "{\"n\":1,\"v\":", "}"),
    ("HolderObj bad", go::<HolderObj>, "{\"v\":", ",\"n\":\"\"}"),
    ("Picky ignoring", go::<Picky>, "{\"x\":", ",\"n\":1}"),
    ("Picky ignoring last", go::<Picky>, "{\"n\":1,\"x\":1,\"y\":", "}"),
    ("Picky ignoring, bad after", go::<Picky>, "{\"x\":", ",\"n\":[]}"),
    ("Vec<Picky> ignoring", go::<Vec<Picky>>, "[{},{\"x\":", "}]"),
    ("Picky mistyped", go::<Picky>, "{\"n\":", "}"),
    ("u8", go::<u8>, "", ""),
    ("String", go::<String>, "", ""),
    ("()", go::<()>, "", ""),
    ("Vec<u8>", go::<Vec<u8>>, "[", "]"),
    ("[u8; 1]", go::<[u8; 1]>, "[", "]"),
    ("Vec<String>", go::<Vec<String>>, "[\"\",", "]"),
    ("BTreeMap<u8, u8>", go::<BTreeMap<u8, u8>>, "{\"1\":", "}"),
    ("trailing", go::<Value>, "", " x"),
    ("trailing deep", go::<Value>, "1", ""),
];

/// What happens to the text before it arrives.
#[derive(Clone, Copy)]
enum Harm {
    None,
    /// Cut at this fraction (of 1024) of the text.
    Cut(u64),
    /// One byte replaced at this fraction.
    Byte(u64, u8),
    /// The k-th fraction of its allocations refused.
    Oom(u64),
}

fn harm(t: &mut Tape) -> Harm {
    match t.weighted(&[5, 4, 4, 2]) {
        0 => Harm::None,
        1 => Harm::Cut(t.draw(1025)),
        2 => Harm::Byte(t.draw(1024), *t.pick(b"!]}[{,:\"x0\\\x01 ")),
        _ => Harm::Oom(t.draw(1024)),
    }
}
fn at(len: usize, f: u64) -> usize {
    (len as u128 * u128::from(f) / 1024) as usize
}

/// One way of using deep data; returns the stack it took at this depth.
type Job = Box<dyn Fn(usize) -> (Out<String>, usize)>;

fn measured(f: impl FnOnce() -> String) -> (Out<String>, usize) {
    let (r, used) = sim::stack_use(PAINT, || sim::sut(f));
    sim::stat("calls", 1);
    sim::step();
    (r, used)
}

fn receive(t: &mut Tape) -> (String, Job) {
    let sh = Shape::pick(t, true);
    let &(name, f, pre, post) = t.pick(RECV);
    let h = harm(t);
    let broad = if t.chance(1, 6) { t.range(2, 5) } else { 1 };
    WEIGHT.with(|w| w.set(w.get() * broad));
    let what = format!(
        "from_str::<{name}>{}",
        match h {
            Harm::None => String::new(),
            Harm::Cut(f) => format!(", cut at {f}/1024"),
            Harm::Byte(f, b) => format!(", byte at {f}/1024 overwritten with {:?}", b as char),
            Harm::Oom(f) => format!(", allocation at {f}/1024 refused"),
        }
    );
    if !matches!(h, Harm::None) {
        sim::stat(
            match h {
                Harm::Cut(_) => "fault.torn-deep-text",
                Harm::Byte(..) => "fault.damaged-deep-text",
                _ => "fault.allocation-refused",
            },
            1,
        );
    }
    let job = Box::new(move |depth: usize| {
        let (one, _) = sh.text(depth);
        let mut s = String::from(pre);
        if broad > 1 {
            s.push('[');
        }
        for i in 0..broad {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&one);
        }
        if broad > 1 {
            s.push(']');
        }
        s.push_str(post);
        match h {
            Harm::Cut(f) => s.truncate(at(s.len(), f)),
            Harm::Byte(f, b) => {
                let mut v = s.into_bytes();
                let i = at(v.len(), f);
                v[i] = b;
                s = String::from_utf8(v).expect("ASCII");
            }
            Harm::Oom(f) => {
                alloc::begin_call();
                let _ = sim::sut(|| f_call(f_ptr(name), &s));
                let n = alloc::N_ALLOC.load(Relaxed) as usize;
                alloc::begin_call();
                alloc::FAIL_AT.store(at(n, f) as u64 + 1, Relaxed);
            }
            Harm::None => {}
        }
        let r = measured(|| match f(&s) {
            Ok(true) => "value".to_owned(),
            _ => "error".to_owned(),
        });
        alloc::FAIL_AT.store(0, Relaxed);
        r
    });
    (what, job)
}
fn f_ptr(name: &str) -> fn(&str) -> Result<bool, ()> {
    RECV.iter().find(|r| r.0 == name).expect("receiver").1
}
fn f_call(f: fn(&str) -> Result<bool, ()>, s: &str) -> String {
    match f(s) {
        Ok(true) => "value".to_owned(),
        _ => "error".to_owned(),
    }
}

/// User types that nest, aborted while still going down (what is complete is never deep then), or
/// received in full and taken apart by hand.
fn receive_typed(t: &mut Tape) -> (String, Job) {
    let n = t.range(1, 4);
    let kinds: Vec<usize> = (0..n).map(|_| t.below(6)).collect();
    let how = t.draw(6);
    let frac = t.draw(1024);
    let hit = t.below(12);
    let byte = *t.pick(b"!]}:x0");
    let what = format!(
        "from_str of a nesting derived type through {kinds:?}, {}",
        ["complete", "cut on the way down", "damaged on the way down", "participant error at the bottom", "participant panic at the bottom", "mistyped at the bottom"][how as usize]
    );
    let job = Box::new(move |depth: usize| {
        let (mut s, half) = rec_text(&kinds, depth, how == 3 || how == 4);
        match how {
            1 => s.truncate(at(half, frac)),
            2 => {
                let mut v = s.into_bytes();
                // A spot that is structure, or the text might stay valid and reach full depth.
                let mut i = at(half, frac);
                while !matches!(v[i], b'{' | b'[' | b':') {
                    i -= 1;
                }
                // (Closing a list right after it opened would leave text that goes on to the bottom and
                // back up: the value that then fails to fit is complete and deep.)
                v[i] = if byte == b']' && i > 0 && v[i - 1] == b'[' { b'!' } else { byte };
                s = String::from_utf8(v).expect("ASCII");
            }
            5 => s = format!("{}[\"\"]", &s[..half - 2]),
            _ => {}
        }
        let fault = match how {
            3 => vec![part::Fault { at: hit % 3, kind: FK::Err }],
            4 => vec![part::Fault { at: hit % 3, kind: FK::Panic }],
            _ => vec![],
        };
        let saved = part::swap(part::fresh(fault));
        // Built-up values are handed out before they are dropped, so that only the library is measured.
        let mut got = None;
        let (r, used) = measured(|| {
            match json::from_str::<Rec>(&s) {
                Ok(v) => got = Some(v),
                Err(_) => return "error".to_owned(),
            }
            "value".to_owned()
        });
        part::swap(saved);
        if let Some(v) = got {
            let _e = sim::enter();
            dismantle(v);
        }
        (r, used)
    });
    (what, job)
}

/// Serializing deep data, complete or with a panic on the way.
fn send(t: &mut Tape) -> (String, Job) {
    let kind = t.draw(5);
    let sh = Shape::pick(t, true);
    let n = t.range(1, 4);
    let kinds: Vec<usize> = (0..n).map(|_| t.below(6)).collect();
    let frac = t.draw(1024);
    let dk = t.below(64);
    let what = ["to_string of a Value", "to_string of a nesting derived type", "to_string of lending streams", "to_string of lending streams, one callback panics", "to_string with a destructor of a stream that panics"][kind as usize].to_owned();
    let job: Job = match kind {
        0 => Box::new(move |depth| {
            let text = sh.canon(depth);
            let v = {
                let _e = sim::enter();
                sh.build(depth)
            };
            let mut out = String::new();
            let (r, used) = measured(|| {
                out = json::to_string(&v);
                "value".to_owned()
            });
            if out != text {
                violate!("wrong-output", "a Value nested {depth} deep was written as {} instead of {}", crate::refjson::brief(&out), crate::refjson::brief(&text));
            }
            let _e = sim::enter();
            drop((v, out));
            (r, used)
        }),
        1 => Box::new(move |depth| {
            let (text, _) = rec_text(&kinds, depth, false);
            let _e = sim::enter();
            let v = json::from_str::<Rec>(&text);
            let v = match v {
                Ok(v) => v,
                Err(_) => {
                    violate!("rejected-valid", "a derived type nested {depth} deep was refused");
                    return (Ok(String::new()), 0);
                }
            };
            let mut out = String::new();
            let r = measured(|| {
                out = json::to_string(&v);
                "value".to_owned()
            });
            if out.len() < text.len() {
                violate!("wrong-output", "a derived type nested {depth} deep was written as {} bytes", out.len());
            }
            dismantle(v);
            r
        }),
        _ => Box::new(move |depth| {
            let fault = match kind {
                3 => vec![part::Fault { at: at(depth * 2, frac), kind: FK::Panic }],
                _ => vec![],
            };
            let mut ctx = part::fresh(fault);
            ctx.quiet = true;
            if kind == 4 {
                ctx.drop_panic = Some(at(depth, frac));
            }
            let saved = part::swap(ctx);
            let r = measured(|| {
                let d = Deep::new(depth, dk);
                let s = json::to_string(&d);
                drop(s);
                "value".to_owned()
            });
            part::swap(saved);
            r
        }),
    };
    (what, job)
}

fn null() -> Value {
    Value::Null
}

const WAYS: &[&str] = &[
    "drop", "overwrite", "mem::take", "mem::replace", "dropped by a panic", "Vec of values", "Option", "Box", "tuple", "map of values", "hash map of values", "array of values",
    "pop", "clear", "truncate", "remove", "swap_remove", "drain", "retain", "into_iter, abandoned", "into_iter, from the back", "assign through iter_mut", "assign through index", "split_off", "dedup",
    "extend into another", "collect", "resize", "insert over", "peel by into_iter", "peel by pop", "peel by take", "clone_from over", "drop in another thread", "object by parts", "shrink and drain", "two deep siblings", "Rc",
];

/// Letting go of a deep Value in many ways.
fn let_go(t: &mut Tape) -> (String, Job) {
    let sh = Shape::pick(t, true);
    let way = t.below(WAYS.len());
    let parsed = t.chance(1, 2);
    let x = t.below(8);
    let what = format!("letting go of a deep Value by: {}", WAYS[way]);
    let job = Box::new(move |depth: usize| {
        let make = || -> Value {
            let _e = sim::enter();
            if parsed {
                let (text, _) = sh.text(depth);
                match json::from_str(&text) {
                    Ok(v) => v,
                    Err(_) => {
                        violate!("rejected-valid", "a valid document nested {depth} deep was refused");
                        null()
                    }
                }
            } else {
                sh.build(depth)
            }
        };
        let v = make();
        let w = if matches!(way, 5 | 11 | 36) { Some(make()) } else { None };
        measured(move || {
            release(way, x, v, w);
            "value".to_owned()
        })
    });
    (what, job)
}

/// In an array with neighbours.
fn around(v: Value, x: usize) -> Array {
    let mut a = Array::new();
    a.extend((0..x % 4).map(|_| null()));
    a.push(v);
    a.extend((0..x / 4).map(|_| Value::Array(Array::new())));
    a
}
fn around_obj(v: Value, x: usize) -> Object {
    let mut o = Object::new();
    for i in 0..x % 4 {
        o.insert(format!("a{i}"), null());
    }
    o.insert("m".to_owned(), v);
    for i in 0..x / 4 {
        o.insert(format!("z{i}"), Value::Object(Object::new()));
    }
    o
}

fn release(way: usize, x: usize, mut v: Value, w: Option<Value>) {
    let i = x % 4;
    match way {
        0 => drop(v),
        1 => {
            v = null();
            drop(v);
        }
        2 => drop(std::mem::take(&mut v)),
        3 => drop(std::mem::replace(&mut v, Value::Bool(true))),
        4 => {
            let _hold = v;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _hold = _hold;
                sim::inject_panic();
            }));
            drop(r);
        }
        5 => drop(vec![null(), v, w.unwrap_or_default()]),
        6 => {
            let mut o = Some(v);
            o.take();
        }
        7 => drop(Box::new(v)),
        8 => drop((1u8, v, String::new())),
        9 => drop(BTreeMap::from([(1, v), (2, null())])),
        10 => drop(HashMap::from([(1, v), (2, null())])),
        11 => drop([v, w.unwrap_or_default()]),
        12 => {
            let mut a = around(v, x);
            while a.pop().is_some() {}
        }
        13 => around(v, x).clear(),
        14 => around(v, x).truncate(i),
        15 => drop(around(v, x).remove(i)),
        16 => drop(around(v, x).swap_remove(i)),
        17 => drop(around(v, x).drain(..)),
        18 => around(v, x).retain(|_| false),
        19 => {
            let mut it = around(v, x).into_iter();
            for _ in 0..x % 3 {
                it.next();
            }
        }
        20 => {
            let mut it = around(v, x).into_iter();
            while it.next_back().is_some() {}
        }
        21 => around(v, x).iter_mut().for_each(|e| *e = null()),
        22 => around(v, x)[i] = null(),
        23 => drop(around(v, x).split_off(i)),
        24 => around(v, x).dedup_by(|_, _| true),
        25 => {
            let mut b = vec![null()];
            b.extend(around(v, x));
        }
        26 => drop(around(v, x).into_iter().collect::<Array>()),
        27 => around(v, x).resize_with(0, null),
        28 => {
            let mut o = around_obj(v, x);
            o.insert("m".to_owned(), null());
        }
        29 => loop {
            v = match v {
                Value::Array(a) => match a.into_iter().find(deep) {
                    Some(v) => v,
                    None => break,
                },
                Value::Object(o) => match o.into_iter().map(|x| x.1).find(deep) {
                    Some(v) => v,
                    None => break,
                },
                _ => break,
            }
        },
        30 => loop {
            v = match &mut v {
                Value::Array(a) => match a.pop() {
                    Some(v) => v,
                    None => break,
                },
                Value::Object(o) => match o.pop_first() {
                    Some((_, v)) => v,
                    None => break,
                },
                _ => break,
            }
        },
        31 => loop {
            let next = match &mut v {
                Value::Array(a) => a.iter_mut().find(|v| deep(v)).map(std::mem::take),
                Value::Object(o) => o.values_mut().find(|v| deep(v)).map(std::mem::take),
                _ => None,
            };
            match next {
                Some(n) => v = n,
                None => break,
            }
        },
        32 => {
            let mut a = around(v, x);
            a.clone_from(&Array::new());
        }
        33 => {
            // The other thread's stack is fixed and small; overflow would end the process.
            let _p = sim::pause();
            let th = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
                let _e = sim::enter();
                drop(v);
            });
            let _ = th.expect("spawn").join();
        }
        34 => {
            let mut o = around_obj(v, x);
            match x % 6 {
                0 => drop(o.remove("m")),
                1 => o.clear(),
                2 => o.retain(|k, _| k != "m"),
                3 => drop(o.split_off("b")),
                4 => while o.pop_last().is_some() {},
                _ => {
                    let mut it = o.into_iter();
                    it.next();
                    it.next_back();
                }
            }
        }
        35 => {
            let mut a = around(v, x);
            a.shrink_to_fit();
            let mut d = a.drain(i..);
            d.next_back();
            d.next();
        }
        36 => {
            let mut o = around_obj(v, x);
            o.insert("b".to_owned(), w.unwrap_or_default());
            drop(o);
        }
        _ => drop(std::rc::Rc::new(v)),
    }
}

fn deep(v: &Value) -> bool {
    matches!(v, Value::Array(_) | Value::Object(_))
}

/// Reading a deep document and sending it on unread.
fn relay(t: &mut Tape) -> (String, Job) {
    let sh = Shape::pick(t, false);
    let job = Box::new(move |depth: usize| {
        let (text, _) = sh.text(depth);
        let mut out = String::new();
        let r = measured(|| match json::from_str::<Value>(&text) {
            Ok(v) => {
                out = json::to_string(&v);
                "value".to_owned()
            }
            Err(_) => "error".to_owned(),
        });
        if out != text {
            violate!("wrong-output", "a document nested {depth} deep came back as {} instead of {}", crate::refjson::brief(&out), crate::refjson::brief(&text));
        }
        let _e = sim::enter();
        drop(out);
        r
    });
    ("reading and writing a deep document".to_owned(), job)
}

pub fn c08(t: &mut Tape, tier: Tier) {
    let n = t.range(1, 3);
    for _ in 0..n {
        if sim::violated() {
            break;
        }
        WEIGHT.with(|w| w.set(0));
        let (what, job) = match t.weighted(&[8, 4, 4, 8, 1]) {
            0 => receive(t),
            1 => receive_typed(t),
            2 => send(t),
            3 => let_go(t),
            _ => relay(t),
        };
        let top = tier.pick(6_000, 30_000, 40);
        let far = tier.pick(20_000, 200_000, 40);
        let depth = if t.chance(1, 40) { far } else { t.range(top / 2, top) };
        let depth = depth.min((6_000_000 / WEIGHT.with(|w| w.get()).max(1)).max(2_500));
        note!("{what}, at depths {SHALLOW} and {depth}");
        alloc::begin_call();
        let (r0, s0) = job(SHALLOW);
        let (r1, s1) = job(depth);
        note!("   {r0:?} with {s0} bytes of stack, {r1:?} with {s1} bytes");
        for r in [&r0, &r1] {
            if let Err(Stop::Unexpected(m)) = r {
                violate!("panic", "{what} panicked: {m}");
            }
        }
        sim::stat_max("coverage.deepest", depth as u64);
        sim::stat_max("coverage.stack_bytes_deep", s1 as u64);
        sim::stat("coverage.depth_levels", depth as u64);
        sim::observe_str(&what);
        sim::observe(s0 as u64 / 4096);
        sim::observe(depth as u64);
        sim::stat("steps.levels", depth as u64);
        for _ in 0..3 {
            sim::step();
        }
        if s1 > s0 + GROWTH {
            violate!("stack-grows", "{what}: {s0} bytes of stack at depth {SHALLOW}, {} at depth {depth}", if s1 >= PAINT { format!("at least {PAINT} bytes") } else { format!("{s1} bytes") });
        }
    }
    if alloc::FAIL_FIRED.load(Relaxed) {
        // std itself leaks a hash table one of whose elements unwinds while being dropped.
        sim::safety_check();
    } else {
        sim::conservation_check("after the deep work");
    }
}
