//! C15: allocations, live heap bytes and CPU time of calls on good, torn and hostile input.

use crate::exec::pick_type;
use crate::part;
use crate::refjson::brief;
use crate::sim;
use crate::tape::Tape;
use crate::zoo::{self, Entry, Gen, S};
use crate::{alloc, clock, note, violate, Tier};
use miniserde::json::{self, Value};
use std::sync::atomic::Ordering::Relaxed;

/// Heap bytes a call may hold whatever the input; per byte of input see `per_byte`.
const FLAT: u64 = 6 << 10;
/// Allocations per byte of input, and whatever the input.
const ALLOCS_PER_BYTE: u64 = 2;
const ALLOCS_FLAT: u64 = 40;
/// Simulated nanoseconds (see clock.rs) per byte, four times the most ever seen, and whatever the input.
const TICKS_PER_BYTE: u64 = 240;
const TICKS_FLAT: u64 = 40_000;
const BIG: usize = 50_000;

/// Inline size of the type and length of its shortest document, roughly.
fn size(s: &S, d: usize) -> (u64, u64) {
    if d == 0 {
        return (24, 2);
    }
    match s {
        S::Unit => (1, 4),
        S::Bool => (1, 4),
        S::Int(..) | S::Level(_) | S::F64 | S::F32 => (16, 1),
        S::Number => (16, 1),
        S::Str => (24, 2),
        S::Enum(v) => (1, v.iter().map(|x| x.len()).min().unwrap_or(0) as u64 + 2),
        S::Boxed(_) => (8, size(s_in(s), d - 1).1),
        S::Opt(i) => (size(i, d - 1).0 + 8, 1),
        S::Pair(a, b) => (size(a, d - 1).0 + size(b, d - 1).0, size(a, d - 1).1 + size(b, d - 1).1 + 3),
        S::Arr(n, i) => (*n as u64 * size(i, d - 1).0, (*n as u64 * (size(i, d - 1).1 + 1)).max(2)),
        S::Struct(f) => (f.iter().map(|x| size(&x.1, d - 1).0 + 8).sum(), 2),
        S::Value => (32, 1),
        S::Lazy(f) => size(&f(), d - 1),
        _ => (48, 2),
    }
}
fn s_in(s: &S) -> &S {
    match s {
        S::Boxed(i) | S::Opt(i) | S::Vec(i) | S::Arr(_, i) | S::Map(_, i, _) => i,
        _ => s,
    }
}
/// Types themselves so large that the work is more than a constant per byte of text.
fn vast(s: &S) -> bool {
    match s {
        S::Vec(i) | S::Boxed(i) | S::Opt(i) => vast(i),
        S::Enum(v) => v.len() > 100,
        _ => size(s, 6).0 > 2_000,
    }
}

/// The most heap bytes per byte of text that any container in the type can honestly need.
fn hunger(s: &S, d: usize) -> u64 {
    if d == 0 {
        return 0;
    }
    match s {
        S::Value | S::VArr | S::VObj => 60,
        S::Vec(i) => {
            let (z, m) = size(i, 6);
            (3 * z / (m + 1)).max(hunger(i, d - 1))
        }
        S::Map(_, i, _) => {
            let (z, m) = size(i, 6);
            (4 * (z + 24) / (m + 4)).max(hunger(i, d - 1))
        }
        S::Boxed(i) => {
            let (z, m) = size(i, 6);
            (2 * z / (m + 1)).max(hunger(i, d - 1))
        }
        S::Opt(i) | S::Arr(_, i) => hunger(i, d - 1),
        S::Pair(a, b) => hunger(a, d - 1).max(hunger(b, d - 1)),
        S::Struct(f) => f.iter().map(|x| hunger(&x.1, d - 1)).max().unwrap_or(0).max(size(s, 6).0 / 4),
        S::Lazy(f) => hunger(&f(), d - 1),
        _ => 0,
    }
}
/// Builders and the parser's own stack, for one opening bracket per byte; and what the type needs.
fn per_byte(e: &Entry) -> u64 {
    NEST_BYTES + 4 * hunger(&e.schema, 5)
}
const NEST_BYTES: u64 = 100;

const OPEN: &[(&str, &str)] = &[
    ("[", "]"),
    ("{\"a\":", "}"),
    ("[{\"\":", "}]"),
    ("[[],", "]"),
    ("[0,", "]"),
    ("{\"\":[", "]}"),
    ("{\"next\":", ",\"v\":1}"),
    ("{\"v\":1,\"next\":", "}"),
    ("{\"name\":\"\",\"kids\":[", "]}"),
    ("{\"a\":1,\"b\":", "}"),
    ("[{},", "]"),
    (" [\n", " ]"),
];
const UNIT: &[&str] = &[
    "1", "0", "[]", "{}", "\"\"", "null", "true", "[[]]", "-1", "1e5", "0.5", "{\"a\":1}", "\"\\n\"", "[[],[]]", "{\"\":{}}", "\"abcdefgh\"", "{\"x\":1,\"y\":2}", "[1,\"a\"]", "123456789012345678901234567890", "\"\\ud83d\\ude00\"", "{\"id\":1,\"name\":\"n\"}",
];
const CHARS: &[&str] = &["a", "\\n", "\\u0041", "\\ud83d\\ude00", "é", "\u{1f600}", "\\\\", "\\\"", " ", "ab\\t", "\\u00e9x", "/"];

fn input(t: &mut Tape, n: usize) -> (String, &'static str) {
    let mut s = String::with_capacity(n + 64);
    let kind = t.weighted(&[5, 5, 4, 4, 3, 1, 2, 2]);
    let name = ["deep", "wide array", "wide object", "long string", "long number", "blanks", "ignored", "small and hostile"][kind];
    match kind {
        0 => {
            let k = t.range(1, 3);
            let us: Vec<_> = (0..k).map(|_| *t.pick(OPEN)).collect();
            let close = t.chance(2, 3);
            let mut st = Vec::new();
            let mut i = 0;
            while s.len() < n {
                let u = us[i % k];
                s.push_str(u.0);
                st.push(u.1);
                i += 1;
            }
            if close {
                s.push_str(t.pick(&["1", "[]", "{}", "null", "\"x\"", ""]));
                st.iter().rev().for_each(|c| s.push_str(c));
            }
        }
        1 => {
            let k = t.range(1, 3);
            let us: Vec<_> = (0..k).map(|_| *t.pick(UNIT)).collect();
            let nest = t.below(3);
            s.push_str(&"[".repeat(nest + 1));
            let mut i = 0;
            while s.len() < n {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(us[i % k]);
                i += 1;
            }
            s.push_str(&"]".repeat(nest + 1));
        }
        2 | 6 => {
            let u = *t.pick(UNIT);
            let distinct = t.chance(2, 3);
            let mut i = 0;
            s.push('{');
            while s.len() < n {
                if i > 0 {
                    s.push(',');
                }
                if distinct {
                    s.push_str(&format!("\"{}{i}\":", if kind == 6 { "zz" } else { "" }));
                } else {
                    s.push_str("\"\":");
                }
                s.push_str(u);
                i += 1;
            }
            s.push('}');
        }
        3 => {
            let k = t.range(1, 3);
            let us: Vec<_> = (0..k).map(|_| *t.pick(CHARS)).collect();
            let (a, b) = *t.pick(&[("\"", "\""), ("[\"", "\"]"), ("{\"", "\":1}"), ("{\"a\":\"", "\"}"), ("\"", ""), ("{\"", "")]);
            s.push_str(a);
            let mut i = 0;
            while s.len() < n {
                s.push_str(us[i % k]);
                i += 1;
            }
            s.push_str(b);
        }
        4 => {
            let d = *t.pick(&["0", "1", "9"]);
            let (a, b) = *t.pick(&[("1", ""), ("-1", ""), ("0.", "1"), ("1.", ""), ("1", "e5"), ("1e", ""), ("1e-", ""), ("[1", "]"), ("0.", "1e99999"), ("1", "e-99999"), ("{\"a\":1", "}"), ("[0.0", "1]")]);
            s.push_str(a);
            while s.len() < n {
                s.push_str(d);
            }
            s.push_str(b);
        }
        5 => {
            let w = *t.pick(&[" ", "\n", "\t\r", "  "]);
            let (a, b) = *t.pick(&[("", "1"), ("[", "]"), ("[1", ",2]"), ("{", "}"), ("{\"a\"", ":1}"), ("1", ""), ("", "")]);
            s.push_str(a);
            while s.len() < n {
                s.push_str(w);
            }
            s.push_str(b);
        }
        _ => {
            let big = *t.pick(&["18446744073709551615", "1e308", "9223372036854775807", "4294967295", "99999999999", "1e18"]);
            let f = *t.pick(&["@", "[@]", "{\"len\":@}", "{\"a\":@}", "[@,@,@]", "{\"@\":@}", "\"@\"", "{\"id\":@,\"name\":\"\"}", "[[@]]"]);
            s = f.replace('@', big);
        }
    }
    if t.chance(1, 4) {
        let mut k = t.below(s.len() + 1);
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        sim::stat("fault.torn-text", 1);
    } else if t.chance(1, 5) && s.len() < 5000 {
        s = crate::damage::damage(t, &s, &["[[[[", "\"\\u"]);
        sim::stat("fault.damaged-text", 1);
    }
    (s, name)
}

struct Meter {
    live0: u64,
    t0: u64,
}
fn begin(n: usize, max_bytes: u64, max_allocs: u64) -> Meter {
    alloc::begin_call();
    let live0 = alloc::LIVE_BYTES.load(Relaxed);
    alloc::MAX_LIVE.store(live0 + max_bytes, Relaxed);
    alloc::MAX_ALLOCS.store(max_allocs, Relaxed);
    let t0 = clock::now();
    clock::deadline(t0 + 10 * (TICKS_FLAT + TICKS_PER_BYTE * n as u64));
    Meter { live0, t0 }
}
struct Cost {
    allocs: u64,
    peak: u64,
    ticks: u64,
}
fn end(m: &Meter) -> Cost {
    let ticks = clock::now() - m.t0;
    clock::deadline(u64::MAX);
    alloc::MAX_LIVE.store(u64::MAX, Relaxed);
    alloc::MAX_ALLOCS.store(u64::MAX, Relaxed);
    Cost { allocs: alloc::N_ALLOC.load(Relaxed), peak: alloc::PEAK_BYTES.load(Relaxed).saturating_sub(m.live0), ticks }
}

fn judge(what: &str, n: usize, c: &Cost, per_byte: u64) {
    let n64 = n as u64;
    sim::stat_max("coverage.peak_bytes_per_byte_x100", if n >= 1000 { c.peak * 100 / n64 } else { 0 });
    sim::stat_max("coverage.allocs_per_byte_x100", if n >= 1000 { c.allocs * 100 / n64 } else { 0 });
    sim::stat_max("coverage.largest_input", n64);
    if c.peak > FLAT + per_byte * n64 {
        violate!("memory", "{what}: held {} bytes for {n} bytes of text", c.peak);
    }
    if c.allocs > ALLOCS_FLAT + ALLOCS_PER_BYTE * n64 {
        violate!("allocations", "{what}: {} allocations for {n} bytes of text", c.allocs);
    }
    sim::stat("sim.clock_ns", c.ticks);
    sim::stat_max("coverage.ticks_per_byte_x100", c.ticks.saturating_sub(TICKS_FLAT / 4) * 100 / n64.max(1));
    if c.ticks > TICKS_FLAT + TICKS_PER_BYTE * n64 {
        violate!("time", "{what}: {} simulated ns for {n} bytes of text", c.ticks);
    }
    // std's own hasher is seeded outside the simulation: the order of the members varies.
    if !what.contains("StdHashMap") {
        sim::observe(c.allocs);
        sim::observe(c.peak);
    }
    sim::step();
}

const MAIN: &[&str] = &[
    "Value", "Array", "Object", "Vec<Value>", "Box<Value>", "Option<Value>", "()", "String", "u64", "f64", "Vec<()>", "Vec<u8>", "Vec<String>", "Empty", "Color", "BM<String, u32>", "HM<String, u32>", "StdHashMap<String, u32>", "[u8; 0]",
    "[u8; 1]", "(u8, String)", "Number", "Node", "Tree", "Vec<Vec<u8>>",
];

/// Many small elements or entries, all fitting the type.
fn typed_wide(t: &mut Tape, s: &S, n: usize) -> Option<String> {
    let (i, map) = match s {
        S::Vec(i) => (i, false),
        S::Map(_, i, _) => (i, true),
        S::Boxed(i) | S::Opt(i) => return typed_wide(t, i, n),
        _ => return None,
    };
    let g = Gen { width: *t.pick(&[0, 1, 3]), depth: 2, wild: 0, ..zoo::GEN };
    let k = t.range(1, 3);
    let units: Vec<String> = (0..k)
        .map(|_| {
            let a = zoo::gen(i, t, 2, &g);
            let mut o = String::new();
            crate::refjson::render(&a, &mut o, t, crate::refjson::Style { ws: 0, esc: 0 });
            o
        })
        .collect();
    let mut o = String::from(if map { "{" } else { "[" });
    let mut j = 0;
    while o.len() < n {
        if j > 0 {
            o.push(',');
        }
        if map {
            o.push_str(&format!("\"{j}\":"));
        }
        o.push_str(&units[j % k]);
        j += 1;
    }
    o.push(if map { '}' } else { ']' });
    if t.chance(1, 5) {
        let mut k = n;
        while !o.is_char_boundary(k) {
            k -= 1;
        }
        o.truncate(k);
    }
    Some(o)
}

fn receive(t: &mut Tape, tier: Tier) {
    let e: &'static Entry = if t.chance(1, 3) {
        zoo::find(*t.pick(MAIN))
    } else {
        pick_type(t, &|e| !e.probing && !vast(&e.schema))
    };
    let per_byte = per_byte(e);
    let n = match t.weighted(&[6, 3, 1]) {
        0 => t.range(1, 2000),
        1 => t.range(2000, 20_000),
        _ => t.range(BIG, tier.pick(150_000, 1_000_000, BIG)),
    };
    zoo::set_hasher(t.draw(1 << 16), 0);
    let wide = if t.chance(1, 2) { typed_wide(t, &e.schema, n.min(20_000)) } else { None };
    let (text, family) = if let Some(s) = wide {
        (s, "a wide document of the type")
    } else if t.chance(1, 6) {
        let g = Gen { width: *t.pick(&[8, 30, 60]), depth: 3, wild: *t.pick(&[0, 20]), ..zoo::GEN };
        (crate::exec::gen_case(t, e, &g).text, "a document of the type")
    } else {
        input(t, n)
    };
    let what = format!("from_str::<{}> of {} bytes ({family}: {})", e.name, text.len(), brief(&text));
    note!("{what}");
    let n = text.len();
    let saved = part::swap(part::fresh(vec![]));
    // Depth of derived types is limited by their own recursive drop; the stack here is large.
    let m = begin(n, FLAT + 2 * per_byte * n as u64, 2 * (ALLOCS_FLAT + ALLOCS_PER_BYTE * n as u64));
    let r = sim::sut(|| (e.from)(&text));
    let c = end(&m);
    sim::stat("calls", 1);
    sim::stat("coverage.input_bytes", n as u64);
    match &r {
        Ok(_) | Err(sim::Stop::Oom) => {}
        Err(s) => violate!("panic", "{what}: {s:?}"),
    }
    judge(&what, n, &c, per_byte);
    note!("   {} allocations, {} bytes, {} us simulated", c.allocs, c.peak, c.ticks / 1000);
    if let Some(f) = std::env::var_os("SIM_RATIOS").filter(|_| n >= 1000) {
        // For setting the bounds.
        use std::io::Write;
        let line = format!("{} {} {} {} {per_byte}\n", e.name.replace(' ', ""), c.peak / n as u64, c.allocs * 100 / n as u64, c.ticks / n as u64);
        let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).and_then(|mut f| f.write_all(line.as_bytes()));
    }
    if let Ok(Ok(obj)) = r {
        send(&what, &*obj);
        let m = begin(n, FLAT + per_byte * n as u64, ALLOCS_FLAT + ALLOCS_PER_BYTE * n as u64);
        let d = sim::sut(|| drop(obj));
        let c = end(&m);
        if d.is_err() && !sim::violated() {
            violate!("panic", "{what}: dropping the value: {d:?}");
        }
        judge(&format!("dropping the value of {what}"), n, &c, per_byte);
    } else {
        let _e = sim::enter();
        drop(r);
    }
    part::swap(saved);
}

/// to_string: in proportion to what it writes.
fn send(what: &str, obj: &dyn zoo::Obj) {
    let m = begin(1 << 22, u64::MAX / 4, u64::MAX);
    let r = sim::sut(|| obj.to_json());
    let c = end(&m);
    sim::stat("calls", 1);
    match r {
        Ok(s) => {
            judge(&format!("to_string of the value of {what}"), s.len(), &c, 120);
            let _e = sim::enter();
            drop(s);
        }
        Err(s) => violate!("panic", "to_string of the value of {what}: {s:?}"),
    }
}

/// Values built by hand: strings full of characters to escape, odd numbers, deep and wide ones.
fn send_built(t: &mut Tape, tier: Tier) {
    let n = *t.pick(&[10, 300, 5000, tier.pick(60_000, 300_000, 100)]);
    let v = {
        let _e = sim::enter();
        match t.draw(4) {
            0 => {
                let k = t.range(1, 3);
                let u: String = (0..k).map(|_| *t.pick(&['a', '"', '\\', '\n', '\u{0}', '\u{1f}', 'é', '\u{1f600}', '\u{7f}'])).collect();
                Value::String(u.repeat(n / u.len() + 1))
            }
            1 => {
                let mut v = Value::Null;
                for i in 0..n {
                    v = if i % 3 == 0 { Value::Object([(String::new(), v)].into_iter().collect()) } else { Value::Array([v].into_iter().collect()) };
                }
                v
            }
            2 => {
                let u = zoo::any(t, 1, &zoo::SENT);
                Value::Array((0..n / 8).map(|_| zoo::value_build(&u)).collect())
            }
            _ => Value::Object((0..n / 8).map(|i| (i.to_string(), Value::Bool(i % 2 == 0))).collect()),
        }
    };
    note!("to_string of a value built by hand, size {n}");
    let m = begin(1 << 22, u64::MAX / 4, u64::MAX);
    let r = sim::sut(|| json::to_string(&v));
    let c = end(&m);
    sim::stat("calls", 1);
    match r {
        Ok(s) => {
            judge("to_string of a value built by hand", s.len(), &c, 120);
            let _e = sim::enter();
            drop(s);
        }
        Err(s) => violate!("panic", "to_string of a value built by hand: {s:?}"),
    }
    let _e = sim::enter();
    drop(v);
}

pub fn c15(t: &mut Tape, tier: Tier) {
    let n = t.range(3, 9);
    for _ in 0..n {
        if sim::violated() {
            return;
        }
        if t.chance(1, 6) {
            send_built(t, tier);
        } else {
            receive(t, tier);
        }
    }
    sim::conservation_check("after every value was dropped");
}
