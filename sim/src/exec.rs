//! One call of the library under the simulator, with faults, and what came of it.

use crate::part::{self, Ctx, Ev, Fault, FK};
use crate::refjson::{self, Ast, Tol};
use crate::sim::{self, Out, Stop};
use crate::tape::Tape;
use crate::zoo::{self, Entry, Gen};
use crate::{alloc, note, violate};

/// What one from_str call did.
pub struct De {
    /// Unwound, refused, or the value (its abstract form).
    pub out: Out<Result<Ast, ()>>,
    /// Unwinding out of the destructor of the delivered value.
    pub dropped: Out<()>,
    pub json: Option<String>,
    pub ctx: Ctx,
}

impl De {
    pub fn ok(&self) -> Option<&Ast> {
        match &self.out {
            Ok(Ok(a)) => Some(a),
            _ => None,
        }
    }
    pub fn verdict(&self) -> String {
        match &self.out {
            Ok(Ok(a)) => format!("value {}", refjson::show(a)),
            Ok(Err(())) => "Err".to_owned(),
            Err(s) => format!("unwound ({s:?})"),
        }
    }
}

pub struct Opt {
    /// Also serialize the value obtained.
    pub reser: bool,
}

/// Calls from_str::<T>, takes the value's abstract form, drops it.
pub fn de(e: &Entry, text: &str, ctx: Ctx) -> De {
    de_opt(e, text, ctx, false)
}
pub fn de_opt(e: &Entry, text: &str, ctx: Ctx, reser: bool) -> De {
    sim::stat("calls", 1);
    sim::step();
    let saved = part::swap(ctx);
    // The input lives in a block of exactly its size, which is poisoned after the call.
    let buf: Box<str> = {
        let _e = sim::enter();
        let f = alloc::FAIL_AT.swap(0, std::sync::atomic::Ordering::Relaxed);
        let b = Box::<str>::from(text);
        alloc::begin_call();
        alloc::FAIL_AT.store(f, std::sync::atomic::Ordering::Relaxed);
        b
    };
    let r = sim::sut(|| (e.from)(&buf));
    {
        let _e = sim::enter();
        drop(buf);
    }
    let mut json = None;
    let (out, dropped) = match r {
        Ok(Ok(obj)) => {
            let a = obj.value();
            if reser {
                match sim::sut(|| obj.to_json()) {
                    Ok(s) => {
                        json = Some(s.as_str().to_owned());
                        let _e = sim::enter();
                        drop(s);
                    }
                    Err(Stop::Injected | Stop::Oom) => json = Some("unwound".to_owned()),
                    Err(s) => violate!("serialize-panicked", "to_string of {} unwound: {s:?}", refjson::show(&a)),
                }
            }
            let d = sim::sut(|| drop(obj));
            (Ok(Ok(a)), d)
        }
        Ok(Err(())) => (Ok(Err(())), Ok(())),
        Err(s) => (Err(s), Ok(())),
    };
    let ctx = part::swap(saved);
    let r = De { out, dropped, json, ctx };
    sim::observe_str(match &r.out {
        Ok(Ok(_)) => "ok",
        Ok(Err(())) => "err",
        Err(_) => "unwound",
    });
    if let Some(a) = r.ok() {
        sim::observe(hash_ast(a));
    }
    note!("  from_str::<{}>({}) -> {}", e.name, refjson::brief(text), r.verdict());
    r
}

pub fn hash_ast(a: &Ast) -> u64 {
    use crate::tape::{hash_str, mix};
    match a {
        Ast::Null => 1,
        Ast::Bool(b) => 2 + u64::from(*b),
        Ast::Num(refjson::Num::F(f)) => mix(5, hash_str(&format!("{f:.9e}"))),
        Ast::Num(refjson::Num::F32(f)) => mix(6, hash_str(&format!("{f:.5e}"))),
        Ast::Num(n) => mix(7, hash_str(&format!("{n:?}"))),
        Ast::Raw(s) | Ast::Str(s) => mix(8, hash_str(s)),
        Ast::Arr(v) => v.iter().fold(9, |h, e| mix(h, hash_ast(e))),
        Ast::Obj(v) => v.iter().fold(10, |h, (k, e)| mix(mix(h, hash_str(k)), hash_ast(e))),
        Ast::Set(v) => v.iter().fold(11, |h, (k, e)| h.wrapping_add(mix(hash_str(k), hash_ast(e)))),
    }
}

/// A type and a document for it.
pub struct Case {
    pub e: &'static Entry,
    pub text: String,
    /// The reference decoder's reading of the text.
    pub ast: Result<Ast, usize>,
    pub grey: bool,
    /// The value the reference model says the type must produce.
    pub want: Result<Ast, ()>,
}

impl Case {
    pub fn of(e: &'static Entry, text: String) -> Case {
        let p = refjson::parse(&text);
        let mut grey = p.grey;
        let want = match &p.ast {
            Ok(a) => zoo::decode(&e.schema, a, &mut grey),
            Err(_) => Err(()),
        };
        Case { e, text, ast: p.ast, grey, want }
    }
    /// The document after a faulty program had it: members repeated, lost, moved.
    pub fn restructured(&self, t: &mut Tape) -> Case {
        let Ok(a) = &self.ast else {
            return Case::of(self.e, self.text.clone());
        };
        let a = crate::damage::restructure(t, a);
        let st = refjson::pick_style(t);
        let mut s = String::new();
        refjson::render(&a, &mut s, t, st);
        Case::of(self.e, s)
    }
    pub fn trace(&self) -> (Vec<Ev>, bool) {
        let mut v = Vec::new();
        let ok = match &self.ast {
            Ok(a) => zoo::trace(&self.e.schema, a, &mut v).is_ok(),
            Err(_) => false,
        };
        (v, ok)
    }
    pub fn noted(self) -> Case {
        note!("type {}, document {}", self.e.name, refjson::brief(&self.text));
        self
    }
}

pub fn pick_type(t: &mut Tape, f: &dyn Fn(&Entry) -> bool) -> &'static Entry {
    let bare = zoo::bare();
    let c: Vec<&'static Entry> = zoo::table().iter().filter(|e| !(bare && e.hashing) && f(e)).collect();
    if c.is_empty() {
        // Only hash maps will do here, and there are none.
        return zoo::find("Value");
    }
    let e = *t.pick(&c);
    sim::stat("coverage.type_draws", 1);
    e
}

pub fn gen_case(t: &mut Tape, e: &'static Entry, g: &Gen) -> Case {
    let d = t.range(1, g.depth);
    let a = zoo::gen(&e.schema, t, d, g);
    let st = refjson::pick_style(t);
    let mut s = String::new();
    refjson::render(&a, &mut s, t, st);
    Case::of(e, s).noted()
}

pub fn pick_hasher(t: &mut Tape) {
    let seed = t.draw(1 << 16);
    let mode = t.weighted(&[4, 2, 1, 1, 1, 1]) as u8;
    zoo::set_hasher(seed, mode);
    if mode != 0 {
        sim::stat("fault.colliding-hasher", 1);
    }
}

/// Up to `max` indices out of `0..n`: all of them if they fit, else a sorted sample that always
/// holds the first and the last.
pub fn indices(t: &mut Tape, n: usize, max: usize) -> Vec<usize> {
    if n <= max {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, n - 1];
    while v.len() < max {
        v.push(t.below(n));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn one(at: usize, kind: FK) -> Ctx {
    part::fresh(vec![Fault { at, kind }])
}

/// After every execution: nothing alive, nothing leaked, nothing corrupted.
/// `leaky`: std itself may leak (a destructor of a hash map element panicked).
pub fn settle(what: &str, d: &De, leaky: bool) {
    if leaky {
        sim::safety_check();
        // What std leaked is written off, not carried over to the next execution.
        sim::ledger_reset();
        alloc::write_off();
        return;
    }
    if !d.ctx.live.is_empty() {
        violate!("leak", "{what}: {} builder(s) were never destroyed", d.ctx.live.len());
    }
    sim::conservation_check(what);
    sim::ledger_reset();
    alloc::write_off();
}

pub fn same_or(a: &Ast, b: &Ast, tol: Tol) -> bool {
    refjson::same(a, b, tol)
}

/// Compare a fault-free call with the reference model.
pub fn check_model(c: &Case, d: &De, tol: Tol) {
    match (&d.out, &c.want) {
        (Err(s), _) => violate!("panic", "from_str::<{}>({}) panicked: {s:?}", c.e.name, refjson::brief(&c.text)),
        _ if c.grey => {}
        (Ok(Ok(got)), Ok(want)) => {
            if !refjson::same(got, want, tol) {
                violate!(
                    "wrong-value",
                    "from_str::<{}>({}) gave {} instead of {}",
                    c.e.name,
                    refjson::brief(&c.text),
                    refjson::show(got),
                    refjson::show(want)
                );
            }
        }
        (Ok(Ok(got)), Err(())) => match &c.ast {
            Err(at) => violate!(
                "accepted-non-json",
                "from_str::<{}>({}) accepted text that is not JSON (bad at byte {at}) as {}",
                c.e.name,
                refjson::brief(&c.text),
                refjson::show(got)
            ),
            Ok(_) => violate!(
                "accepted-mismatch",
                "from_str::<{}>({}) accepted a document that does not fit the type, as {}",
                c.e.name,
                refjson::brief(&c.text),
                refjson::show(got)
            ),
        },
        (Ok(Err(())), Ok(want)) => violate!(
            "rejected-valid",
            "from_str::<{}>({}) refused a document that fits the type; expected {}",
            c.e.name,
            refjson::brief(&c.text),
            refjson::show(want)
        ),
        (Ok(Err(())), Err(())) => {}
    }
}

pub fn unexpected(s: &Stop) -> bool {
    matches!(s, Stop::Unexpected(_))
}

/// Whether an object of the text has more members than one B-tree node takes. std's tree is not
/// unwind-safe while a node splits (it aborts), so allocations are not refused there.
pub fn splits_tree(text: &str) -> bool {
    let mut open: Vec<usize> = vec![0];
    let (mut string, mut escaped) = (false, false);
    for b in text.bytes() {
        match (string, b) {
            (true, _) if escaped => escaped = false,
            (true, b'\\') => escaped = true,
            (_, b'"') => string = !string,
            (true, _) => {}
            (_, b'{' | b'[') => open.push(0),
            (_, b'}' | b']') if open.len() > 1 => {
                open.pop();
            }
            (_, b':') => {
                let n = open.last_mut().unwrap();
                *n += 1;
                if *n > 11 {
                    return true;
                }
            }
            _ => {}
        }
    }
    false
}
