//! Simulated participants on the deserializing side: visitors, builders and keys that record every
//! call, own tokens, and do on command what real ones may do - return an error, panic, accept
//! without writing anything, panic in a destructor, call back into the library, lose the CPU.

use crate::refjson::{num_same, Num, DECODE};
use crate::sim::{self, Tok};
use crate::{note, violate};
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::ser::{self, Fragment, Serialize};
use miniserde::{make_place, Error, Result};
use std::borrow::Cow;
use std::cell::RefCell;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

#[derive(Clone, Debug)]
pub enum Ev {
    Null,
    Bool(bool),
    Str(String),
    Neg(i64),
    Pos(u64),
    Float(f64),
    Seq,
    Map,
    Elem,
    Key(String),
    SeqEnd,
    MapEnd,
    KeyParse(String),
    // serializing side
    Begin(u32),
    Next(u32, usize),
    KeyText(String),
}

impl PartialEq for Ev {
    fn eq(&self, o: &Ev) -> bool {
        match (self, o) {
            (Ev::Null, Ev::Null)
            | (Ev::Seq, Ev::Seq)
            | (Ev::Map, Ev::Map)
            | (Ev::Elem, Ev::Elem)
            | (Ev::SeqEnd, Ev::SeqEnd)
            | (Ev::MapEnd, Ev::MapEnd) => true,
            (Ev::Bool(a), Ev::Bool(b)) => a == b,
            (Ev::Str(a), Ev::Str(b))
            | (Ev::Key(a), Ev::Key(b))
            | (Ev::KeyParse(a), Ev::KeyParse(b))
            | (Ev::KeyText(a), Ev::KeyText(b)) => a == b,
            (Ev::Neg(a), Ev::Neg(b)) => a == b,
            (Ev::Pos(a), Ev::Pos(b)) => a == b,
            (Ev::Float(a), Ev::Float(b)) => num_same(&Num::F(*a), &Num::F(*b), DECODE),
            (Ev::Begin(a), Ev::Begin(b)) => a == b,
            (Ev::Next(a, i), Ev::Next(b, j)) => a == b && i == j,
            _ => false,
        }
    }
}

impl Ev {
    pub fn hash(&self) -> u64 {
        use crate::tape::{hash_str, mix};
        match self {
            Ev::Null => 1,
            Ev::Bool(b) => 2 + u64::from(*b),
            Ev::Str(s) => mix(4, hash_str(s)),
            Ev::Neg(n) => mix(5, *n as u64),
            Ev::Pos(n) => mix(6, *n),
            Ev::Float(f) => mix(7, f.to_bits()),
            Ev::Seq => 8,
            Ev::Map => 9,
            Ev::Elem => 10,
            Ev::Key(s) => mix(11, hash_str(s)),
            Ev::SeqEnd => 12,
            Ev::MapEnd => 13,
            Ev::KeyParse(s) => mix(14, hash_str(s)),
            Ev::Begin(i) => mix(15, u64::from(*i)),
            Ev::Next(i, n) => mix(mix(16, u64::from(*i)), *n as u64),
            Ev::KeyText(s) => mix(17, hash_str(s)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FK {
    Err,
    Panic,
    /// Return Ok without writing into the place (or hand out the ignoring visitor).
    Lazy,
    /// Call back into the library from inside the callback.
    Nest,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub at: usize,
    pub kind: FK,
}

#[derive(Default)]
pub struct Ctx {
    pub trace: Vec<Ev>,
    pub n_cb: usize,
    pub n_op: usize,
    pub n_drop: usize,
    pub faults: Vec<Fault>,
    /// Panic in the k-th hash/compare of a key, k-th destructor of a participant.
    pub op_panic: Option<usize>,
    pub drop_panic: Option<usize>,
    pub fired: Vec<FK>,
    pub op_fired: bool,
    pub drop_fired: bool,
    /// An error or panic has been injected: no visiting callback may follow.
    pub over: bool,
    pub live: Vec<u32>,
    pub next_id: u32,
    pub nest: Option<fn(usize)>,
    pub nest_depth: usize,
    /// Call back into the library from the k-th destructor.
    pub nest_drop: Option<usize>,
    pub quiet: bool,
}

thread_local! { static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _p = sim::pause();
    CTX.with(|c| f(&mut c.borrow_mut()))
}
pub fn swap(new: Ctx) -> Ctx {
    let _p = sim::pause();
    CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), new))
}
pub fn fresh(faults: Vec<Fault>) -> Ctx {
    Ctx { faults, ..Ctx::default() }
}

/// Outcome of a callback: go on and write, or go on without writing.
#[derive(PartialEq, Clone, Copy)]
pub enum Go {
    Write,
    Skip,
}

fn fire(k: FK) {
    sim::stat(
        match k {
            FK::Err => "fault.participant-error",
            FK::Panic => "fault.participant-panic",
            FK::Lazy => "fault.participant-accepts-without-writing",
            FK::Nest => "fault.participant-calls-back-into-library",
        },
        1,
    );
    sim::observe(77 + k as u64);
}

/// Every participant callback passes through here.
pub fn cb(ev: Ev) -> std::result::Result<Go, ()> {
    let _p = sim::pause();
    sim::sp_probe();
    sim::step();
    let (kind, nest) = with(|c| {
        let at = c.n_cb;
        c.n_cb += 1;
        if c.n_cb > 2_000_000 {
            violate!("runaway", "participants were called more than two million times");
            return (Some(FK::Err), None);
        }
        if c.over {
            violate!("callback-after-failure", "after a participant failed, {:?} was still delivered", ev);
        }
        let k = c.faults.iter().find(|f| f.at == at).map(|f| f.kind);
        // Serializing participants cannot report errors.
        let k = k.filter(|&k| k != FK::Err || !matches!(ev, Ev::Begin(_) | Ev::Next(..) | Ev::KeyText(_)));
        if !c.quiet {
            sim::observe(ev.hash());
            note!("  cb {at}: {ev:?}{}", k.map(|k| format!("  <== injected {k:?}")).unwrap_or_default());
            c.trace.push(ev);
        }
        if let Some(k) = k {
            c.fired.push(k);
            if matches!(k, FK::Err | FK::Panic) {
                c.over = true;
            }
        }
        (k, if k == Some(FK::Nest) { c.nest } else { None })
    });
    if let Some(k) = kind {
        fire(k);
    }
    sim::yield_at_callback();
    match kind {
        None => Ok(Go::Write),
        Some(FK::Err) => Err(()),
        Some(FK::Panic) => {
            drop(_p);
            sim::inject_panic()
        }
        Some(FK::Lazy) => Ok(Go::Skip),
        Some(FK::Nest) => {
            if let Some(f) = nest {
                let at = with(|c| c.n_cb);
                f(at);
            }
            Ok(Go::Write)
        }
    }
}

fn cbr(ev: Ev) -> Result<Go> {
    cb(ev).map_err(|()| Error)
}

/// Key comparisons and hashes: they can only panic.
fn op() {
    let hit = with(|c| {
        let at = c.n_op;
        c.n_op += 1;
        let hit = c.op_panic == Some(at);
        if hit {
            c.op_fired = true;
            c.over = true;
        }
        hit
    });
    sim::step();
    if hit && !std::thread::panicking() {
        sim::stat("fault.panic-in-hash-or-compare", 1);
        note!("  injected panic in hash/compare");
        sim::inject_panic();
    }
}

/// Destructors of participants.
pub fn drop_cb(what: &str) {
    let (hit, nest) = with(|c| {
        let at = c.n_drop;
        c.n_drop += 1;
        let hit = c.drop_panic == Some(at) && !std::thread::panicking();
        if hit {
            c.drop_fired = true;
        }
        (hit, if c.nest_drop == Some(at) { c.nest.map(|f| (f, at)) } else { None })
    });
    sim::step();
    sim::sp_probe();
    {
        let _p = sim::pause();
        sim::yield_at_callback();
        if let Some((f, at)) = nest {
            sim::stat("fault.destructor-calls-back-into-library", 1);
            f(at);
        }
    }
    if hit {
        sim::stat("fault.panic-in-destructor", 1);
        note!("  injected panic in destructor of {what}");
        sim::inject_panic();
    }
}

/// Builders and streams register here to have the innermost-first order checked.
pub fn open() -> u32 {
    with(|c| {
        let id = c.next_id;
        c.next_id += 1;
        c.live.push(id);
        id
    })
}
pub fn close(id: u32, what: &str) {
    with(|c| {
        if c.live.last() == Some(&id) {
            c.live.pop();
        } else if let Some(i) = c.live.iter().position(|&x| x == id) {
            violate!("outer-before-inner", "{what} #{id} was destroyed while {} inner one(s) it may have lent to were alive", c.live.len() - i - 1);
            c.live.remove(i);
        } else {
            violate!("double-drop", "{what} #{id} was destroyed twice");
        }
        note!("  destroyed {what} #{id}");
    });
}

// ---------------------------------------------------------------- Probe

pub enum PV {
    Null,
    Bool(bool),
    Str(String),
    Neg(i64),
    Pos(u64),
    Float(f64),
    Seq(Vec<Probe>),
    Map(Vec<(String, Probe)>),
}

/// A hand-written self-describing type whose visitor records everything.
pub struct Probe {
    pub tok: Tok,
    pub v: PV,
}

impl Probe {
    pub fn new(v: PV) -> Self {
        Probe { tok: Tok::new(), v }
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        self.tok.check("destructor of a value");
        drop_cb("value");
    }
}

make_place!(Place);

impl Place<Probe> {
    fn put(&mut self, go: Go, v: PV) {
        if go == Go::Write {
            self.out = Some(Probe::new(v));
        }
    }
}

impl Visitor for Place<Probe> {
    fn null(&mut self) -> Result<()> {
        let go = cbr(Ev::Null)?;
        self.put(go, PV::Null);
        Ok(())
    }
    fn boolean(&mut self, b: bool) -> Result<()> {
        let go = cbr(Ev::Bool(b))?;
        self.put(go, PV::Bool(b));
        Ok(())
    }
    fn string(&mut self, s: &str) -> Result<()> {
        let go = {
            let _p = sim::pause();
            let own = s.to_owned();
            let ev = Ev::Str(own.clone());
            drop(_p);
            let r = cbr(ev);
            // The borrowed text must be stable while the callback runs (it may yield or nest).
            let _p = sim::pause();
            if own != s {
                violate!("text-changed", "the text passed to a visitor changed during the call: {own:?} -> {s:?}");
            }
            if std::str::from_utf8(s.as_bytes()).is_err() {
                violate!("not-unicode", "a visitor was given text that is not UTF-8");
            }
            drop(own);
            r
        }?;
        self.put(go, PV::Str(s.to_owned()));
        Ok(())
    }
    fn negative(&mut self, n: i64) -> Result<()> {
        let go = cbr(Ev::Neg(n))?;
        self.put(go, PV::Neg(n));
        Ok(())
    }
    fn nonnegative(&mut self, n: u64) -> Result<()> {
        let go = cbr(Ev::Pos(n))?;
        self.put(go, PV::Pos(n));
        Ok(())
    }
    fn float(&mut self, n: f64) -> Result<()> {
        let go = cbr(Ev::Float(n))?;
        self.put(go, PV::Float(n));
        Ok(())
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        if cbr(Ev::Seq)? == Go::Skip {
            return <dyn Visitor>::ignore().seq();
        }
        Ok(Box::new(PSeq { tok: Tok::new(), id: open(), out: &mut self.out, elem: None, acc: Vec::new() }))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        if cbr(Ev::Map)? == Go::Skip {
            return <dyn Visitor>::ignore().map();
        }
        Ok(Box::new(PMap { tok: Tok::new(), id: open(), out: &mut self.out, key: None, val: None, acc: Vec::new() }))
    }
}

impl Deserialize for Probe {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}

struct PSeq<'a> {
    tok: Tok,
    id: u32,
    out: &'a mut Option<Probe>,
    elem: Option<Probe>,
    acc: Vec<Probe>,
}

impl<'a> Seq for PSeq<'a> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        self.tok.check("element() of a sequence builder");
        if let Some(e) = self.elem.take() {
            e.tok.check("finished element");
            self.acc.push(e);
        }
        match cbr(Ev::Elem)? {
            Go::Write => Ok(Deserialize::begin(&mut self.elem)),
            Go::Skip => Ok(<dyn Visitor>::ignore()),
        }
    }
    fn finish(&mut self) -> Result<()> {
        self.tok.check("finish() of a sequence builder");
        if let Some(e) = self.elem.take() {
            e.tok.check("finished element");
            self.acc.push(e);
        }
        if cbr(Ev::SeqEnd)? == Go::Write {
            let acc = std::mem::take(&mut self.acc);
            *self.out = Some(Probe::new(PV::Seq(acc)));
        }
        Ok(())
    }
}

impl<'a> Drop for PSeq<'a> {
    fn drop(&mut self) {
        self.tok.check("destructor of a sequence builder");
        if let Some(o) = self.out.as_ref() {
            o.tok.check("the slot a sequence builder writes to");
        }
        close(self.id, "sequence builder");
        drop_cb("sequence builder");
    }
}

struct PMap<'a> {
    tok: Tok,
    id: u32,
    out: &'a mut Option<Probe>,
    key: Option<String>,
    val: Option<Probe>,
    acc: Vec<(String, Probe)>,
}

impl<'a> PMap<'a> {
    fn shift(&mut self) {
        if let (Some(k), Some(v)) = (self.key.take(), self.val.take()) {
            v.tok.check("finished member");
            self.acc.push((k, v));
        }
    }
}

impl<'a> Map for PMap<'a> {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        self.tok.check("key() of a map builder");
        self.shift();
        let go = {
            let _p = sim::pause();
            let own = k.to_owned();
            let ev = Ev::Key(own.clone());
            drop(_p);
            let r = cbr(ev);
            let _p = sim::pause();
            if own != k {
                violate!("text-changed", "the key passed to a builder changed during the call: {own:?} -> {k:?}");
            }
            drop(own);
            r
        }?;
        self.key = Some(k.to_owned());
        match go {
            Go::Write => Ok(Deserialize::begin(&mut self.val)),
            Go::Skip => Ok(<dyn Visitor>::ignore()),
        }
    }
    fn finish(&mut self) -> Result<()> {
        self.tok.check("finish() of a map builder");
        self.shift();
        if cbr(Ev::MapEnd)? == Go::Write {
            let acc = std::mem::take(&mut self.acc);
            *self.out = Some(Probe::new(PV::Map(acc)));
        }
        Ok(())
    }
}

impl<'a> Drop for PMap<'a> {
    fn drop(&mut self) {
        self.tok.check("destructor of a map builder");
        if let Some(o) = self.out.as_ref() {
            o.tok.check("the slot a map builder writes to");
        }
        close(self.id, "map builder");
        drop_cb("map builder");
    }
}

impl Serialize for Probe {
    fn begin(&self) -> Fragment<'_> {
        self.tok.check("serialized value");
        match &self.v {
            PV::Null => Fragment::Null,
            PV::Bool(b) => Fragment::Bool(*b),
            PV::Str(s) => Fragment::Str(Cow::Borrowed(s)),
            PV::Neg(n) => Fragment::I64(*n),
            PV::Pos(n) => Fragment::U64(*n),
            PV::Float(n) => Fragment::F64(*n),
            PV::Seq(v) => v.begin(),
            PV::Map(v) => Fragment::Map(Box::new(PStream(v.iter()))),
        }
    }
}
struct PStream<'a>(std::slice::Iter<'a, (String, Probe)>);
impl<'a> ser::Map for PStream<'a> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let (k, v) = self.0.next()?;
        Some((Cow::Borrowed(k), v))
    }
}

// ---------------------------------------------------------------- PKey

/// A map key that owns a token and may fail to parse, or panic when hashed, compared or printed.
pub struct PKey {
    pub tok: Tok,
    pub s: String,
}
impl PKey {
    pub fn of(s: &str) -> Self {
        PKey { tok: Tok::new(), s: s.to_owned() }
    }
}
impl Clone for PKey {
    fn clone(&self) -> Self {
        PKey::of(&self.s)
    }
}
impl Drop for PKey {
    fn drop(&mut self) {
        self.tok.check("destructor of a key");
        drop_cb("key");
    }
}
impl FromStr for PKey {
    type Err = ();
    fn from_str(s: &str) -> std::result::Result<Self, ()> {
        let own = {
            let _p = sim::pause();
            s.to_owned()
        };
        cb(Ev::KeyParse(own))?;
        Ok(PKey::of(s))
    }
}
impl fmt::Display for PKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.tok.check("formatted key");
        let own = {
            let _p = sim::pause();
            self.s.clone()
        };
        if cb(Ev::KeyText(own)).is_err() {
            // ToString panics on fmt errors; that would not be an injected panic.
        }
        f.write_str(&self.s)
    }
}
impl PartialEq for PKey {
    fn eq(&self, o: &Self) -> bool {
        self.tok.check("compared key");
        o.tok.check("compared key");
        op();
        self.s == o.s
    }
}
impl Eq for PKey {}
impl PartialOrd for PKey {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for PKey {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.tok.check("compared key");
        o.tok.check("compared key");
        op();
        self.s.cmp(&o.s)
    }
}
impl Hash for PKey {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.tok.check("hashed key");
        op();
        self.s.hash(h);
    }
}
