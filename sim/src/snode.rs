//! Simulated participants on the serializing side: a plan tree whose nodes serialize themselves
//! through hand-written streams - borrowing from the node, owning copies, or building each element
//! only when it is asked for and lending it out - and through every library wrapper.

use crate::part::{self, Ev, PKey};
use crate::refjson::{Ast, Num};
use crate::sim::{self, Tok};
use crate::tape::Tape;
use crate::zoo::{self, SimHash};
use miniserde::json::Value;
use miniserde::ser::{Fragment, Map, Seq};
use miniserde::Serialize;
use std::borrow::Cow;
use crate::bare::HashMap;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lend {
    /// Borrows the elements from the node.
    Borrow,
    /// Owns copies of all elements in a heap block.
    Own,
    /// Builds each element on demand in a heap block, dropping the one before.
    Fresh,
    /// The same, stored inside the stream itself.
    Inline,
}

pub enum NK {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String, bool),
    Seq(Lend, Vec<SNode>),
    Map(Lend, Vec<(String, bool, SNode)>),
    LVec(Vec<SNode>),
    LArr(Box<[SNode; 2]>),
    LPair(Box<(SNode, SNode)>),
    LOpt(Option<Box<SNode>>),
    LBTree(BTreeMap<PKey, SNode>),
    /// The map and its keys in the order of insertion: copies are made in the same order, so that
    /// they iterate alike.
    LHash(HashMap<PKey, SNode, SimHash>, Vec<String>),
    LStruct(Box<Derived>),
    /// Each node is lent several times in one `View` built on demand.
    Views(Vec<(SNode, bool)>),
    Val(Value),
}

pub struct SNode {
    pub tok: Tok,
    pub id: u32,
    pub k: NK,
}

#[derive(Serialize)]
pub struct Derived {
    a: SNode,
    #[serde(rename = "b b")]
    b: Option<SNode>,
    r#fn: Vec<SNode>,
}

/// References, slices and copy-on-write, derived with a lifetime.
#[derive(Serialize)]
pub struct View<'a, T: Clone>
where
    T: 'a,
{
    one: &'a T,
    #[serde(rename = "")]
    some: &'a [T],
    text: &'a str,
    cow: Cow<'a, T>,
    cows: Option<Box<Cow<'a, [T]>>>,
    pair: (&'a T, Box<[u8]>),
}
fn view(n: &(SNode, bool)) -> View<'_, SNode> {
    let s = std::slice::from_ref(&n.0);
    let own = n.1;
    View {
        one: &n.0,
        some: s,
        text: if own { "owned\t" } else { "" },
        cow: if own { Cow::Owned(n.0.copy()) } else { Cow::Borrowed(&n.0) },
        cows: Some(Box::new(if own { Cow::Owned(vec![n.0.copy()]) } else { Cow::Borrowed(s) })),
        pair: (&n.0, if own { Box::new([1, 255]) } else { Box::new([]) }),
    }
}
impl Clone for SNode {
    fn clone(&self) -> SNode {
        self.copy()
    }
}

impl Derived {
    pub fn any_child(&self, f: &dyn Fn(&SNode) -> bool) -> bool {
        f(&self.a) || self.b.as_ref().is_some_and(f) || self.r#fn.iter().any(f)
    }
}

impl Drop for SNode {
    fn drop(&mut self) {
        self.tok.check("destructor of a serialized participant");
        part::drop_cb("serialized participant");
    }
}

impl SNode {
    fn new(id: u32, k: NK) -> SNode {
        SNode { tok: Tok::new(), id, k }
    }
    /// The same participant again, as its own object.
    pub fn copy(&self) -> SNode {
        let all = |v: &[SNode]| v.iter().map(SNode::copy).collect::<Vec<_>>();
        SNode::new(
            self.id,
            match &self.k {
                NK::Null => NK::Null,
                NK::Bool(b) => NK::Bool(*b),
                NK::U(n) => NK::U(*n),
                NK::I(n) => NK::I(*n),
                NK::F(n) => NK::F(*n),
                NK::Str(s, o) => NK::Str(s.clone(), *o),
                NK::Seq(l, v) => NK::Seq(*l, all(v)),
                NK::Map(l, v) => NK::Map(*l, v.iter().map(|(k, o, n)| (k.clone(), *o, n.copy())).collect()),
                NK::LVec(v) => NK::LVec(all(v)),
                NK::LArr(v) => NK::LArr(Box::new([v[0].copy(), v[1].copy()])),
                NK::LPair(v) => NK::LPair(Box::new((v.0.copy(), v.1.copy()))),
                NK::LOpt(v) => NK::LOpt(v.as_ref().map(|n| Box::new(n.copy()))),
                NK::LBTree(v) => NK::LBTree(v.iter().map(|(k, n)| (k.clone(), n.copy())).collect()),
                NK::LHash(v, order) => {
                    let mut m = HashMap::with_hasher(v.hasher().clone());
                    for s in order {
                        let (k, n) = v.get_key_value(&PKey::of(s)).expect("own key");
                        m.insert(k.clone(), n.copy());
                    }
                    NK::LHash(m, order.clone())
                }
                NK::LStruct(d) => NK::LStruct(Box::new(Derived { a: d.a.copy(), b: d.b.as_ref().map(SNode::copy), r#fn: all(&d.r#fn) })),
                NK::Views(v) => NK::Views(v.iter().map(|(n, o)| (n.copy(), *o)).collect()),
                NK::Val(v) => NK::Val(v.clone()),
            },
        )
    }

    /// What the output must mean.
    pub fn ast(&self) -> Ast {
        let all = |v: &[SNode]| Ast::Arr(v.iter().map(SNode::ast).collect());
        match &self.k {
            NK::Null => Ast::Null,
            NK::Bool(b) => Ast::Bool(*b),
            NK::U(n) => Ast::Num(Num::U(*n)),
            NK::I(n) => Ast::Num(Num::I(*n)),
            NK::F(n) if n.is_finite() => Ast::Num(Num::F(*n)),
            NK::F(_) => Ast::Null,
            NK::Str(s, _) => Ast::Str(s.clone()),
            NK::Seq(_, v) => all(v),
            NK::Map(_, v) => Ast::Obj(v.iter().map(|(k, _, n)| (k.clone(), n.ast())).collect()),
            NK::LVec(v) => all(v),
            NK::LArr(v) => all(&v[..]),
            NK::LPair(v) => Ast::Arr(vec![v.0.ast(), v.1.ast()]),
            NK::LOpt(None) => Ast::Null,
            NK::LOpt(Some(n)) => n.ast(),
            NK::LBTree(v) => Ast::Obj(v.iter().map(|(k, n)| (k.s.clone(), n.ast())).collect()),
            NK::LHash(v, _) => Ast::Set(v.iter().map(|(k, n)| (k.s.clone(), n.ast())).collect()),
            NK::LStruct(d) => Ast::Obj(vec![
                ("a".to_owned(), d.a.ast()),
                ("b b".to_owned(), d.b.as_ref().map_or(Ast::Null, SNode::ast)),
                ("fn".to_owned(), all(&d.r#fn)),
            ]),
            NK::Views(v) => Ast::Arr(
                v.iter()
                    .map(|(n, own)| {
                        let bytes = if *own { vec![Ast::Num(Num::U(1)), Ast::Num(Num::U(255))] } else { vec![] };
                        let members = vec![
                            ("one", n.ast()),
                            ("", Ast::Arr(vec![n.ast()])),
                            ("text", Ast::Str(if *own { "owned\t" } else { "" }.to_owned())),
                            ("cow", n.ast()),
                            ("cows", Ast::Arr(vec![n.ast()])),
                            ("pair", Ast::Arr(vec![n.ast(), Ast::Arr(bytes)])),
                        ];
                        Ast::Obj(members.into_iter().map(|(k, a)| (k.to_owned(), a)).collect())
                    })
                    .collect(),
            ),
            NK::Val(v) => finite(zoo::value_ast(v)),
        }
    }

    /// The walk the library must make.
    pub fn walk(&self, out: &mut Vec<Ev>) {
        out.push(Ev::Begin(self.id));
        let all = |v: &[SNode], out: &mut Vec<Ev>| v.iter().for_each(|n| n.walk(out));
        match &self.k {
            NK::Seq(_, v) => {
                for (i, n) in v.iter().enumerate() {
                    out.push(Ev::Next(self.id, i));
                    n.walk(out);
                }
                out.push(Ev::Next(self.id, v.len()));
            }
            NK::Map(_, v) => {
                for (i, (_, _, n)) in v.iter().enumerate() {
                    out.push(Ev::Next(self.id, i));
                    n.walk(out);
                }
                out.push(Ev::Next(self.id, v.len()));
            }
            NK::Views(v) => {
                for (i, (n, _)) in v.iter().enumerate() {
                    out.push(Ev::Next(self.id, i));
                    for _ in 0..5 {
                        n.walk(out);
                    }
                }
                out.push(Ev::Next(self.id, v.len()));
            }
            NK::LVec(v) => all(v, out),
            NK::LArr(v) => all(&v[..], out),
            NK::LPair(v) => {
                v.0.walk(out);
                v.1.walk(out);
            }
            NK::LOpt(Some(n)) => n.walk(out),
            NK::LBTree(v) => {
                for (k, n) in v {
                    out.push(Ev::KeyText(k.s.clone()));
                    n.walk(out);
                }
            }
            NK::LHash(v, _) => {
                for (k, n) in v {
                    out.push(Ev::KeyText(k.s.clone()));
                    n.walk(out);
                }
            }
            NK::LStruct(d) => {
                d.a.walk(out);
                if let Some(b) = &d.b {
                    b.walk(out);
                }
                all(&d.r#fn, out);
            }
            _ => {}
        }
    }
}

fn finite(a: Ast) -> Ast {
    match a {
        Ast::Num(Num::F(f)) if !f.is_finite() => Ast::Null,
        Ast::Arr(v) => Ast::Arr(v.into_iter().map(finite).collect()),
        Ast::Obj(v) => Ast::Obj(v.into_iter().map(|(k, e)| (k, finite(e))).collect()),
        a => a,
    }
}

pub struct Plan {
    pub next: u32,
    pub budget: usize,
    /// Most entries in a BTreeMap (std's node splitting does not survive a refused allocation).
    pub small_maps: bool,
    pub hash: bool,
    /// Permille of nodes that become a long sequence, a deep chain or a long string.
    pub bulk: u64,
    /// Some of those very long.
    pub vast: bool,
}

fn bulky(t: &mut Tape, p: &mut Plan) -> NK {
    let slim = |t: &mut Tape, p: &mut Plan, depth| {
        let (bulk, budget) = (std::mem::take(&mut p.bulk), std::mem::replace(&mut p.budget, 3));
        let n = gen(t, depth, p);
        (p.bulk, p.budget) = (bulk, budget);
        n
    };
    let lend = |t: &mut Tape| *t.pick(&[Lend::Borrow, Lend::Own, Lend::Fresh, Lend::Inline]);
    if !cfg!(miri) && p.vast && t.chance(1, 40) {
        // Very long, or very deep.
        let n = crate::vast::length(t).min(20_000);
        let leaf = |p: &mut Plan, i: usize| {
            let id = p.next;
            p.next += 1;
            SNode::new(id, NK::U(i as u64))
        };
        sim::stat("coverage.vast_plans", 1);
        let l = *t.pick(&[Lend::Borrow, Lend::Fresh, Lend::Inline]);
        return match t.draw(4) {
            0 => NK::LVec((0..n).map(|i| leaf(p, i)).collect()),
            1 => NK::Seq(l, (0..n).map(|i| leaf(p, i)).collect()),
            2 => NK::Map(l, (0..n).map(|i| (i.to_string(), i % 3 == 0, leaf(p, i))).collect()),
            _ => (0..n.min(5000)).fold(NK::Null, |k, i| {
                let id = p.next;
                p.next += 1;
                let inner = SNode::new(id, k);
                if i % 2 == 0 { NK::Seq(Lend::Borrow, vec![inner]) } else { NK::Map(Lend::Borrow, vec![("a".to_owned(), true, inner)]) }
            }),
        };
    }
    if t.chance(1, 2) {
        let n = zoo::bulk_len(t).min(150);
        let l = lend(t);
        return match t.draw(4) {
            0 => NK::LVec((0..n).map(|_| slim(t, p, 0)).collect()),
            1 => NK::Map(l, (0..n).map(|_| (zoo::any_key(t), t.chance(1, 2), slim(t, p, 0))).collect()),
            _ => NK::Seq(l, (0..n).map(|_| slim(t, p, 0)).collect()),
        };
    }
    // (A level that owns a copy of the rest costs the square.)
    let n = t.range(8, 120);
    let style = t.draw(6);
    let mut k = NK::Seq(lend(t), vec![slim(t, p, 1)]);
    for i in 0..n {
        let id = p.next;
        p.next += 1;
        let inner = SNode::new(id, k);
        let l = if i < 12 { lend(t) } else { Lend::Borrow };
        k = match if style == 5 { t.draw(5) } else { style } {
            0 => NK::Seq(l, if t.chance(1, 8) { vec![slim(t, p, 0), inner] } else { vec![inner] }),
            1 => NK::Map(l, vec![(zoo::any_key(t), t.chance(1, 2), inner)]),
            2 => NK::LVec(vec![inner]),
            3 => NK::LOpt(Some(Box::new(inner))),
            _ => NK::LStruct(Box::new(Derived { a: inner, b: None, r#fn: vec![] })),
        };
    }
    k
}

pub fn gen(t: &mut Tape, depth: usize, p: &mut Plan) -> SNode {
    let id = p.next;
    p.next += 1;
    let leaf = depth == 0 || p.budget == 0;
    p.budget = p.budget.saturating_sub(1);
    if !leaf && t.chance(p.bulk, 1000) {
        let k = bulky(t, p);
        return SNode::new(id, k);
    }
    let kind = if leaf { t.draw(9) } else { t.draw(32) };
    let kids = |t: &mut Tape, p: &mut Plan| {
        let n = t.size(5);
        (0..n).map(|_| gen(t, depth - 1, p)).collect::<Vec<_>>()
    };
    let k = match kind {
        0 => NK::Null,
        1 => NK::Bool(t.chance(1, 2)),
        2 => NK::U(zoo::int(t, 0, i128::from(u64::MAX)) as u64),
        3 => NK::I(zoo::int(t, i128::from(i64::MIN), i128::from(i64::MAX)) as i64),
        4 => NK::F(match t.draw(12) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => -0.0,
            _ => zoo::float(t),
        }),
        5 | 6 if t.chance(p.bulk, 1000) => NK::Str(zoo::bulk_string(t), t.chance(1, 2)),
        5 | 6 => NK::Str(zoo::string(t), t.chance(1, 2)),
        7 | 8 => {
            let a = zoo::any(t, 2, &zoo::Gen { bulk: p.bulk, ..zoo::SENT });
            NK::Val(zoo::value_build(&a))
        }
        9..=14 => {
            let l = *t.pick(&[Lend::Borrow, Lend::Own, Lend::Fresh, Lend::Inline]);
            NK::Seq(l, kids(t, p))
        }
        15..=20 => {
            let l = *t.pick(&[Lend::Borrow, Lend::Own, Lend::Fresh, Lend::Inline]);
            let n = t.size(5);
            NK::Map(l, (0..n).map(|_| (zoo::any_key(t), t.chance(1, 2), gen(t, depth - 1, p))).collect())
        }
        21 | 22 => NK::LVec(kids(t, p)),
        23 => NK::LArr(Box::new([gen(t, depth - 1, p), gen(t, depth - 1, p)])),
        24 => NK::LPair(Box::new((gen(t, depth - 1, p), gen(t, depth - 1, p)))),
        25 => NK::LOpt(if t.chance(2, 3) { Some(Box::new(gen(t, depth - 1, p))) } else { None }),
        26 | 27 => {
            let n = t.size(6);
            NK::LBTree((0..n).map(|_| (PKey::of(&zoo::any_key(t)), gen(t, depth - 1, p))).collect())
        }
        28 if p.hash => {
            let n = t.size(6);
            let mut m = HashMap::default();
            let mut order = Vec::new();
            for _ in 0..n {
                let k = zoo::any_key(t);
                let v = gen(t, depth - 1, p);
                if !order.contains(&k) {
                    m.insert(PKey::of(&k), v);
                    order.push(k);
                }
            }
            NK::LHash(m, order)
        }
        30 if p.budget > 6 => {
            // Every level multiplies the work by five.
            let n = 1 + t.size(2);
            p.budget = p.budget.min(4);
            NK::Views((0..n).map(|_| (gen(t, 1, p), t.chance(1, 2))).collect())
        }
        _ => {
            let a = gen(t, depth - 1, p);
            let b = if t.chance(1, 2) { Some(gen(t, depth - 1, p)) } else { None };
            NK::LStruct(Box::new(Derived { a, b, r#fn: kids(t, p) }))
        }
    };
    SNode::new(id, k)
}

impl Serialize for SNode {
    fn begin(&self) -> Fragment<'_> {
        self.tok.check("begin()");
        let _ = part::cb(Ev::Begin(self.id));
        match &self.k {
            NK::Null => Fragment::Null,
            NK::Bool(b) => Fragment::Bool(*b),
            NK::U(n) => Fragment::U64(*n),
            NK::I(n) => Fragment::I64(*n),
            NK::F(n) => Fragment::F64(*n),
            NK::Str(s, false) => Fragment::Str(Cow::Borrowed(s)),
            NK::Str(s, true) => Fragment::Str(Cow::Owned(s.clone())),
            NK::Seq(l, v) => {
                let base = Base::new(self);
                Fragment::Seq(match l {
                    Lend::Borrow => Box::new(BSeq { base, v }),
                    Lend::Own => {
                        let v = v.iter().map(SNode::copy).collect();
                        Box::new(OSeq { base, v })
                    }
                    Lend::Fresh => Box::new(FSeq { base, v, cur: None }),
                    Lend::Inline => Box::new(ISeq { base, v, cur: None }),
                })
            }
            NK::Map(l, v) => {
                let base = Base::new(self);
                Fragment::Map(match l {
                    Lend::Borrow => Box::new(BMap { base, v }),
                    Lend::Own => {
                        let v = v.iter().map(|(k, o, n)| (k.clone(), *o, n.copy())).collect();
                        Box::new(OMap { base, v })
                    }
                    Lend::Fresh => Box::new(FMap { base, v, cur: None }),
                    Lend::Inline => Box::new(IMap { base, v, cur: None }),
                })
            }
            NK::Views(v) => Fragment::Seq(Box::new(VSeq { base: Base::new(self), v, cur: None })),
            NK::LVec(v) => v.begin(),
            NK::LArr(v) => v.begin(),
            NK::LPair(v) => v.begin(),
            NK::LOpt(v) => v.begin(),
            NK::LBTree(v) => v.begin(),
            NK::LHash(v, _) => v.begin(),
            NK::LStruct(v) => v.begin(),
            NK::Val(v) => v.begin(),
        }
    }
}

struct Base<'a> {
    tok: Tok,
    id: u32,
    node: &'a SNode,
    i: usize,
}
impl<'a> Base<'a> {
    fn new(node: &'a SNode) -> Self {
        Base { tok: Tok::new(), id: part::open(), node, i: 0 }
    }
    fn next(&mut self) -> usize {
        self.tok.check("next() of a stream");
        self.node.tok.check("the data behind a stream");
        let i = self.i;
        self.i += 1;
        let _ = part::cb(Ev::Next(self.node.id, i));
        i
    }
}
impl<'a> Drop for Base<'a> {
    fn drop(&mut self) {
        self.tok.check("destructor of a stream");
        self.node.tok.check("the data behind a stream, in its destructor");
        part::close(self.id, "stream");
        part::drop_cb("stream");
    }
}

// In each stream `base` is declared first, so that its destructor sees the elements still in place.
struct BSeq<'a> {
    base: Base<'a>,
    v: &'a [SNode],
}
impl<'a> Seq for BSeq<'a> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        let i = self.base.next();
        self.v.get(i).map(|n| n as &dyn Serialize)
    }
}
struct OSeq<'a> {
    base: Base<'a>,
    v: Vec<SNode>,
}
impl<'a> Seq for OSeq<'a> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        let i = self.base.next();
        self.v.get(i).map(|n| n as &dyn Serialize)
    }
}
struct FSeq<'a> {
    base: Base<'a>,
    v: &'a [SNode],
    cur: Option<Box<SNode>>,
}
impl<'a> Seq for FSeq<'a> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        let i = self.base.next();
        self.cur = None;
        self.cur = Some(Box::new(self.v.get(i)?.copy()));
        Some(&**self.cur.as_ref().unwrap())
    }
}
struct ISeq<'a> {
    base: Base<'a>,
    v: &'a [SNode],
    cur: Option<SNode>,
}
impl<'a> Seq for ISeq<'a> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        let i = self.base.next();
        self.cur = None;
        self.cur = Some(self.v.get(i)?.copy());
        Some(self.cur.as_ref().unwrap())
    }
}

struct VSeq<'a> {
    base: Base<'a>,
    v: &'a [(SNode, bool)],
    cur: Option<View<'a, SNode>>,
}
impl<'a> Seq for VSeq<'a> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        let i = self.base.next();
        self.cur = None;
        let n = self.v.get(i)?;
        self.cur = Some(view(n));
        Some(self.cur.as_ref().unwrap())
    }
}

type Ent = (String, bool, SNode);
fn key(k: &str, own: bool) -> Cow<'_, str> {
    if own {
        Cow::Owned(k.to_owned())
    } else {
        Cow::Borrowed(k)
    }
}
struct BMap<'a> {
    base: Base<'a>,
    v: &'a [Ent],
}
impl<'a> Map for BMap<'a> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let i = self.base.next();
        self.v.get(i).map(|(k, o, n)| (key(k, *o), n as &dyn Serialize))
    }
}
struct OMap<'a> {
    base: Base<'a>,
    v: Vec<Ent>,
}
impl<'a> Map for OMap<'a> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let i = self.base.next();
        self.v.get(i).map(|(k, o, n)| (key(k, *o), n as &dyn Serialize))
    }
}
struct FMap<'a> {
    base: Base<'a>,
    v: &'a [Ent],
    cur: Option<Box<Ent>>,
}
impl<'a> Map for FMap<'a> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let i = self.base.next();
        self.cur = None;
        let e = self.v.get(i)?;
        self.cur = Some(Box::new((e.0.clone(), e.1, e.2.copy())));
        let e = self.cur.as_ref().unwrap();
        Some((key(&e.0, e.1), &e.2))
    }
}
struct IMap<'a> {
    base: Base<'a>,
    v: &'a [Ent],
    cur: Option<Ent>,
}
impl<'a> Map for IMap<'a> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        let i = self.base.next();
        self.cur = None;
        let e = self.v.get(i)?;
        self.cur = Some((e.0.clone(), e.1, e.2.copy()));
        let e = self.cur.as_ref().unwrap();
        Some((key(&e.0, e.1), &e.2))
    }
}

/// Build a plan in library-section memory, so that its blocks and tokens are tracked.
pub fn plan(t: &mut Tape, depth: usize, budget: usize, hash: bool, bulk: u64) -> SNode {
    let _e = sim::enter();
    let mut p = Plan { next: 0, budget, small_maps: true, hash: hash && !zoo::bare(), bulk, vast: bulk > 0 };
    gen(t, depth, &mut p)
}
