//! C14 (and the Value part of C16): histories of operations on Value, Array and Object, run in
//! lockstep on the real containers and on a plain list / ordered map, with caller-supplied closures
//! and iterators that panic and iterators that are abandoned half way.

use crate::refjson::{self, brief, show, Ast, Num, EXACT};
use crate::sim::{self, Out, Stop};
use crate::tape::Tape;
use crate::zoo::{self, Gen, SENT};
use crate::{alloc, note, violate, Tier};
use miniserde::json::{Array, Object, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::{Deref, DerefMut};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

// ---------------------------------------------------------------- one interface, two worlds

pub trait El: Clone + Default + Sized {
    type L: DerefMut<Target = Vec<Self>> + IntoIterator<Item = Self> + FromIterator<Self> + Clone + Default;
    type O: DerefMut<Target = BTreeMap<String, Self>> + IntoIterator<Item = (String, Self)> + FromIterator<(String, Self)> + Clone + Default;
    fn make(a: &Ast) -> Self;
    fn ast(&self) -> Ast;
    fn list(&mut self) -> Option<&mut Self::L>;
    fn dict(&mut self) -> Option<&mut Self::O>;
    fn of_list(l: Self::L) -> Self;
    fn of_dict(o: Self::O) -> Self;
    fn into_list(self) -> Option<Self::L>;
    fn into_dict(self) -> Option<Self::O>;
    fn new_list() -> Self::L;
    fn new_dict() -> Self::O;
    /// By reference through the container's own IntoIterator impls.
    fn ref_list(l: &Self::L) -> Vec<&Self>;
    fn ref_dict(o: &Self::O) -> Vec<(&String, &Self)>;
    fn mut_list(l: &mut Self::L, f: &mut dyn FnMut(&mut Self));
    fn mut_dict(o: &mut Self::O, f: &mut dyn FnMut(&String, &mut Self));
    fn text(&self) -> String;
    fn parse(s: &str) -> Option<Self>;
    fn weight(&self) -> u64;
}

impl El for Value {
    type L = Array;
    type O = Object;
    fn make(a: &Ast) -> Self {
        zoo::value_build(a)
    }
    fn ast(&self) -> Ast {
        let _p = sim::pause();
        zoo::value_ast(self)
    }
    fn list(&mut self) -> Option<&mut Array> {
        match self {
            Value::Array(a) => Some(a),
            _ => None,
        }
    }
    fn dict(&mut self) -> Option<&mut Object> {
        match self {
            Value::Object(a) => Some(a),
            _ => None,
        }
    }
    fn of_list(l: Array) -> Self {
        Value::Array(l)
    }
    fn of_dict(o: Object) -> Self {
        Value::Object(o)
    }
    fn into_list(self) -> Option<Array> {
        match self {
            Value::Array(a) => Some(a),
            _ => None,
        }
    }
    fn into_dict(self) -> Option<Object> {
        match self {
            Value::Object(a) => Some(a),
            _ => None,
        }
    }
    fn new_list() -> Array {
        Array::new()
    }
    fn new_dict() -> Object {
        Object::new()
    }
    fn ref_list(l: &Array) -> Vec<&Self> {
        let mut v = Vec::new();
        for e in l {
            v.push(e);
        }
        v
    }
    fn ref_dict(o: &Object) -> Vec<(&String, &Self)> {
        let mut v = Vec::new();
        for e in o {
            v.push(e);
        }
        v
    }
    fn mut_list(l: &mut Array, f: &mut dyn FnMut(&mut Self)) {
        for e in l {
            f(e);
        }
    }
    fn mut_dict(o: &mut Object, f: &mut dyn FnMut(&String, &mut Self)) {
        for (k, e) in o {
            f(k, e);
        }
    }
    fn text(&self) -> String {
        miniserde::json::to_string(self)
    }
    fn parse(s: &str) -> Option<Self> {
        miniserde::json::from_str(s).ok()
    }
    fn weight(&self) -> u64 {
        match self {
            Value::Null => 0,
            Value::Bool(b) => 1 + u64::from(*b),
            Value::Number(n) => {
                let _p = sim::pause();
                weigh(&zoo::number_ast(n))
            }
            Value::String(s) => 5 + s.len() as u64,
            Value::Array(a) => 100 + a.len() as u64,
            Value::Object(o) => 200 + o.len() as u64,
        }
    }
}

fn weigh(a: &Ast) -> u64 {
    match a {
        Ast::Num(Num::U(n)) => 3 + n % 17,
        Ast::Num(Num::I(n)) => 3 + n.unsigned_abs() % 13,
        Ast::Num(Num::F(f)) => 3 + f.to_bits() % 11,
        _ => 4,
    }
}

#[derive(Clone)]
pub enum M {
    Leaf(Ast),
    List(ML),
    Dict(MO),
}
impl Default for M {
    fn default() -> Self {
        M::Leaf(Ast::Null)
    }
}
#[derive(Clone, Default)]
pub struct ML(Vec<M>);
#[derive(Clone, Default)]
pub struct MO(BTreeMap<String, M>);
macro_rules! wrap {
    ($t:ident, $inner:ty, $item:ty) => {
        impl Deref for $t {
            type Target = $inner;
            fn deref(&self) -> &$inner {
                &self.0
            }
        }
        impl DerefMut for $t {
            fn deref_mut(&mut self) -> &mut $inner {
                &mut self.0
            }
        }
        impl IntoIterator for $t {
            type Item = $item;
            type IntoIter = <$inner as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl FromIterator<$item> for $t {
            fn from_iter<I: IntoIterator<Item = $item>>(i: I) -> Self {
                $t(i.into_iter().collect())
            }
        }
    };
}
wrap!(ML, Vec<M>, M);
wrap!(MO, BTreeMap<String, M>, (String, M));

impl El for M {
    type L = ML;
    type O = MO;
    fn make(a: &Ast) -> Self {
        match a {
            Ast::Arr(v) => M::List(ML(v.iter().map(M::make).collect())),
            Ast::Obj(v) | Ast::Set(v) => {
                let mut m = BTreeMap::new();
                for (k, e) in v {
                    m.insert(k.clone(), M::make(e));
                }
                M::Dict(MO(m))
            }
            a => M::Leaf(a.clone()),
        }
    }
    fn ast(&self) -> Ast {
        match self {
            M::Leaf(a) => a.clone(),
            M::List(l) => Ast::Arr(l.iter().map(M::ast).collect()),
            M::Dict(o) => Ast::Obj(o.iter().map(|(k, e)| (k.clone(), e.ast())).collect()),
        }
    }
    fn list(&mut self) -> Option<&mut ML> {
        match self {
            M::List(a) => Some(a),
            _ => None,
        }
    }
    fn dict(&mut self) -> Option<&mut MO> {
        match self {
            M::Dict(a) => Some(a),
            _ => None,
        }
    }
    fn of_list(l: ML) -> Self {
        M::List(l)
    }
    fn of_dict(o: MO) -> Self {
        M::Dict(o)
    }
    fn into_list(self) -> Option<ML> {
        match self {
            M::List(a) => Some(a),
            _ => None,
        }
    }
    fn into_dict(self) -> Option<MO> {
        match self {
            M::Dict(a) => Some(a),
            _ => None,
        }
    }
    fn new_list() -> ML {
        ML::default()
    }
    fn new_dict() -> MO {
        MO::default()
    }
    fn ref_list(l: &ML) -> Vec<&Self> {
        l.iter().collect()
    }
    fn ref_dict(o: &MO) -> Vec<(&String, &Self)> {
        o.iter().collect()
    }
    fn mut_list(l: &mut ML, f: &mut dyn FnMut(&mut Self)) {
        l.iter_mut().for_each(f);
    }
    fn mut_dict(o: &mut MO, f: &mut dyn FnMut(&String, &mut Self)) {
        o.iter_mut().for_each(|(k, e)| f(k, e));
    }
    fn text(&self) -> String {
        String::new()
    }
    fn parse(_: &str) -> Option<Self> {
        None
    }
    fn weight(&self) -> u64 {
        match self {
            M::Leaf(Ast::Null) => 0,
            M::Leaf(Ast::Bool(b)) => 1 + u64::from(*b),
            M::Leaf(Ast::Str(s)) => 5 + s.len() as u64,
            M::Leaf(a) => weigh(a),
            M::List(l) => 100 + l.len() as u64,
            M::Dict(o) => 200 + o.len() as u64,
        }
    }
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug)]
struct Op {
    kind: usize,
    a: usize,
    b: usize,
    path: Vec<usize>,
    i: usize,
    j: usize,
    key: String,
    new: Vec<(String, Ast)>,
    /// The n-th call of a caller-supplied closure or iterator panics.
    boom: Option<usize>,
}

const KINDS: &[&str] = &[
    "assign", "take", "replace", "swap slots", "clone to slot", "clone_from slot", "drop slot", "copy node to slot", "move node to slot", "wrap", // 0-9
    "push", "pop", "insert", "remove", "swap_remove", "truncate", "clear", "extend", "retain", "drain part", // 10-19
    "split_off", "append", "into_iter part", "from_iter", "for in &", "for in &mut", "reverse/rotate", "resize_with", "list clone", "list clone_from", // 20-29
    "dedup_by", "sort", "shrink/reserve", "list take", "splice", "retain_mut", "iter any", "list to_vec", "extend from part", "collect moved", // 30-39
    "dict insert", "dict remove", "entry or_insert_with", "get_mut", "dict retain", "dict append", "dict split_off", "dict into_iter part", "dict from_iter", "dict for in &", // 40-49
    "dict for in &mut", "pop_first", "pop_last", "dict clear", "dict extend", "dict clone", "dict clone_from", "dict take", "values_mut", "remove_entry", // 50-59
    "range_mut", "into_values part", "into_keys part", "entry and_modify", "new containers", "round trip", // 60-65
];

fn find<'a, E: El>(e: &'a mut E, path: &[usize]) -> &'a mut E {
    let Some((&p, rest)) = path.split_first() else { return e };
    let n = if let Some(l) = e.list() {
        l.len()
    } else if let Some(o) = e.dict() {
        o.len()
    } else {
        0
    };
    if n == 0 {
        return e;
    }
    let at = p % (n + 1);
    if at == n {
        return e;
    }
    if e.list().is_some() {
        find(&mut e.list().unwrap()[at], rest)
    } else {
        find(e.dict().unwrap().values_mut().nth(at).unwrap(), rest)
    }
}

/// An iterator over new elements that panics at the n-th request.
struct Feed<'a, E> {
    src: &'a [(String, Ast)],
    at: usize,
    boom: Option<usize>,
    hint: usize,
    _e: std::marker::PhantomData<E>,
}
impl<'a, E: El> Iterator for Feed<'a, E> {
    type Item = (String, E);
    fn next(&mut self) -> Option<(String, E)> {
        sim::step();
        if self.boom == Some(self.at) {
            blow();
        }
        let (k, a) = self.src.get(self.at)?;
        self.at += 1;
        Some((k.clone(), E::make(a)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // Hints may be wrong: only correctness of the elements must not depend on them.
        let n = self.src.len() - self.at;
        match self.hint % 6 {
            0 | 1 => (0, None),
            2 | 3 => (n, Some(n)),
            4 => (n + 13, None),
            _ => (n / 2, Some(n / 2)),
        }
    }
}
fn blow() -> ! {
    sim::stat("fault.caller-closure-panic", 1);
    sim::inject_panic()
}

/// Counts calls of a closure and panics at the chosen one.
struct Fuse(Cell<usize>, Option<usize>);
impl Fuse {
    fn tick(&self) {
        sim::step();
        let n = self.0.get();
        self.0.set(n + 1);
        if self.1 == Some(n) {
            blow();
        }
    }
}

fn ranges(n: usize, i: usize, j: usize) -> std::ops::Range<usize> {
    let a = i % (n + 1);
    let b = a + j % (n - a + 1);
    a..b
}

/// The operations, spelled out for each type of its own, so that a method of `Array` or `Object` is called wherever
/// there is one and the method of the collection inside wherever there is not: as a caller's code would.
macro_rules! operations {
    ($m:ident, $e:ty) => {
        mod $m {
            use super::*;
            type E = $e;
            /// Performs the operation; returns what it handed back to the caller.
            pub fn apply(slots: &mut [E], op: &Op, outs: &mut Vec<E>) {
                let (a, b) = (op.a % slots.len(), op.b % slots.len());
                let feed = |hint| Feed::<E> { src: &op.new, at: 0, boom: op.boom, hint, _e: std::marker::PhantomData };
                let fuse = Fuse(Cell::new(0), op.boom);
                let first = || E::make(&op.new[0].1);
                match op.kind {
                    0 => {
                        *find(&mut slots[a], &op.path) = first();
                        return;
                    }
                    1 => {
                        outs.push(std::mem::take(find(&mut slots[a], &op.path)));
                        return;
                    }
                    2 => {
                        outs.push(std::mem::replace(find(&mut slots[a], &op.path), first()));
                        return;
                    }
                    3 => return slots.swap(a, b),
                    4 => {
                        let c = slots[a].clone();
                        slots[b] = c;
                        return;
                    }
                    5 => {
                        if a != b {
                            let src = slots[a].clone();
                            find(&mut slots[b], &op.path).clone_from(&src);
                            drop(src);
                        }
                        return;
                    }
                    6 => {
                        slots[a] = E::default();
                        return;
                    }
                    7 => {
                        let c = find(&mut slots[a], &op.path).clone();
                        slots[b] = c;
                        return;
                    }
                    8 => {
                        let c = std::mem::take(find(&mut slots[a], &op.path));
                        slots[b] = c;
                        return;
                    }
                    9 => {
                        let n = find(&mut slots[a], &op.path);
                        let inner = std::mem::take(n);
                        if op.i % 2 == 0 {
                            let mut l = E::new_list();
                            l.push(inner);
                            *n = E::of_list(l);
                        } else {
                            let mut o = E::new_dict();
                            o.insert(op.key.clone(), inner);
                            *n = E::of_dict(o);
                        }
                        return;
                    }
                    64 => {
                        let mut l = if op.i % 2 == 0 { E::new_list() } else { <E as El>::L::default() };
                        let mut o = if op.j % 2 == 0 { E::new_dict() } else { <E as El>::O::default() };
                        for (i, (k, e)) in feed(2).enumerate() {
                            if i % 2 == 0 {
                                l.push(e);
                            } else {
                                o.insert(k, e);
                            }
                        }
                        slots[a] = E::of_list(l);
                        slots[b] = E::of_dict(o);
                        return;
                    }
                    65 => return, // handled by the caller
                    _ => {}
                }
                // Moves another slot's container in where an operation needs one.
                let takes = matches!(op.kind, 21 | 29 | 38 | 45 | 56);
                let other = if a != b && takes { std::mem::take(&mut slots[b]) } else { E::default() };
                if op.kind < 40 {
                    let node = find(&mut slots[a], &op.path);
                    if node.list().is_none() {
                        if a != b && takes {
                            slots[b] = other;
                        }
                        return;
                    }
                    let l = node.list().unwrap();
                    let n = l.len();
                    match op.kind {
                        10 => l.push(first()),
                        11 => outs.extend(l.pop()),
                        12 => l.insert(op.i % (n + 1), first()),
                        13 if n > 0 => outs.push(l.remove(op.i % n)),
                        14 if n > 0 => outs.push(l.swap_remove(op.i % n)),
                        15 => l.truncate(op.i % (n + 4)),
                        16 => l.clear(),
                        17 => l.extend(feed(op.i).map(|x| x.1)),
                        18 => l.retain(|e| {
                            fuse.tick();
                            e.weight() % 3 != op.j as u64 % 3
                        }),
                        19 => {
                            let mut d = l.drain(ranges(n, op.i, op.j));
                            for _ in 0..op.b % 4 {
                                outs.extend(if op.b % 8 < 4 { d.next() } else { d.next_back() });
                            }
                            if op.boom.is_some() {
                                blow();
                            }
                        }
                        20 => {
                            let t = l.split_off(op.i % (n + 1));
                            outs.extend(t);
                        }
                        21 => {
                            if let Some(mut o) = other.into_list() {
                                l.append(&mut o);
                            }
                            return;
                        }
                        22 => {
                            let mut it = std::mem::take(l).into_iter();
                            for _ in 0..op.i % (n + 2) {
                                outs.extend(it.next());
                            }
                            if op.boom.is_some() {
                                blow();
                            }
                        }
                        23 => *l = feed(op.i).map(|x| x.1).collect(),
                        24 => {
                            let v = E::ref_list(l);
                            let k = v.iter().map(|e| e.weight()).sum::<u64>();
                            drop(v);
                            outs.push(E::make(&num(k)));
                        }
                        25 => E::mut_list(l, &mut |e| {
                            fuse.tick();
                            if e.weight() % 2 == op.j as u64 % 2 {
                                *e = first();
                            }
                        }),
                        26 => {
                            if op.j % 2 == 0 || n == 0 {
                                l.reverse();
                            } else {
                                l.rotate_left(op.i % n);
                            }
                        }
                        27 => l.resize_with(op.i % 12, || {
                            fuse.tick();
                            first()
                        }),
                        28 => {
                            let c = l.clone();
                            outs.push(E::of_list(c));
                        }
                        29 => {
                            if let Some(o) = other.into_list() {
                                l.clone_from(&o);
                                outs.push(E::of_list(o));
                            }
                            return;
                        }
                        30 => l.dedup_by(|x, y| {
                            fuse.tick();
                            x.weight() / 100 == y.weight() / 100
                        }),
                        31 => l.sort_by(|x, y| {
                            fuse.tick();
                            x.weight().cmp(&y.weight())
                        }),
                        32 => {
                            if op.j % 2 == 0 {
                                l.shrink_to_fit();
                            } else {
                                l.reserve(op.i % 50);
                            }
                        }
                        33 => {
                            let t = std::mem::take(l);
                            outs.push(E::of_list(t));
                        }
                        34 => {
                            let r = ranges(n, op.i, op.j);
                            let mut s = l.splice(r, feed(op.b).map(|x| x.1));
                            outs.extend(s.next());
                        }
                        35 => l.retain_mut(|e| {
                            fuse.tick();
                            if e.weight() % 5 == 0 {
                                *e = E::default();
                            }
                            e.weight() % 4 != op.j as u64 % 4
                        }),
                        36 => {
                            let hit = l.iter().any(|e| {
                                fuse.tick();
                                e.weight() == 6
                            });
                            outs.push(E::make(&Ast::Bool(hit)));
                        }
                        37 => outs.extend(l.to_vec()),
                        38 => {
                            if let Some(o) = other.into_list() {
                                l.extend(o.into_iter().inspect(|_| fuse.tick()).take(op.i % 5));
                            }
                            return;
                        }
                        39 => {
                            let t = std::mem::take(l);
                            *l = t.into_iter().inspect(|_| fuse.tick()).filter(|e| e.weight() % 3 != 0).collect();
                        }
                        _ => {}
                    }
                    return;
                }
                let node = find(&mut slots[a], &op.path);
                if node.dict().is_none() {
                    if a != b && takes {
                        slots[b] = other;
                    }
                    return;
                }
                let o = node.dict().unwrap();
                let n = o.len();
                let key = if op.i % 2 == 0 && n > 0 { o.keys().nth(op.j % n).unwrap().clone() } else { op.key.clone() };
                match op.kind {
                    40 => outs.extend(o.insert(key, first())),
                    41 => outs.extend(o.remove(&key)),
                    42 => {
                        let e = o.entry(key).or_insert_with(|| {
                            fuse.tick();
                            first()
                        });
                        outs.push(E::make(&num(e.weight())));
                    }
                    43 => {
                        if let Some(e) = o.get_mut(&key) {
                            outs.push(std::mem::replace(e, first()));
                        }
                    }
                    44 => o.retain(|k, e| {
                        fuse.tick();
                        (k.len() as u64 + e.weight()) % 3 != op.j as u64 % 3
                    }),
                    45 => {
                        if let Some(mut x) = other.into_dict() {
                            o.append(&mut x);
                        }
                        return;
                    }
                    46 => {
                        let mut t = E::new_dict();
                        *t = o.split_off(&key);
                        outs.push(E::of_dict(t));
                    }
                    47 => {
                        let mut it = std::mem::take(o).into_iter();
                        for _ in 0..op.i % (n + 2) {
                            outs.extend(it.next().map(|x| x.1));
                        }
                        if op.boom.is_some() {
                            blow();
                        }
                    }
                    48 => *o = feed(op.i).collect(),
                    49 => {
                        let v = E::ref_dict(o);
                        let k = v.iter().map(|(k, e)| k.len() as u64 + e.weight()).sum::<u64>();
                        drop(v);
                        outs.push(E::make(&num(k)));
                    }
                    50 => E::mut_dict(o, &mut |k, e| {
                        fuse.tick();
                        if k.len() % 2 == op.j % 2 {
                            *e = first();
                        }
                    }),
                    51 => outs.extend(o.pop_first().map(|x| x.1)),
                    52 => outs.extend(o.pop_last().map(|x| x.1)),
                    53 => o.clear(),
                    54 => o.extend(feed(op.i)),
                    55 => {
                        let c = o.clone();
                        outs.push(E::of_dict(c));
                    }
                    56 => {
                        if let Some(x) = other.into_dict() {
                            o.clone_from(&x);
                            outs.push(E::of_dict(x));
                        }
                        return;
                    }
                    57 => {
                        let t = std::mem::take(o);
                        outs.push(E::of_dict(t));
                    }
                    58 => o.values_mut().for_each(|e| {
                        fuse.tick();
                        if e.weight() % 2 == 0 {
                            *e = E::default();
                        }
                    }),
                    59 => outs.extend(o.remove_entry(&key).map(|x| x.1)),
                    60 => o.range_mut(key..).for_each(|(_, e)| {
                        fuse.tick();
                        *e = first();
                    }),
                    61 => {
                        let mut m = std::mem::take(&mut **o).into_values();
                        outs.extend(m.next());
                        outs.extend(m.next_back());
                        if op.boom.is_some() {
                            blow();
                        }
                    }
                    62 => {
                        let mut m = std::mem::take(&mut **o).into_keys();
                        outs.extend(m.next().map(|k| E::make(&Ast::Str(k))));
                    }
                    63 => {
                        o.entry(key)
                            .and_modify(|e| {
                                fuse.tick();
                                *e = E::default();
                            })
                            .or_default();
                    }
                    _ => {}
                }
            }
        }
    };
}
operations!(on_value, Value);
operations!(on_model, M);

fn num(n: u64) -> Ast {
    Ast::Num(Num::U(n))
}

fn gen_op(t: &mut Tape, g: &Gen, booms: bool) -> Op {
    let kind = t.below(KINDS.len());
    let many = t.chance(1, 6);
    let n = if many { t.range(5, 40) } else { t.range(1, 4) };
    let deep = if many { 0 } else { t_depth(g) };
    Op {
        kind,
        a: t.below(4),
        b: t.below(8),
        path: (0..t.below(3)).map(|_| t.below(6)).collect(),
        i: t.below(24),
        j: t.below(24),
        key: zoo::any_key(t),
        new: (0..n).map(|_| (zoo::any_key(t), strip(zoo::any(t, deep, g)))).collect(),
        boom: if booms && t.chance(1, 3) { Some(t.below(if many { n + 2 } else { 6 })) } else { None },
    }
}
fn t_depth(g: &Gen) -> usize {
    g.depth
}
/// Numbers by value, members unique: what a Value can hold.
fn strip(a: Ast) -> Ast {
    match a {
        Ast::Raw(s) => refjson::parse(&s).ast.unwrap_or(Ast::Null),
        Ast::Num(Num::F32(f)) => Ast::Num(Num::F(f64::from(f))),
        Ast::Arr(v) => Ast::Arr(v.into_iter().map(strip).collect()),
        Ast::Obj(v) | Ast::Set(v) => {
            let m: BTreeMap<String, Ast> = v.into_iter().map(|(k, e)| (k, strip(e))).collect();
            Ast::Obj(m.into_iter().collect())
        }
        a => a,
    }
}

const SLOTS: usize = 4;

fn start(t: &mut Tape, g: &Gen, vast: bool) -> (Vec<Value>, Vec<M>) {
    let mut asts: Vec<Ast> = (0..SLOTS)
        .map(|_| {
            let mut a = strip(zoo::any(t, 3, g));
            // Mostly containers: that is where there is something to get wrong.
            if !matches!(a, Ast::Arr(_) | Ast::Obj(_)) {
                a = if t.chance(1, 2) { Ast::Arr(vec![a, Ast::Null]) } else { Ast::Obj(vec![("k".to_owned(), a)]) };
            }
            a
        })
        .collect();
    if vast {
        sim::stat("coverage.vast_containers", 1);
        asts[0] = strip(crate::sc_text::parse_numbers(crate::vast::amplify(t, &asts[0])));
    }
    let v = {
        let _e = sim::enter();
        asts.iter().map(Value::make).collect()
    };
    (v, asts.iter().map(M::make).collect())
}

fn run_model(m: &mut [M], op: &Op) -> (Result<(), ()>, Vec<Ast>) {
    let mut outs = Vec::new();
    let r = catch_unwind(AssertUnwindSafe(|| on_model::apply(m, op, &mut outs)));
    (r.map_err(drop), outs.iter().map(M::ast).collect())
}

fn run_real(v: &mut Vec<Value>, op: &Op) -> (Out<()>, Vec<Ast>) {
    let mut outs: Vec<Value> = Vec::new();
    let r = sim::sut(|| on_value::apply(v, op, &mut outs));
    let a = outs.iter().map(zoo::value_ast).collect();
    if let Err(s) = sim::sut(|| drop(outs)) {
        violate!("panic", "dropping what an operation returned panicked: {s:?}");
    }
    (r, a)
}

fn compare(what: &str, v: &[Value], m: &[M]) -> bool {
    for (i, (v, m)) in v.iter().zip(m).enumerate() {
        let (x, y) = (zoo::value_ast(v), m.ast());
        if !refjson::same(&x, &y, EXACT) {
            violate!("containers-diverge", "{what}: slot {i} holds {} instead of {}", show(&x), show(&y));
            return false;
        }
    }
    true
}

pub fn c14(t: &mut Tape, tier: Tier) {
    let g = Gen { width: *t.pick(&[2, 4, 14]), depth: 2, ..SENT };
    let vast = crate::vast::due(t, 250);
    let (mut v, mut m) = start(t, &g, vast);
    let n = if vast { t.range(4, 12) } else { t.range(4, tier.pick(60, 400, 14)) };
    let booms = t.chance(2, 3);
    for step in 0..n {
        if sim::violated() {
            break;
        }
        let mut op = gen_op(t, &g, booms);
        if vast {
            // Aimed at the long container, and at all of it.
            if t.chance(3, 4) {
                op.a = 0;
            }
            if t.chance(1, 2) {
                op.path.truncate(t.below(2));
            }
            if t.chance(1, 3) {
                op.kind = *t.pick(&[4, 4, 5, 7, 8, 14, 15, 20, 21, 22, 26, 28, 29, 30, 31, 37, 39, 40, 41, 46, 47, 55, 56, 63, 64]);
            }
            if t.chance(1, 2) {
                (op.i, op.j) = (t.below(70_000), t.below(70_000));
            }
            if op.boom.is_some() && t.chance(1, 2) {
                op.boom = Some(crate::vast::length(t));
            }
        }
        let op = op;
        sim::stat("calls", 1);
        sim::step();
        note!(
            "op {step}: {} slots {} {} path {:?} i {} j {} key {:?} boom {:?} new {}",
            KINDS[op.kind],
            op.a % SLOTS,
            op.b % SLOTS,
            op.path,
            op.i,
            op.j,
            op.key,
            op.boom,
            op.new.iter().map(|(k, a)| format!("{k:?}:{}", show(a))).collect::<Vec<_>>().join(",")
        );
        if op.kind == 65 {
            round_trip(&mut v, op.a % SLOTS, op.b % SLOTS, &mut m, op.i);
            continue;
        }
        let what = format!("after {} ({step})", KINDS[op.kind]);
        let before: Vec<Ast> = m.iter().map(M::ast).collect();
        let (rm, om) = run_model(&mut m, &op);
        let (rv, ov) = run_real(&mut v, &op);
        sim::observe(op.kind as u64);
        match (&rm, &rv) {
            (Ok(()), Ok(())) | (Err(()), Err(Stop::Injected)) => {}
            _ => {
                violate!("panic", "{what}: expected {}, got {rv:?}", if rm.is_ok() { "no panic" } else { "the caller's panic" });
                break;
            }
        }
        if op.kind == 31 && rm.is_err() {
            // After a panic in a comparison the order is unspecified; nothing may be lost or doubled.
            let b: Vec<Ast> = v.iter().map(zoo::value_ast).collect();
            for (x, y) in b.iter().zip(&before) {
                if bag(x) != bag(y) {
                    violate!("containers-diverge", "{what}: elements lost or doubled: {} was {}", show(x), show(y));
                }
            }
            m = b.iter().map(M::make).collect();
            continue;
        }
        if ov.len() != om.len() || !ov.iter().zip(&om).all(|(x, y)| refjson::same(x, y, EXACT)) {
            violate!(
                "containers-diverge",
                "{what}: handed out [{}] instead of [{}]",
                ov.iter().map(show).collect::<Vec<_>>().join(", "),
                om.iter().map(show).collect::<Vec<_>>().join(", ")
            );
            break;
        }
        if !compare(&what, &v, &m) {
            break;
        }
        sim::observe(crate::exec::hash_ast(&m[op.a % SLOTS].ast()));
        if m.iter().map(|m| size(&m.ast())).sum::<usize>() > if vast { 200_000 } else { 600 } {
            let i = t.below(SLOTS);
            m[i] = M::default();
            let _e = sim::enter();
            v[i] = Value::Null;
        }
    }
    if let Err(s) = sim::sut(|| drop(v)) {
        violate!("panic", "dropping the values panicked: {s:?}");
    }
    sim::conservation_check("after dropping every value");
}

/// All leaves and container sizes, sorted.
fn bag(a: &Ast) -> Vec<String> {
    fn walk(a: &Ast, out: &mut Vec<String>) {
        match a {
            Ast::Arr(v) => {
                out.push(format!("[{}", v.len()));
                v.iter().for_each(|e| walk(e, out));
            }
            Ast::Obj(v) | Ast::Set(v) => {
                out.push(format!("{{{}", v.len()));
                v.iter().for_each(|(k, e)| {
                    out.push(k.clone());
                    walk(e, out);
                });
            }
            a => out.push(format!("{a:?}")),
        }
    }
    let mut v = Vec::new();
    walk(a, &mut v);
    v.sort();
    v
}
fn size(a: &Ast) -> usize {
    match a {
        Ast::Arr(v) => 1 + v.iter().map(size).sum::<usize>(),
        Ast::Obj(v) | Ast::Set(v) => 1 + v.iter().map(|(_, e)| size(e)).sum::<usize>(),
        _ => 1,
    }
}

/// Write a slot and read it into another, or fail to.
fn round_trip(v: &mut [Value], a: usize, b: usize, m: &mut [M], torn: usize) {
    let s = match sim::sut(|| v[a].text()) {
        Ok(s) => s,
        Err(e) => {
            violate!("panic", "to_string panicked: {e:?}");
            return;
        }
    };
    let want = crate::net::wire(&m[a].ast());
    match refjson::parse(&s).ast {
        Ok(x) if refjson::same(&x, &want, EXACT) => {}
        _ => violate!("wrong-output", "{} was written as {}", show(&want), brief(&s)),
    }
    if torn % 3 == 0 {
        let cut = crate::damage::cut_at(&s, s.len() / 2);
        match sim::sut(|| Value::parse(cut)) {
            Ok(None) => {}
            Ok(Some(x)) => {
                // A cut number is still a number.
                let _e = sim::enter();
                drop(x);
            }
            Err(e) => violate!("panic", "from_str::<Value>({}) panicked: {e:?}", brief(cut)),
        }
    } else {
        match sim::sut(|| v[b] = Value::parse(&s).unwrap_or_default()) {
            Ok(()) => m[b] = M::make(&zoo::value_ast(&v[b])),
            Err(e) => violate!("panic", "from_str::<Value>({}) panicked: {e:?}", brief(&s)),
        }
        if !refjson::same(&zoo::value_ast(&v[b]), &want, refjson::DECODE) {
            violate!("containers-diverge", "{} was written and read back as {}", show(&want), show(&zoo::value_ast(&v[b])));
        }
    }
    let _e = sim::enter();
    drop(s);
}

// ---------------------------------------------------------------- C16

/// Operations on values with one allocation refused.
pub fn oom(t: &mut Tape, tier: Tier) {
    // Maps stay within one B-tree node: splitting is not unwind-safe in std itself.
    let g = Gen { width: 3, depth: 2, bulk: 0, ..SENT };
    let (mut v, mut m) = start(t, &g, false);
    let n = t.range(1, tier.pick(10, 40, 3));
    let shift = t.below(5);
    for step in 0..n {
        if sim::violated() {
            break;
        }
        let op = gen_op(t, &g, false);
        if matches!(op.kind, 65 | 45 | 54 | 62 | 39) {
            // 45, 54: may grow a map beyond one node. 62, 39: a closure in std (IntoKeys, filter)
            // drops a value after making its result, and rustc loses the result of a function whose
            // locals unwind while being dropped.
            continue;
        }
        let mut op = op;
        if !matches!(op.kind, 17 | 23) {
            op.new.truncate(4);
        }
        if op.kind == 48 {
            // Building a std map in bulk drops repeated entries while the tree is not yet owned by
            // anyone: an allocation failure inside that drop leaks it, in std.
            let mut seen = std::collections::BTreeSet::new();
            op.new.retain(|(k, _)| seen.insert(k.clone()));
        }
        let copy = |v: &[Value]| -> Vec<Value> {
            let _e = sim::enter();
            v.to_vec()
        };
        let what = format!("{} (op {step})", KINDS[op.kind]);
        note!("{what} slots {} {} path {:?} i {} j {} new {}", op.a % SLOTS, op.b % SLOTS, op.path, op.i, op.j, op.new.iter().map(|(k, a)| format!("{k:?}:{}", show(a))).collect::<Vec<_>>().join(","));
        for x in &m {
            note!("   slot {}", show(&x.ast()));
        }
        let live = alloc::live();
        // How many allocations the operation makes.
        let mut w = copy(&v);
        alloc::begin_call();
        let (r, _) = run_real(&mut w, &op);
        if r.is_err() {
            violate!("panic", "{what} panicked: {r:?}");
        }
        let na = alloc::N_ALLOC.load(Relaxed) as usize;
        let after: Vec<Ast> = w.iter().map(zoo::value_ast).collect();
        let _ = sim::sut(|| drop(w));
        for k in crate::exec::indices(t, na, tier.pick(16, 60, 3)) {
            if sim::violated() {
                break;
            }
            let mut w = copy(&v);
            alloc::begin_call();
            alloc::refuse(k, shift);
            let mut outs: Vec<Value> = Vec::new();
            let r = sim::sut(|| on_value::apply(&mut w, &op, &mut outs));
            alloc::FAIL_AT.store(0, Relaxed);
            let fired = alloc::FAIL_FIRED.load(Relaxed);
            sim::step();
            if fired {
                sim::stat("fault.allocation-refused", 1);
                let whole = r.is_ok() && after.iter().zip(&w).all(|(a, b)| refjson::same(a, &zoo::value_ast(b), EXACT));
                if !whole && !matches!(r, Err(Stop::Oom)) {
                    violate!("oom-ignored", "{what}: allocation {k} of {na} refused, yet {r:?}");
                }
            } else if let Err(s) = &r {
                violate!("panic", "{what} panicked: {s:?}");
            } else if !after.iter().zip(&w).all(|(a, b)| refjson::same(a, &zoo::value_ast(b), EXACT)) {
                violate!("containers-diverge", "{what}: the same operation had another effect the second time");
            }
            // Whatever is left must still be proper values.
            for x in w.iter().chain(&outs) {
                std::hint::black_box(zoo::value_ast(x));
            }
            if let Err(s) = sim::sut(|| drop((w, outs))) {
                violate!("panic", "{what}: dropping what was left panicked: {s:?}");
            }
            alloc::flush_quarantine();
            if alloc::live() != live && !cfg!(miri) {
                violate!("leak-memory", "{what}: allocation {k} of {na} refused: {} more heap blocks live than before", alloc::live() as i64 - live as i64);
            }
        }
        let (_, _) = run_model(&mut m, &op);
        let _ = run_real(&mut v, &op);
        if !compare(&what, &v, &m) {
            break;
        }
        let big = m.iter().any(|m| widest(&m.ast()) > 6) || m.iter().map(|m| size(&m.ast())).sum::<usize>() > 120;
        if big {
            break;
        }
    }
    if let Err(s) = sim::sut(|| drop(v)) {
        violate!("panic", "dropping the values panicked: {s:?}");
    }
    sim::conservation_check("after dropping every value");
}

fn widest(a: &Ast) -> usize {
    match a {
        Ast::Arr(v) => v.iter().map(widest).max().unwrap_or(0),
        Ast::Obj(v) | Ast::Set(v) => v.len().max(v.iter().map(|(_, e)| widest(e)).max().unwrap_or(0)),
        _ => 0,
    }
}
