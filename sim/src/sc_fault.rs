//! C01-C05 and C16: participants that fail at every possible point.

use crate::exec::{self, de, gen_case, indices, one, pick_hasher, pick_type, settle, Case, De};
use crate::part::{self, Ctx, Ev, Fault, FK};
use crate::refjson::{self, brief, DECODE, EXACT};
use crate::sim::{self, Stop};
use crate::snode::{self, SNode};
use crate::tape::Tape;
use crate::zoo::{self, Gen, GEN};
use crate::{alloc, note, vast, violate, Tier};
use std::sync::atomic::Ordering::Relaxed;

fn gen_opts(t: &mut Tape) -> Gen {
    Gen { width: *t.pick(&[3, 5, 9]), depth: 3, wild: *t.pick(&[0, 0, 0, 30, 120]), ..GEN }
}

/// Cut the text at a character boundary (not at the end), or damage it a little.
pub fn spoil(t: &mut Tape, s: &str) -> String {
    if s.is_empty() || t.chance(1, 2) {
        let n = t.below(s.len().max(1));
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        sim::stat("fault.input-cut", 1);
        s[..k].to_owned()
    } else {
        sim::stat("fault.input-damaged", 1);
        crate::damage::damage(t, s, &[])
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(t: &mut Tape, tier: Tier) {
    if vast::due(t, 500) {
        return vast::run(t, &|_| true);
    }
    if vast::due(t, 83) {
        return vast::nested(t, &|_| true);
    }
    let width = tier.pick(14, 40, 3);
    let e = pick_type(t, &|e| e.probing);
    pick_hasher(t);
    let g = gen_opts(t);
    let mut c = gen_case(t, e, &g);
    if t.chance(1, 4) {
        c = Case::of(e, spoil(t, &c.text)).noted();
    } else if t.chance(1, 6) {
        c = c.restructured(t).noted();
    }
    let base = de(e, &c.text, part::fresh(vec![]));
    no_surprise(&c, &base, false);
    settle("after a call without faults", &base, false);
    let (ncb, nop, ndrop) = (base.ctx.n_cb, base.ctx.n_op, base.ctx.n_drop);
    sim::stat_max("max.callbacks_per_call", ncb as u64);

    for k in indices(t, ncb, width) {
        for kind in [FK::Err, FK::Panic, FK::Lazy] {
            if sim::violated() {
                return;
            }
            let d = de(e, &c.text, one(k, kind));
            no_surprise(&c, &d, kind == FK::Lazy);
            settle(&format!("participant callback {k} of {ncb} answered with {kind:?}"), &d, false);
        }
    }
    for k in indices(t, nop, width) {
        if sim::violated() {
            return;
        }
        let d = de(e, &c.text, Ctx { op_panic: Some(k), ..Ctx::default() });
        no_surprise(&c, &d, false);
        settle(&format!("hash or comparison {k} of {nop} panicked"), &d, false);
    }
    for k in indices(t, ndrop, width) {
        if sim::violated() {
            return;
        }
        let d = de(e, &c.text, Ctx { drop_panic: Some(k), ..Ctx::default() });
        no_surprise(&c, &d, false);
        settle(&format!("destructor {k} of {ndrop} panicked"), &d, e.hashing && d.ctx.drop_fired);
    }
    // Two failures in one call: a callback fails and, while the rest is torn down, so does a destructor.
    let pairs = tier.pick(10, 40, 3);
    for _ in 0..pairs {
        if ncb == 0 || sim::violated() {
            break;
        }
        let k = t.below(ncb);
        let kind = *t.pick(&[FK::Err, FK::Err, FK::Lazy]);
        let probe = de(e, &c.text, one(k, kind));
        let n = probe.ctx.n_drop;
        settle("dry run", &probe, false);
        if n == 0 {
            continue;
        }
        let j = t.below(n);
        let mut ctx = one(k, kind);
        ctx.drop_panic = Some(j);
        let d = de(e, &c.text, ctx);
        no_surprise(&c, &d, kind == FK::Lazy);
        settle(&format!("callback {k} answered with {kind:?}, then destructor {j} of {n} panicked"), &d, e.hashing && d.ctx.drop_fired);
    }
    // A participant fails and, earlier or later, another accepted without writing.
    for _ in 0..tier.pick(4, 12, 1) {
        if ncb < 2 || sim::violated() {
            break;
        }
        let a = t.below(ncb);
        let b = t.below(ncb);
        let kb = *t.pick(&[FK::Err, FK::Panic]);
        let d = de(e, &c.text, part::fresh(vec![Fault { at: a, kind: FK::Lazy }, Fault { at: b, kind: kb }]));
        no_surprise(&c, &d, true);
        settle(&format!("callback {a} answered with Lazy and {b} with {kb:?}"), &d, false);
    }
}

/// Only panics that the simulator injected may come out (or, if a participant accepted without
/// writing, the documented refusal of Box<T>).
fn no_surprise(c: &Case, d: &De, lazy: bool) {
    for s in [d.out.as_ref().err(), d.dropped.as_ref().err()].into_iter().flatten() {
        if let Stop::Unexpected(m) = s {
            if lazy && c.e.boxing {
                continue;
            }
            violate!("panic", "from_str::<{}>({}) panicked by itself: {m}", c.e.name, brief(&c.text));
        }
    }
}

// ---------------------------------------------------------------- C03

pub fn c03(t: &mut Tape, tier: Tier) {
    if vast::due(t, 800) {
        return vast::run(t, &|_| true);
    }
    if vast::due(t, 133) {
        return vast::nested(t, &|_| true);
    }
    let width = tier.pick(40, 120, 3);
    let e = pick_type(t, &|_| true);
    pick_hasher(t);
    let g = gen_opts(t);
    let c = gen_case(t, e, &g);
    let base = de(e, &c.text, part::fresh(vec![]));
    exec::check_model(&c, &base, DECODE);
    settle("after a call without faults", &base, false);
    let ncb = base.ctx.n_cb;
    for k in indices(t, ncb, width) {
        for kind in [FK::Err, FK::Panic] {
            if sim::violated() {
                return;
            }
            let d = de(e, &c.text, one(k, kind));
            verdict_after(&c, &d, k, kind);
            settle("c03", &d, false);
        }
    }
    for k in indices(t, base.ctx.n_op, width / 4) {
        let d = de(e, &c.text, Ctx { op_panic: Some(k), ..Ctx::default() });
        if d.ctx.op_fired && d.out.as_ref().err() != Some(&Stop::Injected) {
            violate!("swallowed-panic", "hash or comparison {k} panicked but from_str::<{}> gave {}", e.name, d.verdict());
        }
        settle("c03", &d, false);
    }
    // Two failing participants: the first one decides, the second is never asked.
    if ncb >= 2 {
        for _ in 0..3 {
            let a = t.below(ncb);
            let b = t.below(ncb);
            let d = de(e, &c.text, part::fresh(vec![Fault { at: a, kind: FK::Err }, Fault { at: b, kind: FK::Err }]));
            verdict_after(&c, &d, a.min(b), FK::Err);
            settle("c03", &d, false);
        }
    }
    // Members repeated, lost, moved: some tellings are incomplete or of another kind.
    for _ in 0..tier.pick(10, 40, 2) {
        if sim::violated() {
            return;
        }
        let k = c.restructured(t);
        let d = de(e, &k.text, part::fresh(vec![]));
        exec::check_model(&k, &d, DECODE);
        settle("c03", &d, false);
    }
    // Not one complete document, or followed by more: the type does not matter.
    for _ in 0..tier.pick(6, 20, 2) {
        let mut s = c.text.clone();
        match t.draw(4) {
            0 => s.push_str(*t.pick(&["x", "]", "}", ",", "1", "\"", "null", "{}", "\u{0}", "/", "\u{a0}", "\u{feff}"])),
            1 => {
                let at = t.below(s.len() + 1);
                let at = (0..=at).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0);
                s.truncate(at);
            }
            2 => s = format!("{s} {s}"),
            _ => s = format!("{}{s}", t.pick(&["]", ",", ":", "x", "\u{feff}", "\u{0}"])),
        }
        sim::stat("fault.incomplete-or-trailing", 1);
        let k = Case::of(e, s);
        let d = de(e, &k.text, part::fresh(vec![]));
        exec::check_model(&k, &d, DECODE);
        settle("c03", &d, false);
    }
}

pub fn verdict_after(c: &Case, d: &De, k: usize, kind: FK) {
    if !d.ctx.fired.contains(&kind) {
        return; // the callback did not take place this time (cannot happen: the run is deterministic)
    }
    match (kind, &d.out) {
        (FK::Err, Ok(Err(()))) | (FK::Panic, Err(Stop::Injected)) => {}
        (FK::Err, Ok(Ok(a))) => violate!(
            "swallowed-error",
            "callback {k} ({:?}) reported an error, yet from_str::<{}>({}) returned {}",
            d.ctx.trace.last(),
            c.e.name,
            brief(&c.text),
            refjson::show(a)
        ),
        (FK::Err, Err(s)) => violate!(
            "error-became-panic",
            "callback {k} ({:?}) reported an error and from_str::<{}>({}) panicked: {s:?}",
            d.ctx.trace.last(),
            c.e.name,
            brief(&c.text)
        ),
        _ => violate!("swallowed-panic", "callback {k} ({:?}) panicked, yet from_str::<{}>({}) gave {}", d.ctx.trace.last(), c.e.name, brief(&c.text), d.verdict()),
    }
}

// ---------------------------------------------------------------- C04

pub fn c04(t: &mut Tape, tier: Tier) {
    if vast::due(t, 600) {
        return vast::run(t, &|e| e.probing);
    }
    if vast::due(t, 100) {
        return vast::nested(t, &|e| e.probing);
    }
    let e = pick_type(t, &|e| e.probing);
    pick_hasher(t);
    let g = Gen { width: *t.pick(&[3, 6, 12]), depth: *t.pick(&[3, 4, 5]), wild: *t.pick(&[0, 0, 0, 40]), ..GEN };
    let mut c = gen_case(t, e, &g);
    if t.chance(1, 4) {
        c = c.restructured(t).noted();
    }
    if c.ast.is_err() {
        return; // a number beyond the range: there is no reading of this document
    }
    let (want, complete) = c.trace();
    let base = de(e, &c.text, part::fresh(vec![]));
    if !c.grey {
        if complete && c.want.is_ok() {
            if base.ctx.trace != want {
                diff("wrong-calls", &c, &base.ctx.trace, &want);
            }
        } else {
            prefix(&c, &base.ctx.trace, &want);
        }
    }
    settle("c04", &base, false);
    let n = base.ctx.n_cb;
    for k in indices(t, n, tier.pick(24, 80, 3)) {
        if sim::violated() || c.grey {
            return;
        }
        for kind in [FK::Err, FK::Panic] {
            let d = de(e, &c.text, one(k, kind));
            let cut = &base.ctx.trace[..=k.min(n - 1)];
            if d.ctx.trace != cut {
                diff("calls-after-failure", &c, &d.ctx.trace, cut);
            }
            settle("c04", &d, false);
        }
    }
    // Cut or damaged input: what was seen is a prefix of what the undamaged part dictates.
    for _ in 0..tier.pick(20, 60, 3) {
        if sim::violated() {
            return;
        }
        let mut s = c.text.clone();
        let at = t.below(s.len() + 1);
        let at = (0..=at).rev().find(|&i| s.is_char_boundary(i)).unwrap_or(0);
        s.truncate(at);
        sim::stat("fault.input-cut", 1);
        let d = de(e, &s, part::fresh(vec![]));
        cut_prefix(&c, &s, &d.ctx.trace, &want);
        settle("c04", &d, false);
    }
}

fn diff(class: &str, c: &Case, got: &[Ev], want: &[Ev]) {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    violate!(
        class,
        "from_str::<{}>({}): call {i} was {:?}, expected {:?} ({} calls, expected {})",
        c.e.name,
        brief(&c.text),
        got.get(i),
        want.get(i),
        got.len(),
        want.len()
    );
}
fn prefix(c: &Case, got: &[Ev], want: &[Ev]) {
    // `want` is the walk up to where a library type must refuse; one slot request may precede that.
    let n = got.len().min(want.len());
    if got[..n] != want[..n] || got.len() > want.len() {
        diff("not-a-prefix", c, got, want);
    }
}
/// The same for a text cut short. A number or a slot request at the cut may differ: "12" of "123"
/// is never delivered (no delimiter follows inside a container), but "1" at top level is complete.
fn cut_prefix(c: &Case, cut: &str, got: &[Ev], want: &[Ev]) {
    let n = got.len().min(want.len());
    let mut m = n;
    if let Some(last) = got.last() {
        let number = matches!(last, Ev::Pos(_) | Ev::Neg(_) | Ev::Float(_));
        // The last number may have lost digits, and a slot may be asked for before the text ends.
        if (number || *last == Ev::Elem) && m == got.len() {
            m -= 1;
        }
    }
    if got[..m] != want[..m] || (got.len() > want.len() + 1) {
        let k = Case { e: c.e, text: cut.to_owned(), ast: Err(0), grey: false, want: Err(()) };
        diff("not-a-prefix", &k, got, want);
    }
}

// ---------------------------------------------------------------- serializing

pub struct Ser {
    pub out: Result<String, Stop>,
    pub dropped: Result<(), Stop>,
    pub ctx: Ctx,
}

/// Serialize the plan. The plan itself stays alive.
pub fn ser(n: &SNode, ctx: Ctx) -> Ser {
    sim::stat("calls", 1);
    sim::step();
    let saved = part::swap(ctx);
    alloc::begin_call();
    let r = sim::sut(|| miniserde::json::to_string(n));
    let out = r.map(|s| {
        let own = s.as_str().to_owned();
        let _e = sim::enter();
        drop(s);
        own
    });
    let ctx = part::swap(saved);
    match &out {
        Ok(s) => {
            sim::observe_str(s);
            note!("  to_string -> {}", brief(s));
        }
        Err(e) => note!("  to_string unwound: {e:?}"),
    }
    Ser { out, dropped: Ok(()), ctx }
}

/// What must be alive between calls: the plan and nothing else.
struct Base {
    toks: usize,
    blocks: u64,
}
fn baseline() -> Base {
    Base { toks: sim::ledger_alive(), blocks: alloc::live() }
}
fn back_to(b: &Base, what: &str, s: &Ser, leaky: bool) {
    alloc::flush_quarantine();
    if leaky {
        return;
    }
    if !s.ctx.live.is_empty() {
        violate!("leak", "{what}: {} stream(s) were never destroyed", s.ctx.live.len());
    } else if sim::ledger_alive() != b.toks {
        violate!("leak", "{what}: {} more participants alive than before the call", sim::ledger_alive() as i64 - b.toks as i64);
    } else if alloc::live() != b.blocks && !cfg!(miri) {
        violate!("leak-memory", "{what}: {} more heap blocks live than before the call", alloc::live() as i64 - b.blocks as i64);
    }
}
fn drop_plan(n: SNode, leaky: bool) {
    let saved = part::swap(part::fresh(vec![]));
    let _ = sim::sut(|| drop(n));
    part::swap(saved);
    if !leaky {
        sim::conservation_check("after dropping the serialized data");
    }
}

fn make_plan(t: &mut Tape, tier: Tier, bulk: u64) -> SNode {
    pick_hasher(t);
    let depth = t.range(1, 5);
    let budget = *t.pick(&[6, 20, 40, tier.pick(60, 150, 12) as usize]);
    let budget = budget.min(tier.pick(60, 200, 12));
    let saved = part::swap(part::fresh(vec![]));
    let n = snode::plan(t, depth, budget, true, bulk);
    part::swap(saved);
    note!("plan meaning {}", refjson::show(&n.ast()));
    n
}

pub fn c02(t: &mut Tape, tier: Tier) {
    let width = tier.pick(24, 80, 3);
    let n = make_plan(t, tier, zoo::BULK);
    let b = baseline();
    let base = ser(&n, part::fresh(vec![]));
    if let Err(s) = &base.out {
        violate!("panic", "to_string panicked by itself: {s:?}");
    }
    back_to(&b, "after a call without faults", &base, false);
    let (ncb, ndrop) = (base.ctx.n_cb, base.ctx.n_drop);
    sim::stat_max("max.callbacks_per_call", ncb as u64);
    for k in indices(t, ncb, width) {
        if sim::violated() {
            break;
        }
        let s = ser(&n, one(k, FK::Panic));
        if let Err(Stop::Unexpected(m)) = &s.out {
            violate!("panic", "to_string panicked by itself: {m}");
        }
        back_to(&b, &format!("participant callback {k} of {ncb} panicked"), &s, false);
    }
    for k in indices(t, ndrop, width) {
        if sim::violated() {
            break;
        }
        let s = ser(&n, Ctx { drop_panic: Some(k), ..Ctx::default() });
        if let Err(Stop::Unexpected(m)) = &s.out {
            violate!("panic", "to_string panicked by itself: {m}");
        }
        // A destructor that panics inside a copied hash map may leak the map's other entries (std).
        let leaky = has_hash(&n) && s.ctx.drop_fired;
        back_to(&b, &format!("destructor {k} of {ndrop} panicked"), &s, leaky);
        if leaky {
            drop_plan(n, true);
            return;
        }
    }
    drop_plan(n, false);
}

fn has_hash(n: &SNode) -> bool {
    use snode::NK::*;
    let any = |v: &[SNode]| v.iter().any(has_hash);
    match &n.k {
        LHash(..) => true,
        Seq(_, v) | LVec(v) => any(v),
        Map(_, v) => v.iter().any(|(_, _, n)| has_hash(n)),
        LArr(v) => any(&v[..]),
        LPair(v) => has_hash(&v.0) || has_hash(&v.1),
        LOpt(Some(n)) => has_hash(n),
        LBTree(m) => m.values().any(has_hash),
        LStruct(d) => d.any_child(&has_hash),
        Views(v) => v.iter().any(|(n, _)| has_hash(n)),
        _ => false,
    }
}

fn meaning(n: &SNode, text: &str, what: &str) {
    let p = refjson::parse(text);
    match p.ast {
        Err(at) => violate!("invalid-output", "{what}: to_string wrote text that is not JSON (at byte {at}): {}", brief(text)),
        Ok(a) => {
            let want = n.ast();
            if !refjson::same(&a, &want, EXACT) {
                violate!("wrong-output", "{what}: to_string wrote {} which means {} instead of {}", brief(text), refjson::show(&a), refjson::show(&want));
            }
        }
    }
}

pub fn c05(t: &mut Tape, tier: Tier) {
    if vast::due(t, 600) {
        return vast::run(t, &|e| !e.probing);
    }
    if vast::due(t, 100) {
        return vast::nested(t, &|e| !e.probing);
    }
    let n = make_plan(t, tier, zoo::BULK);
    let b = baseline();
    let base = ser(&n, part::fresh(vec![]));
    let mut want = Vec::new();
    n.walk(&mut want);
    match &base.out {
        Ok(s) => meaning(&n, s, "without faults"),
        Err(s) => violate!("panic", "to_string panicked by itself: {s:?}"),
    }
    walk_same("wrong-walk", &base.ctx.trace, &want);
    back_to(&b, "c05", &base, false);
    let ncb = base.ctx.n_cb;
    for k in indices(t, ncb, tier.pick(30, 100, 3)) {
        if sim::violated() {
            break;
        }
        let s = ser(&n, one(k, FK::Panic));
        walk_same("walk-not-a-prefix", &s.ctx.trace, &want[..=k.min(want.len() - 1)]);
        match &s.out {
            Err(Stop::Injected) => {}
            o => violate!("swallowed-panic", "callback {k} panicked but to_string gave {o:?}"),
        }
        let again = ser(&n, part::fresh(vec![]));
        match (&again.out, &base.out) {
            (Ok(a), Ok(b)) if a == b => {}
            (o, _) => violate!("retry-differs", "after a panic in callback {k}, serializing the same data again gave {o:?}"),
        }
        back_to(&b, "c05", &again, false);
    }
    drop_plan(n, false);

    // Values of library and derived types: same meaning, and the same text every time.
    for _ in 0..4 {
        let e = pick_type(t, &|e| !e.probing);
        let g = Gen { depth: 4, width: *t.pick(&[3, 6, 20]), ..zoo::SENT };
        let doc = zoo::gen(&e.schema, t, g.depth, &g);
        let mut grey = false;
        let Ok(canon) = zoo::decode(&e.schema, &doc, &mut grey) else { continue };
        let (v, s1, s2) = {
            let _e = sim::enter();
            let v = (e.build)(&canon);
            let s1 = sim::sut(|| v.to_json());
            let s2 = sim::sut(|| v.to_json());
            (v, s1, s2)
        };
        match (&s1, &s2) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    violate!("retry-differs", "{}: two serializations of one value differ: {} and {}", e.name, brief(a), brief(b));
                }
                let p = refjson::parse(a);
                let want = crate::net::wire(&v.value());
                match p.ast {
                    Ok(x) if refjson::same(&x, &want, EXACT) => {}
                    Ok(x) => violate!("wrong-output", "{}: to_string wrote {} which means {} instead of {}", e.name, brief(a), refjson::show(&x), refjson::show(&want)),
                    Err(at) => violate!("invalid-output", "{}: to_string wrote text that is not JSON (at byte {at}): {}", e.name, brief(a)),
                }
                sim::observe_str(a);
            }
            (a, b) => violate!("panic", "{}: to_string panicked: {a:?} {b:?}", e.name),
        }
        let _e = sim::enter();
        drop((v, s1, s2));
    }
}

fn walk_same(class: &str, got: &[Ev], want: &[Ev]) {
    if got != want {
        let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        violate!(class, "call {i} was {:?}, expected {:?} ({} calls, expected {})", got.get(i), want.get(i), got.len(), want.len());
    }
}

// ---------------------------------------------------------------- C16

pub fn c16(t: &mut Tape, tier: Tier) {
    let width = tier.pick(40, 150, 4);
    let n_de = t.range(0, 2);
    let shift = t.below(5);
    // Deserializing.
    for _ in 0..n_de {
        let e = pick_type(t, &|_| true);
        pick_hasher(t);
        let g = Gen { width: *t.pick(&[3, 6, 10]), depth: 3, wild: *t.pick(&[0, 0, 40]), bulk: 0, ..GEN };
        let mut c = gen_case(t, e, &g);
        if t.chance(1, 5) {
            c = Case::of(e, spoil(t, &c.text)).noted();
        }
        let base = de(e, &c.text, part::fresh(vec![]));
        settle("c16", &base, false);
        let n = alloc::N_ALLOC.load(Relaxed) as usize;
        for k in indices(t, if exec::splits_tree(&c.text) { 0 } else { n }, width) {
            if sim::violated() {
                return;
            }
            alloc::refuse(k, shift);
            note!("  refuse allocation {} of {n}", k + 1);
            let d = de(e, &c.text, part::fresh(vec![]));
            alloc::FAIL_AT.store(0, Relaxed);
            let fired = alloc::FAIL_FIRED.load(Relaxed);
            if fired {
                sim::stat("fault.allocation-refused", 1);
                match &d.out {
                    Err(Stop::Oom) => {}
                    Err(s) => violate!("panic", "from_str::<{}>({}), allocation {k} refused: {s:?}", e.name, brief(&c.text)),
                    // The refused block may have been the caller's, made after from_str returned.
                    Ok(Ok(a)) => {
                        if let Ok(w) = &c.want {
                            if !c.grey && !refjson::same(a, w, DECODE) {
                                violate!("partial-result", "from_str::<{}>({}), allocation {k} refused: delivered {}", e.name, brief(&c.text), refjson::show(a));
                            }
                        }
                    }
                    Ok(Err(())) => {
                        if c.want.is_ok() && !c.grey {
                            violate!("oom-became-error", "from_str::<{}>({}), allocation {k} refused: reported as a syntax error", e.name, brief(&c.text));
                        }
                    }
                }
            }
            // Dropping a Value allocates; std leaks the rest of a hash map if that unwinds.
            settle(&format!("allocation {} of {n} refused in from_str::<{}>", k + 1, e.name), &d, fired && e.hash_value);
        }
        let again = de(e, &c.text, part::fresh(vec![]));
        exec::check_model(&c, &again, DECODE);
        settle("c16", &again, false);
    }
    // Serializing.
    if t.chance(1, 2) {
        let n = make_plan(t, tier, 0);
        let b = baseline();
        let base = ser(&n, part::fresh(vec![]));
        back_to(&b, "c16", &base, false);
        let na = alloc::N_ALLOC.load(Relaxed) as usize;
        let mut leaky = false;
        for k in indices(t, na, width) {
            if sim::violated() {
                break;
            }
            alloc::refuse(k, shift);
            let s = ser(&n, part::fresh(vec![]));
            alloc::FAIL_AT.store(0, Relaxed);
            if alloc::FAIL_FIRED.load(Relaxed) {
                sim::stat("fault.allocation-refused", 1);
                match &s.out {
                    Err(Stop::Oom) => {}
                    Ok(s) if base.out.as_ref().ok() == Some(s) => {}
                    o => violate!("oom-ignored", "allocation {} of {na} refused in to_string, which gave {o:?}", k + 1),
                }
            }
            // Dropping a Value allocates; std leaks the rest of a hash map if that unwinds.
            leaky |= alloc::FAIL_FIRED.load(Relaxed) && has_hash(&n);
            back_to(&b, &format!("allocation {} of {na} refused in to_string", k + 1), &s, leaky);
        }
        let again = ser(&n, part::fresh(vec![]));
        if !sim::violated() && again.out.as_ref().ok() != base.out.as_ref().ok() {
            violate!("retry-differs", "after refused allocations the same data serializes to {:?}", again.out);
        }
        drop_plan(n, leaky);
    } else {
        crate::sc_value::oom(t, tier);
    }
}
