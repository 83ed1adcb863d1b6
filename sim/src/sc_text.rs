//! C06, C07, C11, C12, C13: what texts mean after storage, networks, other versions and other hashers.

use crate::damage::{self, cut_at, damage};
use crate::exec::{self, de, de_opt, gen_case, pick_hasher, pick_type, settle, Case};
use crate::net;
use crate::part;
use crate::refjson::{self, brief, show, Ast, Tol, DECODE};
use crate::sim;
use crate::tape::Tape;
use crate::zoo::{self, Entry, Gen, GEN, S, SENT};
use crate::{note, vast, violate, Tier};

/// A value of the type and its text as the library writes it.
pub fn sent(t: &mut Tape, e: &'static Entry, g: &Gen) -> (Ast, String) {
    let doc = zoo::gen(&e.schema, t, g.depth, g);
    let doc = parse_numbers(doc);
    let canon = zoo::decode(&e.schema, &doc, &mut false).expect("harness: generated value does not fit its own type");
    let _e = sim::enter();
    let v = (e.build)(&canon);
    let s = match sim::sut(|| v.to_json()) {
        Ok(s) => s,
        Err(x) => {
            violate!("panic", "to_string of {} panicked: {x:?}", e.name);
            String::new()
        }
    };
    let r = {
        let _p = sim::pause();
        (v.value(), s.as_str().to_owned())
    };
    drop((v, s));
    sim::stat("calls", 1);
    r
}

pub fn parse_numbers(a: Ast) -> Ast {
    match a {
        Ast::Raw(s) => refjson::parse(&s).ast.unwrap_or(Ast::Null),
        Ast::Arr(v) => Ast::Arr(v.into_iter().map(parse_numbers).collect()),
        Ast::Obj(v) => Ast::Obj(v.into_iter().map(|(k, e)| (k, parse_numbers(e))).collect()),
        a => a,
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(t: &mut Tape, tier: Tier) {
    if vast::due(t, 250) {
        return vast::run(t, &|_| true);
    }
    if vast::due(t, 41) {
        return vast::nested(t, &|_| true);
    }
    match t.draw(4) {
        0 => return net::journal(t, tier),
        1 => return net::cluster(t, tier, "C06"),
        _ => {}
    }
    let e = pick_type(t, &|_| true);
    pick_hasher(t);
    let g = Gen { width: *t.pick(&[3, 6]), depth: t.range(1, 3), ..SENT };
    let lib = t.chance(1, 2);
    let e = if lib || !t.chance(1, 8) { e } else { zoo::find(t.pick(&["f64", "f32", "Number", "Value", "u64", "i64", "Option<u8>", "bool", "Vec<f64>", "Option<Number>"])) };
    let text = if lib {
        sent(t, e, &g).1
    } else {
        let g = Gen { plain: false, ..g };
        let c = gen_case(t, e, &g);
        c.text.trim_end_matches([' ', '\n', '\t', '\r']).to_owned()
    };
    note!("record {} of type {}", brief(&text), e.name);
    let scalar = !text.trim_start_matches([' ', '\n', '\t', '\r']).starts_with(['{', '[', '"']);
    let whole = de(e, &text, part::fresh(vec![]));
    let c = Case::of(e, text.clone());
    if whole.ok().is_none() && c.want.is_ok() && !c.grey {
        violate!("rejected-valid", "from_str::<{}>({}) refused the complete record: {}", e.name, brief(&text), whole.verdict());
    }
    settle("c06", &whole, false);
    let other = pick_type(t, &|_| true);
    let n = text.len();
    let step = (n / tier.pick(250, 1500, 12)).max(1);
    let mut at = t.below(step);
    while at < n {
        let cut = cut_at(&text, at);
        at += step;
        if sim::violated() {
            return;
        }
        sim::stat("fault.torn-write", 1);
        for target in [e, zoo::find("Value"), other, zoo::find("Empty")] {
            let d = de(target, cut, part::fresh(vec![]));
            if scalar {
                // What is left of a number may be a number.
                let k = Case::of(target, cut.to_owned());
                exec::check_model(&k, &d, DECODE);
            } else if !matches!(d.out, Ok(Err(()))) {
                violate!("torn-accepted", "from_str::<{}> on {} - cut from {} - gave {}", target.name, brief(cut), brief(&text), d.verdict());
            }
            settle("torn record", &d, false);
        }
    }
}

// ---------------------------------------------------------------- C07

pub fn c07(t: &mut Tape, tier: Tier) {
    if vast::due(t, 600) {
        return vast::run(t, &|_| true);
    }
    if t.chance(1, 40) {
        return nested(t);
    }
    let e = pick_type(t, &|_| true);
    pick_hasher(t);
    let g = Gen { width: *t.pick(&[2, 5]), depth: t.range(1, 3), wild: *t.pick(&[0, 40, 200]), unknown: *t.pick(&[100, 500]), ..GEN };
    let c = gen_case(t, e, &g);
    let o = {
        let f = pick_type(t, &|_| true);
        gen_case(t, f, &GEN)
    };
    let d = de_opt(e, &c.text, part::fresh(vec![]), true);
    exec::check_model(&c, &d, DECODE);
    rewritten(&c, &d);
    settle("c07", &d, false);
    let mut last = c.text.clone();
    for i in 0..tier.pick(60, 300, 6) {
        if sim::violated() {
            return;
        }
        // Damage the original, or what was already damaged.
        let base = if t.chance(1, 5) { last.clone() } else { c.text.clone() };
        let k = if i % 8 == 7 { c.restructured(t) } else { Case::of(e, damage(t, &base, &[&o.text, &last])) };
        let d = de_opt(e, &k.text, part::fresh(vec![]), i % 4 == 0);
        exec::check_model(&k, &d, DECODE);
        rewritten(&k, &d);
        settle("c07", &d, false);
        if k.ast.is_ok() {
            sim::stat("damaged-but-json", 1);
            if k.want.is_ok() {
                sim::stat("damaged-but-accepted", 1);
            }
        }
        // The same damage to a member nobody reads.
        if i % 3 == 0 {
            let e = zoo::find("Empty");
            let k = Case::of(e, format!("{{\"ignored\":{}}}", k.text));
            let d = de(e, &k.text, part::fresh(vec![]));
            exec::check_model(&k, &d, DECODE);
            settle("c07", &d, false);
        }
        last = k.text;
        if last.len() > 4000 {
            last = c.text.clone();
        }
    }
}

/// Many levels, and the structure itself damaged.
fn nested(t: &mut Tape) {
    let e = zoo::find(*t.pick(&["Value", "Value", "Array", "Object", "Empty", "Vec<Value>", "Probe", "Probe"]));
    let skip = e.name == "Empty";
    let mut text = damage::nested(t);
    if skip {
        text = format!("{{\"ignored\":{text}}}");
    }
    let c = Case::of(e, text).noted();
    let d = de_opt(e, &c.text, part::fresh(vec![]), true);
    exec::check_model(&c, &d, DECODE);
    rewritten(&c, &d);
    settle("c07", &d, false);
    let n = (20_000 / c.text.len()).clamp(4, 40);
    for i in 0..n {
        if sim::violated() {
            return;
        }
        let mut s = damage::bracket(t, &c.text);
        if i % 4 == 3 {
            s = damage::bracket(t, &s);
        }
        let k = Case::of(e, s);
        let d = de_opt(e, &k.text, part::fresh(vec![]), i % 4 == 0);
        exec::check_model(&k, &d, DECODE);
        rewritten(&k, &d);
        settle("c07", &d, false);
    }
}

/// What was read must be fit to be written: valid Unicode, valid JSON, the same meaning.
fn rewritten(c: &Case, d: &exec::De) {
    if let (Some(j), Some(a)) = (&d.json, d.ok()) {
        if std::str::from_utf8(j.as_bytes()).is_err() {
            violate!("not-unicode", "the value read from {} serializes to text that is not UTF-8", brief(&c.text));
            return;
        }
        match refjson::parse(j).ast {
            Ok(x) if refjson::same(&x, &net::wire(a), refjson::EXACT) => {}
            Ok(x) => violate!("wrong-output", "{}: written as {} which means {} instead of {}", c.e.name, brief(j), show(&x), show(a)),
            Err(at) => violate!("invalid-output", "{}: written as {} (not JSON at byte {at})", c.e.name, brief(j)),
        }
    }
}

// ---------------------------------------------------------------- C11

fn is_map(s: &S) -> bool {
    zoo::has(s, &|s| matches!(s, S::Map(..) | S::VObj | S::Struct(_)))
}

pub fn c11(t: &mut Tape, tier: Tier) {
    if vast::due(t, 200) {
        return vast::run(t, &|e| e.hashing || e.name.starts_with("BM<") || matches!(e.name, "Value" | "Object" | "Probe"));
    }
    if vast::due(t, 33) {
        return vast::nested(t, &|e| e.hashing || e.name.starts_with("BM<") || matches!(e.name, "Value" | "Object" | "Probe"));
    }
    if t.chance(1, 6) {
        return net::cluster(t, tier, "C11");
    }
    let e = pick_type(t, &|e| is_map(&e.schema) || e.name.contains("Value"));
    // Sender and receiver have unrelated hashers.
    pick_hasher(t);
    let big = t.chance(1, 4) && !cfg!(miri);
    let g = Gen { width: if big { tier.pick(150, 400, 8) } else { 8 }, depth: if big { 1 } else { t.range(1, 3) }, ..SENT };
    let (value, text) = sent(t, e, &g);
    note!("sent {}: {}", e.name, brief(&text));
    // Sorted maps and objects are written in key order, struct members in declaration order.
    match refjson::parse(&text).ast {
        Ok(x) if refjson::same(&x, &net::wire(&value), refjson::EXACT) => {}
        _ => violate!("wrong-output", "{}: {} was written as {}", e.name, show(&value), brief(&text)),
    }
    for _ in 0..tier.pick(4, 12, 1) {
        if sim::violated() {
            return;
        }
        pick_hasher(t);
        let d = de_opt(e, &text, part::fresh(vec![]), true);
        arrived(e, &value, &d, "the text as sent", DECODE);
        settle("c11", &d, false);
        // The same members in another order, with stale earlier occurrences, with other escapes.
        let mut a = refjson::parse(&text).ast.expect("checked above");
        let dups = t.chance(1, 2);
        permute(t, &mut a, &e.schema, dups);
        let st = refjson::pick_style(t);
        let mut s = String::new();
        refjson::render(&a, &mut s, t, st);
        sim::stat("fault.members-reordered", 1);
        if dups {
            sim::stat("fault.members-repeated", 1);
        }
        pick_hasher(t);
        let c = Case::of(e, s);
        let d = de_opt(e, &c.text, part::fresh(vec![]), true);
        exec::check_model(&c, &d, DECODE);
        arrived(e, &value, &d, "members permuted and repeated", DECODE);
        settle("c11", &d, false);
        // Whatever else became of the members, the model knows what there is to read.
        let c = c.restructured(t);
        let d = de(e, &c.text, part::fresh(vec![]));
        exec::check_model(&c, &d, DECODE);
        settle("c11", &d, false);
    }
}

fn arrived(e: &Entry, value: &Ast, d: &exec::De, what: &str, tol: Tol) {
    match d.ok() {
        Some(a) if refjson::same(a, value, tol) => {}
        Some(a) => violate!("entries-changed", "{}, {what}: sent {} and received {}", e.name, show(value), show(a)),
        None => violate!("rejected-valid", "{}, {what}: sent {} and received {}", e.name, show(value), d.verdict()),
    }
    if let (Some(j), Some(a)) = (&d.json, d.ok()) {
        match refjson::parse(j).ast {
            Ok(x) if refjson::same(&x, &net::wire(a), refjson::EXACT) => {}
            _ => violate!("wrong-output", "{}: {} was written as {}", e.name, show(a), brief(j)),
        }
    }
}

/// Shuffle the members of every object whose order has no meaning for the type, and put stale
/// occurrences of members before the valid ones.
fn permute(t: &mut Tape, a: &mut Ast, s: &S, dups: bool) {
    let mut s = s.clone();
    while let S::Lazy(f) = s {
        s = f();
    }
    match (a, &s) {
        (a, S::Boxed(i)) => permute(t, a, i, dups),
        (Ast::Null, _) => {}
        (a, S::Opt(i)) => permute(t, a, i, dups),
        (Ast::Arr(v), S::Pair(x, y)) if v.len() == 2 => {
            permute(t, &mut v[0], x, dups);
            permute(t, &mut v[1], y, dups);
        }
        (Ast::Arr(v), S::Vec(i) | S::PVec(i) | S::Arr(_, i)) => v.iter_mut().for_each(|e| permute(t, e, i, dups)),
        (Ast::Arr(v), S::Value | S::VArr) => v.iter_mut().for_each(|e| permute(t, e, &S::Value, dups)),
        (Ast::Obj(v), S::PMap(i)) => v.iter_mut().for_each(|(_, e)| permute(t, e, i, dups)),
        (Ast::Obj(v), S::Map(_, i, _)) => {
            v.iter_mut().for_each(|(_, e)| permute(t, e, i, dups));
            mixup(t, v, dups, |t, _| zoo::gen(i, t, 2, &SENT));
        }
        (Ast::Obj(v), S::VObj | S::Value) => {
            v.iter_mut().for_each(|(_, e)| permute(t, e, &S::Value, dups));
            mixup(t, v, dups, |t, _| zoo::any(t, 1, &SENT));
        }
        (Ast::Obj(v), S::Struct(fs)) => {
            for (k, e) in v.iter_mut() {
                if let Some((_, f)) = fs.iter().find(|(n, _)| n == k) {
                    permute(t, e, f, dups);
                }
            }
            mixup(t, v, dups, |t, k| zoo::gen(&fs.iter().find(|(n, _)| *n == k).unwrap().1, t, 2, &SENT));
        }
        _ => {}
    }
}
fn mixup(t: &mut Tape, v: &mut Vec<(String, Ast)>, dups: bool, mut stale: impl FnMut(&mut Tape, &str) -> Ast) {
    zoo::shuffle(t, v);
    if dups && !v.is_empty() {
        for _ in 0..t.range(1, 3) {
            let at = t.below(v.len());
            let k = v[at].0.clone();
            let e = stale(t, &k);
            let before = t.below(at + 1);
            v.insert(before, (k, e));
        }
    }
}

// ---------------------------------------------------------------- C12

pub fn c12(t: &mut Tape, tier: Tier) {
    if vast::due(t, 80) {
        return vast::run(t, &|e| matches!(e.schema, S::Struct(_) | S::Enum(_)));
    }
    if t.chance(1, 5) {
        return net::cluster(t, tier, "C12");
    }
    let derived = |e: &Entry| zoo::has(&e.schema, &|s| matches!(s, S::Struct(_) | S::Enum(_)));
    let versions = ["RecV1", "RecV2", "RecV3", "RecV4", "Plain", "Opts", "Point", "Strict", "Outer", "Renamed"];
    let (sender, receiver) = if t.chance(1, 2) {
        (zoo::find(*t.pick(&versions)), zoo::find(*t.pick(&versions)))
    } else {
        let e = pick_type(t, &derived);
        (e, e)
    };
    pick_hasher(t);
    let g = Gen { unknown: *t.pick(&[0, 300, 700]), wild: *t.pick(&[0, 0, 60, 200]), width: 5, depth: t.range(1, 4), ..GEN };
    for _ in 0..tier.pick(12, 40, 2) {
        if sim::violated() {
            return;
        }
        let c = if t.chance(1, 3) {
            // As the sender's library writes it.
            let (_, s) = sent(t, sender, &Gen { ..SENT });
            Case::of(receiver, s)
        } else {
            let c = gen_case(t, sender, &g);
            Case::of(receiver, c.text)
        };
        note!("{} -> {}: {}", sender.name, receiver.name, brief(&c.text));
        sim::stat("fault.schema-skew", u64::from(sender.name != receiver.name));
        let d = de_opt(receiver, &c.text, part::fresh(vec![]), true);
        exec::check_model(&c, &d, DECODE);
        if let (Some(j), Some(a)) = (&d.json, d.ok()) {
            match refjson::parse(j).ast {
                Ok(x) if refjson::same(&x, &net::wire(a), refjson::EXACT) => {}
                _ => violate!("wrong-names", "{}: {} was written as {}", receiver.name, show(a), brief(j)),
            }
        }
        settle("c12", &d, false);
        for _ in 0..2 {
            let c = c.restructured(t);
            let d = de(receiver, &c.text, part::fresh(vec![]));
            exec::check_model(&c, &d, DECODE);
            settle("c12", &d, false);
        }
        // Take one member away, or break it.
        if let Ok(Ast::Obj(v)) = &c.ast {
            if !v.is_empty() {
                let mut v = v.clone();
                let at = t.below(v.len());
                if t.chance(1, 2) {
                    v.remove(at);
                    sim::stat("fault.member-absent", 1);
                } else {
                    v[at].1 = zoo::any(t, 2, &GEN);
                    sim::stat("fault.member-retyped", 1);
                }
                let mut s = String::new();
                let st = refjson::pick_style(t);
                refjson::render(&Ast::Obj(v), &mut s, t, st);
                let c = Case::of(receiver, s);
                let d = de(receiver, &c.text, part::fresh(vec![]));
                exec::check_model(&c, &d, DECODE);
                settle("c12", &d, false);
            }
        }
    }
}

// ---------------------------------------------------------------- C13

pub fn c13(t: &mut Tape, tier: Tier) {
    if vast::due(t, 80) {
        return vast::run(t, &|e| !e.probing);
    }
    if vast::due(t, 20) {
        return vast::nested(t, &|e| !e.probing);
    }
    if t.chance(1, 4) {
        return net::cluster(t, tier, "C13");
    }
    let e = pick_type(t, &|_| true);
    pick_hasher(t);
    let g = Gen { width: *t.pick(&[3, 8]), depth: t.range(1, 4), ..SENT };
    let (value, mut text) = sent(t, e, &g);
    note!("sent {}: {}", e.name, brief(&text));
    let hops = t.range(1, tier.pick(6, 20, 2));
    let mut relays = String::new();
    for hop in 1..=hops {
        if sim::violated() {
            return;
        }
        pick_hasher(t);
        // Untyped objects are kept sorted: types that remember the order of members do not go there.
        let ordered = zoo::has(&e.schema, &|s| matches!(s, S::Probe | S::PMap(_)));
        let via = match t.draw(3) {
            0 => e,
            _ if ordered => zoo::find("Probe"),
            _ => zoo::find(*t.pick(&["Value", "Value", "Box<Value>", "Probe"])),
        };
        relays.push_str(via.name);
        relays.push(' ');
        let d = de_opt(via, &text, part::fresh(vec![]), true);
        match (&d.out, &d.json) {
            (Ok(Ok(_)), Some(j)) => text = j.clone(),
            _ => {
                violate!("relay-refused", "hop {hop} ({relays}): {} could not read {}: {}", via.name, brief(&text), d.verdict());
                return;
            }
        }
        settle("c13", &d, false);
    }
    pick_hasher(t);
    let d = de(e, &text, part::fresh(vec![]));
    let k = hops as u64 + 1;
    match d.ok() {
        Some(a) if refjson::same(a, &value, Tol(4 * k, 0)) => {}
        Some(a) => violate!("changed-in-transit", "{} over {relays}: sent {} and received {}", e.name, show(&value), show(a)),
        None => violate!("changed-in-transit", "{} over {relays}: sent {} and the last node read {} as {}", e.name, show(&value), brief(&text), d.verdict()),
    }
    settle("c13", &d, false);
    sim::stat("hops", hops as u64);
}
