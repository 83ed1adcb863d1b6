//! Documents of a size seldom met: strings, keys, numbers, sequences, objects, nestings and blanks
//! a hundred to a hundred thousand times as long as usual, one of them at a time.

use crate::exec::{self, de, one, settle, Case};
use crate::part::{self, FK};
use crate::refjson::{self, brief, Ast, Num, DECODE, EXACT};
use crate::sim::{self, Stop};
use crate::tape::Tape;
use crate::zoo::{self, Entry, Gen, SENT};
use crate::{sc_fault, violate};

/// A length: often next to a power of two.
pub fn length(t: &mut Tape) -> usize {
    match t.draw(4) {
        0 | 1 => (1usize << t.range(7, 16)) + t.below(5) - 2,
        2 => t.range(300, 5000),
        _ => t.range(5000, 70_000),
    }
}

fn nodes(a: &Ast) -> usize {
    1 + match a {
        Ast::Arr(v) => v.iter().map(nodes).sum::<usize>(),
        Ast::Obj(v) | Ast::Set(v) => v.iter().map(|(_, e)| nodes(e)).sum::<usize>(),
        _ => 0,
    }
}
fn nth<'a>(a: &'a mut Ast, n: &mut usize) -> Option<&'a mut Ast> {
    if *n == 0 {
        return Some(a);
    }
    *n -= 1;
    match a {
        Ast::Arr(v) => v.iter_mut().find_map(|e| nth(e, n)),
        Ast::Obj(v) | Ast::Set(v) => v.iter_mut().find_map(|(_, e)| nth(e, n)),
        _ => None,
    }
}

pub fn long_string(t: &mut Tape, n: usize) -> String {
    let m = 1 + t.below(9);
    let plain = t.chance(1, 2);
    let word: Vec<char> = (0..m).map(|_| if plain { (b'a' + t.below(26) as u8) as char } else { zoo::any_char(t) }).collect();
    let mut v: Vec<char> = Vec::new();
    let mut bytes = 0;
    while bytes < n {
        let c = word[v.len() % m];
        bytes += c.len_utf8();
        v.push(c);
    }
    for _ in 0..t.below(6) {
        let at = if t.chance(1, 2) { t.below(v.len()) } else { ((1usize << t.range(5, 16)) + t.below(5)).saturating_sub(2) };
        if at < v.len() {
            v[at] = zoo::any_char(t);
        }
    }
    v.into_iter().collect()
}

/// The same kind of value, told apart from its neighbours.
fn varied(a: &Ast, i: usize, deep: bool) -> Ast {
    match a {
        Ast::Num(Num::U(_) | Num::I(_)) => Ast::Num(Num::U((i % 100) as u64)),
        Ast::Str(_) => Ast::Str(i.to_string()),
        Ast::Bool(_) => Ast::Bool(i % 3 == 0),
        Ast::Arr(v) if deep => Ast::Arr(v.iter().map(|e| varied(e, i, false)).collect()),
        Ast::Obj(v) if deep => Ast::Obj(v.iter().map(|(k, e)| (k.clone(), varied(e, i, false))).collect()),
        a => a.clone(),
    }
}

/// Makes one part of the document long.
pub fn amplify(t: &mut Tape, a: &Ast) -> Ast {
    let mut a = a.clone();
    let total = nodes(&a);
    let mut k = t.below(total);
    if t.chance(1, 3) {
        k = 0;
    }
    let at = nth(&mut a, &mut k).expect("node");
    let n = length(t);
    let vary = t.chance(2, 3);
    if t.chance(1, 6) {
        // Wrapped in many layers.
        let style = t.draw(3);
        let n = n.min(20_000);
        let mut e = std::mem::replace(at, Ast::Null);
        for i in 0..n {
            let obj = style == 1 || (style == 2 && i % 2 == 0);
            e = if obj { Ast::Obj(vec![("next".to_owned(), e)]) } else { Ast::Arr(vec![e]) };
        }
        *at = e;
        return a;
    }
    match at {
        Ast::Null | Ast::Bool(_) => {
            *at = Ast::Arr(vec![at.clone(); n]);
        }
        Ast::Num(_) | Ast::Raw(_) => {
            let digits = match t.draw(4) {
                0 => "0".repeat(n),
                1 => "9".repeat(n),
                2 => "0".repeat(n - 1) + "7",
                _ => "1234567890".repeat(n / 10 + 1),
            };
            *at = Ast::Raw(match t.draw(4) {
                3 => format!("0.{}{}e{}", "0".repeat(n), t.range(1, 99_999), n + t.below(20)),
                0 => format!("{}.{digits}", t.below(3)),
                1 => format!("{}1{digits}e-{}", if t.chance(1, 3) { "-" } else { "" }, digits.len() - t.below(8)),
                _ => format!("{}e{}{}", 1 + t.below(9), if t.chance(1, 2) { "-" } else { "+" }, "0".repeat(n) + &t.below(10).to_string()),
            });
        }
        Ast::Str(s) => *s = long_string(t, n),
        Ast::Arr(v) => {
            if v.is_empty() {
                v.push(zoo::scalar(t, &SENT.slim()));
            }
            v.truncate(7);
            let size: usize = v.iter().map(nodes).max().unwrap_or(1);
            let n = n.min(100_000 / size).max(v.len());
            let unit = std::mem::take(v);
            *v = (0..n).map(|i| if vary { varied(&unit[i % unit.len()], i, true) } else { unit[i % unit.len()].clone() }).collect();
        }
        Ast::Obj(v) | Ast::Set(v) => {
            if v.is_empty() || t.chance(1, 8) {
                let e = zoo::scalar(t, &SENT.slim());
                v.push((zoo::any_key(t), e));
            }
            if t.chance(1, 5) {
                // One long name.
                let i = t.below(v.len());
                let k = long_string(t, n);
                if t.chance(1, 2) {
                    v[i].0 = k;
                } else {
                    let e = v[i].1.clone();
                    v.insert(i, (k, e));
                }
                return a;
            }
            let size: usize = v.iter().map(|(_, e)| nodes(e)).max().unwrap_or(1);
            let n = n.min(60_000 / size).max(1);
            let pre = *t.pick(&["", "", "k", "member-", "é", " "]);
            // In order, in reverse, or jumping about; now and then each name twice.
            let (order, names) = (t.draw(4), if t.chance(1, 4) { n / 2 + 1 } else { n });
            // The names of one length, so that they sort as their numbers do, or not.
            let pad = if t.chance(1, 2) { n.to_string().len() } else { 0 };
            let unit = v.clone();
            let more = (0..n).map(|i| {
                let e = &unit[i % unit.len()].1;
                let k = match order {
                    0 => i % names,
                    1 => n - 1 - i,
                    2 => (n - 1 - i) % names,
                    _ => (i * 7919) % names,
                };
                (format!("{pre}{k:0pad$}"), if vary { varied(e, i, true) } else { e.clone() })
            });
            let at = t.below(unit.len() + 1);
            let more: Vec<_> = more.collect();
            v.splice(at..at, more);
        }
    }
    a
}

fn small(t: &mut Tape, e: &'static Entry, plain: bool) -> Ast {
    let g = Gen { width: *t.pick(&[2, 4]), plain, ..SENT }.slim();
    let d = t.range(1, 3);
    zoo::gen(&e.schema, t, d, &g)
}

/// A document with one long part, if possible one that fits the type.
pub fn case(t: &mut Tape, e: &'static Entry) -> Case {
    let mut last = None;
    for _ in 0..6 {
        let a = small(t, e, true);
        let a = amplify(t, &a);
        // (Other styles draw for every character: a long tape.)
        let st = if t.chance(3, 4) { refjson::Style { ws: 0, esc: 0 } } else { refjson::pick_style(t) };
        let mut s = String::new();
        refjson::render(&a, &mut s, t, st);
        if t.chance(1, 8) {
            let ws = t.pick(&[" ", "\n", "\t", "\r\n", " \n\t"]).repeat(length(t));
            match t.draw(3) {
                0 => s.insert_str(0, &ws),
                1 => s.push_str(&ws),
                _ if s.starts_with(['[', '{']) => s.insert_str(1, &ws),
                _ => s.insert_str(0, &ws),
            }
        }
        let c = Case::of(e, s);
        let fits = c.want.is_ok();
        last = Some(c);
        if fits {
            break;
        }
    }
    last.unwrap().noted()
}

pub fn depth(a: &Ast) -> usize {
    match a {
        Ast::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        Ast::Obj(v) | Ast::Set(v) => 1 + v.iter().map(|(_, e)| depth(e)).max().unwrap_or(0),
        _ => 0,
    }
}

/// One type, one long document: read, written, read again; with a fault; cut; damaged.
pub fn run(t: &mut Tape, pick: &dyn Fn(&Entry) -> bool) {
    let e = exec::pick_type(t, pick);
    zoo::set_hasher(t.draw(1 << 16), 0);
    sim::stat("coverage.vast_documents", 1);
    let c = case(t, e);
    examine(t, e, c);
}

/// The same of a document of many mixed levels.
pub fn nested(t: &mut Tape, pick: &dyn Fn(&Entry) -> bool) {
    const TYPES: &[&str] = &["Value", "Array", "Object", "Vec<Value>", "Box<Value>", "Option<Value>", "Probe", "Empty"];
    let fit: Vec<&'static Entry> = TYPES.iter().map(|n| zoo::find(n)).filter(|e| pick(e)).collect();
    let e = *t.pick(&fit);
    let mut s = crate::damage::nested(t);
    if e.name == "Empty" {
        s = format!("{{\"ignored\":{s}}}");
    }
    let c = Case::of(e, s).noted();
    examine(t, e, c);
}

fn examine(t: &mut Tape, e: &'static Entry, c: Case) {
    sim::stat_max("max.document_bytes", c.text.len() as u64);
    let d = de(e, &c.text, part::fresh(vec![]));
    exec::check_model(&c, &d, DECODE);
    let (want, complete) = c.trace();
    if complete && c.want.is_ok() && !c.grey && e.probing && d.ctx.trace != want {
        let i = d.ctx.trace.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(d.ctx.trace.len().min(want.len()));
        violate!("wrong-calls", "from_str::<{}>({}): call {i} of {} was {:?}, expected {:?}", e.name, brief(&c.text), want.len(), d.ctx.trace.get(i), want.get(i));
    }
    settle("a long document", &d, false);
    let n = d.ctx.n_cb;
    if n > 0 {
        for kind in [FK::Err, FK::Panic] {
            let k = if t.chance(1, 2) { t.below(n) } else { n - 1 - t.below(n.min(4)) };
            let f = de(e, &c.text, one(k, kind));
            sc_fault::verdict_after(&c, &f, k, kind);
            settle("a long document, with a fault", &f, false);
        }
    }
    if let (Ok(canon), false) = (&c.want, c.grey) {
        let (text, again) = {
            let _e = sim::enter();
            let v = (e.build)(canon);
            let s = sim::sut(|| v.to_json());
            let text = match &s {
                Ok(s) => {
                    let _p = sim::pause();
                    Ok(s.as_str().to_owned())
                }
                Err(x) => Err(format!("{x:?}")),
            };
            let again = {
                let _p = sim::pause();
                v.value()
            };
            drop((v, s));
            (text, again)
        };
        match text {
            Err(x) => violate!("panic", "to_string of a long {} unwound: {x}", e.name),
            Ok(text) => {
                let want = crate::net::wire(&again);
                match refjson::parse(&text).ast {
                    Ok(x) if refjson::same(&x, &want, EXACT) => {}
                    Ok(_) => violate!("wrong-output", "{}: to_string wrote {} ({} bytes), which means something else than {}", e.name, brief(&text), text.len(), refjson::show(&want)),
                    Err(at) => violate!("invalid-output", "{}: to_string wrote text that is not JSON (at byte {at}): {}", e.name, brief(&text)),
                }
                let b = Case::of(e, text);
                let d = de(e, &b.text, part::fresh(vec![]));
                exec::check_model(&b, &d, DECODE);
                settle("a long document, written by the library", &d, false);
            }
        }
    }
    if sim::violated() {
        return;
    }
    for i in 0..3 {
        let s = if i == 2 { crate::damage::bracket(t, &c.text) } else if i == 0 { crate::damage::cut_at(&c.text, t.below(c.text.len() + 1)).to_owned() } else { crate::damage::damage(t, &c.text, &["{}", "[1,2]"]) };
        let k = Case::of(e, s);
        let d = de(e, &k.text, part::fresh(vec![]));
        exec::check_model(&k, &d, DECODE);
        if matches!(d.out, Err(Stop::Oom)) {
            violate!("panic", "from_str::<{}>({}) ran out of memory", e.name, brief(&k.text));
        }
        settle("a long document, damaged", &d, false);
    }
}

/// Whether this run is one of the few with a long document.
pub fn due(t: &mut Tape, of: u64) -> bool {
    !cfg!(miri) && t.chance(1, of)
}
