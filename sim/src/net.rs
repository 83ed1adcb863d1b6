//! Simulated deployments: a journal on a crashing disk, and a cluster of producers, relays and
//! consumers that exchange JSON over a faulty network while being upgraded. Everything - time,
//! network, disk, crashes - is decided by the tape; the JSON code is the real library.

use crate::damage::cut_at;
use crate::exec::{self, de, pick_type, settle};
use crate::part;
use crate::refjson::{self, brief, show, Ast, Num, Tol, DECODE};
use crate::sc_text::sent;
use crate::sim;
use crate::tape::Tape;
use crate::zoo::{self, Color, Entry, Gen, Zoo, BM, HM, SENT};
use crate::{note, violate, Tier};
use miniserde::json::{self, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// What a value means on the wire.
pub fn wire(a: &Ast) -> Ast {
    match a {
        Ast::Num(Num::F32(f)) => wire(&Ast::Num(Num::F(f64::from(*f)))),
        Ast::Num(Num::F(f)) if !f.is_finite() => Ast::Null,
        Ast::Arr(v) => Ast::Arr(v.iter().map(wire).collect()),
        Ast::Obj(v) => Ast::Obj(v.iter().map(|(k, e)| (k.clone(), wire(e))).collect()),
        Ast::Set(v) => Ast::Set(v.iter().map(|(k, e)| (k.clone(), wire(e))).collect()),
        a => a.clone(),
    }
}

// ---------------------------------------------------------------- journal

struct Rec {
    e: &'static Entry,
    value: Ast,
    line: Vec<u8>,
}

/// Records are appended one per line; the disk loses, tears and zeroes what was not yet synced.
pub fn journal(t: &mut Tape, tier: Tier) {
    let types: Vec<&'static Entry> = (0..3).map(|_| pick_type(t, &|_| true)).collect();
    exec::pick_hasher(t);
    let g = Gen { width: 4, depth: 2, ..SENT };
    let mut durable: Vec<u8> = Vec::new();
    let mut cache: Vec<u8> = Vec::new();
    let mut log: Vec<Rec> = Vec::new(); // in the order written since the last recovery, plus recovered ones
    let mut crashes = 0;
    for _ in 0..tier.pick(40, 120, 6) {
        if sim::violated() {
            return;
        }
        sim::step();
        match t.draw(8) {
            0..=4 => {
                let e = *t.pick(&types);
                let (value, text) = sent(t, e, &g);
                if !text.starts_with(['{', '[', '"']) {
                    continue;
                }
                if text.contains('\n') {
                    violate!("raw-control-character", "{}: to_string wrote a raw newline: {}", e.name, brief(&text));
                    return;
                }
                let mut line = text.into_bytes();
                line.push(b'\n');
                cache.extend_from_slice(&line);
                note!("append {}", brief(std::str::from_utf8(&line).unwrap_or("?")));
                log.push(Rec { e, value, line });
            }
            5 => {
                durable.append(&mut cache);
                note!("sync");
            }
            _ => {
                crashes += 1;
                // Some prefix of the unsynced bytes reached the disk; individual sectors may not have.
                let keep = t.below(cache.len() + 1);
                cache.truncate(keep);
                let sector = *t.pick(&[8usize, 16, 64]);
                let holes = t.chance(1, 3);
                if holes {
                    let mut i = 0;
                    while i < cache.len() {
                        let end = (i + sector).min(cache.len());
                        if t.chance(1, 4) {
                            cache[i..end].fill(0);
                            sim::stat("fault.lost-sector", 1);
                        }
                        i = end;
                    }
                }
                durable.append(&mut cache);
                sim::stat("fault.crash", 1);
                note!("crash, {} bytes on disk", durable.len());
                recover(&mut durable, &mut log);
            }
        }
    }
    cache.clear();
    recover(&mut durable, &mut log);
    sim::stat("journal.crashes", crashes);
    sim::conservation_check("journal");
}

fn recover(disk: &mut Vec<u8>, log: &mut Vec<Rec>) {
    let mut good = Vec::new();
    let mut kept = Vec::new();
    let mut at = 0; // offset where the next record of the log was written
    let mut old = std::mem::take(log);
    let mut recs = std::mem::take(&mut old).into_iter();
    let mut pieces: Vec<(usize, &[u8], bool)> = Vec::new();
    let mut i = 0;
    while i < disk.len() {
        let end = disk[i..].iter().position(|&b| b == b'\n').map(|k| i + k);
        match end {
            Some(e) => {
                pieces.push((i, &disk[i..e], true));
                i = e + 1;
            }
            None => {
                pieces.push((i, &disk[i..], false));
                i = disk.len();
            }
        }
    }
    let mut expect: BTreeMap<usize, Rec> = BTreeMap::new();
    for r in recs.by_ref() {
        let n = r.line.len();
        expect.insert(at, r);
        at += n;
    }
    for (off, piece, whole) in pieces {
        if sim::violated() {
            return;
        }
        let Ok(text) = std::str::from_utf8(piece) else {
            sim::stat("journal.tail-not-unicode", 1);
            continue;
        };
        match expect.remove(&off) {
            Some(r) if r.line[..r.line.len() - 1] == *piece => {
                let d = de(r.e, text, part::fresh(vec![]));
                match d.ok() {
                    Some(a) if refjson::same(a, &r.value, DECODE) => {
                        sim::stat("journal.recovered", 1);
                        if whole {
                            good.extend_from_slice(&r.line);
                            kept.push(r);
                        }
                    }
                    _ => violate!("record-lost", "the record {} of type {} was read back as {}", brief(text), r.e.name, d.verdict()),
                }
            }
            r => {
                // Torn, or with lost sectors: whoever reads it must be told.
                for e in [r.as_ref().map_or(zoo::find("Value"), |r| r.e), zoo::find("Value"), zoo::find("Empty")] {
                    let d = de(e, text, part::fresh(vec![]));
                    if !matches!(d.out, Ok(Err(()))) {
                        violate!("torn-accepted", "the torn record {} was read as {}: {}", brief(text), e.name, d.verdict());
                    }
                }
                sim::stat("journal.torn", 1);
            }
        }
    }
    *disk = good;
    *log = kept;
}

// ---------------------------------------------------------------- cluster

#[derive(Serialize, Deserialize)]
struct EnvA {
    src: u32,
    seq: u64,
    kind: Color,
    body: Value,
}
#[derive(Serialize, Deserialize)]
struct EnvB {
    body: Value,
    kind: Color,
    #[serde(rename = "src")]
    origin: u32,
    hops: Option<u32>,
    note: Option<BM<String, String>>,
    seq: u64,
}
#[derive(Serialize, Deserialize)]
struct EnvC {
    note: Option<HM<String, String>>,
    trail: Option<Vec<(u32, String)>>,
    #[serde(rename = "kind")]
    color: Box<Color>,
    hops: Option<u32>,
    #[serde(rename = "é\"\\ flag")]
    flag: Option<bool>,
    seq: u64,
    body: Box<Value>,
    src: u32,
    r#final: Option<Box<EnvA>>,
}
#[derive(Serialize, Deserialize)]
struct Ack {
    src: u32,
    seq: u64,
    by: usize,
}

/// One version's view of an envelope, without what that version does not know.
struct Env {
    src: u32,
    seq: u64,
    kind: Color,
    body: Value,
    hops: u32,
    note: Vec<(String, String)>,
}

fn lib<T>(f: impl FnOnce() -> T) -> Option<T> {
    sim::stat("calls", 1);
    sim::step();
    match sim::sut(f) {
        Ok(v) => Some(v),
        Err(s) => {
            violate!("panic", "a node's JSON call panicked: {s:?}");
            None
        }
    }
}

fn read(version: u8, text: &str) -> Option<Env> {
    lib(|| {
        Some(match version {
            0 => {
                let e: EnvA = json::from_str(text).ok()?;
                Env { src: e.src, seq: e.seq, kind: e.kind, body: e.body, hops: 0, note: vec![] }
            }
            1 => {
                let e: EnvB = json::from_str(text).ok()?;
                Env { src: e.origin, seq: e.seq, kind: e.kind, body: e.body, hops: e.hops.unwrap_or(0), note: e.note.map(|n| n.into_iter().collect()).unwrap_or_default() }
            }
            _ => {
                let e: EnvC = json::from_str(text).ok()?;
                let mut note: Vec<(String, String)> = e.note.map(|n| n.into_iter().collect()).unwrap_or_default();
                note.sort();
                Env { src: e.src, seq: e.seq, kind: *e.color, body: *e.body, hops: e.hops.unwrap_or(0), note }
            }
        })
    })
    .flatten()
}
fn write(version: u8, e: Env, node: usize) -> String {
    lib(move || {
        let Env { src, seq, kind, body, hops, note } = e;
        match version {
            0 => json::to_string(&EnvA { src, seq, kind, body }),
            1 => json::to_string(&EnvB { body, kind, origin: src, hops: Some(hops), note: if note.is_empty() { None } else { Some(note.into_iter().collect()) }, seq }),
            _ => json::to_string(&EnvC {
                note: Some(note.into_iter().collect()),
                trail: Some(vec![(node as u32, "via \"relay\"\n".to_owned())]),
                color: Box::new(kind),
                hops: Some(hops),
                flag: if node % 2 == 0 { None } else { Some(true) },
                seq,
                body: Box::new(body),
                src,
                r#final: None,
            }),
        }
    })
    .unwrap_or_default()
}

enum What {
    Deliver { to: usize, text: String, torn: bool },
    Retry { node: usize, epoch: u32 },
    Snapshot { node: usize, epoch: u32 },
    Produce { node: usize },
    Crash { node: usize },
    Restart { node: usize },
    Partition,
    Heal,
}

#[derive(Clone, Copy, PartialEq)]
enum Role {
    Producer,
    Relay,
    Consumer,
}

struct Node {
    role: Role,
    version: u8,
    hasher: (u64, u8),
    up: bool,
    epoch: u32,
    side: bool,
    /// Clock rate in percent: timers of a fast or slow node.
    clock: u64,
    // durable
    journal: Vec<(u64, String)>,
    acked_by: BTreeMap<u64, BTreeSet<usize>>,
    slots: [Vec<u8>; 2],
    slot: usize,
    // volatile
    store: BTreeMap<String, Ast>,
    unacked: Vec<(u32, u64)>,
    dirty: bool,
}

struct Sim<'t> {
    t: &'t mut Tape,
    now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), What>,
    nodes: Vec<Node>,
    faults: bool,
    split: bool,
    focus: &'static str,
}

impl<'t> Sim<'t> {
    fn at(&mut self, d: u64, w: What) {
        self.seq += 1;
        self.q.insert((self.now + d, self.seq), w);
    }
    fn pick_role(&mut self, r: Role) -> usize {
        let c: Vec<usize> = (0..self.nodes.len()).filter(|&i| self.nodes[i].role == r).collect();
        *self.t.pick(&c)
    }
    fn send(&mut self, from: usize, to: usize, text: String) {
        if self.faults {
            if self.split && self.nodes[from].side != self.nodes[to].side {
                sim::stat("fault.net.partitioned", 1);
                return;
            }
            match self.t.draw(16) {
                15 => {
                    sim::stat("fault.net.lost", 1);
                    return;
                }
                14 => {
                    sim::stat("fault.net.duplicated", 1);
                    let d = 1 + self.t.draw(40);
                    self.at(d, What::Deliver { to, text: text.clone(), torn: false });
                }
                13 => {
                    sim::stat("fault.net.torn", 1);
                    let n = self.t.below(text.len().max(1));
                    let cut = cut_at(&text, n).to_owned();
                    self.at(1, What::Deliver { to, text: cut, torn: true });
                    return;
                }
                12 => {
                    sim::stat("fault.net.delayed", 1);
                    let d = 20 + self.t.draw(200);
                    self.at(d, What::Deliver { to, text, torn: false });
                    return;
                }
                _ => {}
            }
        }
        let d = 1 + self.t.draw(10);
        self.at(d, What::Deliver { to, text, torn: false });
    }
}

struct Sent {
    e: &'static Entry,
    value: Ast,
}

pub fn cluster(t: &mut Tape, tier: Tier, focus: &'static str) {
    let (np, nr, nc) = (t.range(1, 2), t.range(1, 3), t.range(1, 3));
    let types: Vec<&'static Entry> = (0..np).map(|_| pick_type(t, &|e| !e.probing)).collect();
    let g = Gen { width: 4, depth: 2, ..SENT };
    let quota = t.range(1, tier.pick(8, 20, 2)) as u64;
    let mut s = Sim { t, now: 0, seq: 0, q: BTreeMap::new(), nodes: vec![], faults: true, split: false, focus };
    for i in 0..np + nr + nc {
        let role = if i < np {
            Role::Producer
        } else if i < np + nr {
            Role::Relay
        } else {
            Role::Consumer
        };
        // The third version's envelope has a hash map.
        let version = s.t.draw(if zoo::bare() { 2 } else { 3 }) as u8;
        let hasher = (s.t.draw(1000), s.t.weighted(&[3, 1, 1, 1]) as u8);
        let clock = *s.t.pick(&[100, 60, 180]);
        s.nodes.push(Node {
            role,
            version,
            hasher,
            up: true,
            epoch: 0,
            side: i % 2 == 0,
            clock,
            journal: vec![],
            acked_by: BTreeMap::new(),
            slots: [vec![], vec![]],
            slot: 0,
            store: BTreeMap::new(),
            unacked: vec![],
            dirty: false,
        });
        if clock != 100 {
            sim::stat("fault.clock-skew", 1);
        }
        match role {
            Role::Producer => {
                s.at(1, What::Produce { node: i });
                s.at(15, What::Retry { node: i, epoch: 0 });
            }
            Role::Consumer => s.at(25, What::Snapshot { node: i, epoch: 0 }),
            Role::Relay => {}
        }
        if s.t.chance(1, 2) {
            let d = 5 + s.t.draw(300);
            s.at(d, What::Crash { node: i });
        }
    }
    if s.t.chance(1, 2) {
        let d = 5 + s.t.draw(100);
        s.at(d, What::Partition);
    }
    let mut sent_log: BTreeMap<(u32, u64), Sent> = BTreeMap::new();
    let stop_faults = 300 + s.t.draw(200);
    let deadline = stop_faults + 3000;
    let mut events = 0u64;
    loop {
        if sim::violated() {
            return;
        }
        let Some((&k, _)) = s.q.iter().next() else { break };
        let w = s.q.remove(&k).unwrap();
        s.now = k.0;
        events += 1;
        sim::step();
        if s.faults && s.now >= stop_faults {
            s.faults = false;
            s.split = false;
            for i in 0..s.nodes.len() {
                if !s.nodes[i].up {
                    restart(&mut s, i, &types);
                }
            }
        }
        if s.now > deadline || events > 200_000 {
            violate!("no-progress", "{} ticks after faults stopped some record had not reached every consumer", s.now - stop_faults);
            return;
        }
        match w {
            What::Produce { node } => {
                let n = s.nodes[node].journal.len() as u64;
                if n < quota {
                    let up = s.nodes[node].up;
                    if up {
                        zoo::set_hasher(s.nodes[node].hasher.0, s.nodes[node].hasher.1);
                        let e = types[node];
                        let (value, text) = sent(s.t, e, &g);
                        // The body travels as an untyped value inside the envelope.
                        let Some(Some(body)) = lib(|| json::from_str::<Value>(&text).ok()) else {
                            violate!("relay-refused", "{} was not read back as a Value", brief(&text));
                            return;
                        };
                        let kind = *s.t.pick(&[Color::Red, Color::Green, Color::Blue, Color::Gruen]);
                        let note = if s.t.chance(1, 2) { vec![(zoo::string(s.t), zoo::string(s.t))] } else { vec![] };
                        let line = write(s.nodes[node].version, Env { src: node as u32, seq: n, kind, body, hops: 0, note }, node);
                        note!("[{}] node {node} (v{}) produces {}", s.now, s.nodes[node].version, brief(&line));
                        sent_log.insert((node as u32, n), Sent { e, value });
                        s.nodes[node].journal.push((n, line.clone()));
                        let r = s.pick_role(Role::Relay);
                        s.send(node, r, line);
                    }
                    let d = 5 + s.t.draw(40);
                    s.at(d, What::Produce { node });
                }
            }
            What::Retry { node, epoch } => {
                if s.nodes[node].up && s.nodes[node].epoch == epoch {
                    let consumers = s.nodes.iter().filter(|n| n.role == Role::Consumer).count();
                    let todo: Vec<String> = s.nodes[node]
                        .journal
                        .iter()
                        .filter(|(q, _)| s.nodes[node].acked_by.get(q).map_or(0, BTreeSet::len) < consumers)
                        .map(|(_, l)| l.clone())
                        .collect();
                    let more = !todo.is_empty() || (s.nodes[node].journal.len() as u64) < quota;
                    for l in todo {
                        let r = s.pick_role(Role::Relay);
                        s.send(node, r, l);
                    }
                    if more {
                        let d = 40 * 100 / s.nodes[node].clock;
                        s.at(d, What::Retry { node, epoch });
                    }
                }
            }
            What::Deliver { to, text, torn } => deliver(&mut s, to, &text, torn, &sent_log),
            What::Snapshot { node, epoch } => {
                if s.nodes[node].up && s.nodes[node].epoch == epoch {
                    snapshot(&mut s, node, false);
                    let all = sent_log.len();
                    let done = s.nodes[node].store.len() == all && s.nodes.iter().all(|n| n.role != Role::Producer || n.journal.len() as u64 == quota) && !s.faults && s.nodes[node].unacked.is_empty() && all_acked(&s, quota);
                    if !done {
                        let d = 30 * 100 / s.nodes[node].clock;
                        s.at(d, What::Snapshot { node, epoch });
                    }
                }
            }
            What::Crash { node } => {
                if s.faults && s.nodes[node].up {
                    note!("[{}] node {node} crashes", s.now);
                    sim::stat("fault.crash", 1);
                    if s.nodes[node].role == Role::Consumer && s.t.chance(1, 2) {
                        snapshot(&mut s, node, true); // it crashes in the middle of writing a snapshot
                    }
                    let n = &mut s.nodes[node];
                    n.up = false;
                    n.epoch += 1;
                    n.store.clear();
                    n.unacked.clear();
                    let d = 5 + s.t.draw(100);
                    s.at(d, What::Restart { node });
                }
            }
            What::Restart { node } => {
                if !s.nodes[node].up {
                    restart(&mut s, node, &types);
                    if s.t.chance(1, 2) {
                        let d = 20 + s.t.draw(200);
                        s.at(d, What::Crash { node });
                    }
                }
            }
            What::Partition => {
                if s.faults {
                    s.split = true;
                    sim::stat("fault.net.partition", 1);
                    let d = 30 + s.t.draw(120);
                    s.at(d, What::Heal);
                }
            }
            What::Heal => {
                s.split = false;
                if s.faults {
                    let d = 20 + s.t.draw(100);
                    s.at(d, What::Partition);
                }
            }
        }
    }
    sim::stat("sim.ticks", s.now);
    sim::stat("sim.events", events);
    // Everything was delivered to every consumer, exactly once, as sent.
    for (i, n) in s.nodes.iter().enumerate() {
        if n.role == Role::Consumer {
            for (src, seq) in sent_log.keys() {
                if !n.store.contains_key(&format!("{src}/{seq}")) {
                    violate!("not-delivered", "consumer {i} never got record {src}/{seq}");
                }
            }
            if n.store.len() != sent_log.len() {
                violate!("invented", "consumer {i} holds {} records, {} were sent", n.store.len(), sent_log.len());
            }
        }
    }
    let nodes = std::mem::take(&mut s.nodes);
    drop(s);
    drop(nodes);
    drop(sent_log);
    sim::conservation_check("cluster");
}

fn all_acked(s: &Sim, quota: u64) -> bool {
    let consumers = s.nodes.iter().filter(|n| n.role == Role::Consumer).count();
    s.nodes.iter().all(|n| n.role != Role::Producer || (0..quota).all(|q| n.acked_by.get(&q).map_or(0, BTreeSet::len) == consumers))
}

fn deliver(s: &mut Sim, to: usize, text: &str, torn: bool, log: &BTreeMap<(u32, u64), Sent>) {
    if !s.nodes[to].up {
        return;
    }
    let (h, v) = (s.nodes[to].hasher, s.nodes[to].version);
    zoo::set_hasher(h.0, h.1);
    sim::stat("net.messages", 1);
    sim::observe(to as u64);
    sim::observe_str(text);
    match s.nodes[to].role {
        Role::Producer => {
            let a = lib(|| json::from_str::<Ack>(text).ok()).flatten();
            match (a, torn) {
                (Some(a), false) => {
                    s.nodes[to].acked_by.entry(a.seq).or_default().insert(a.by);
                }
                (None, true) => {}
                (Some(_), true) => violate!("torn-accepted", "a torn acknowledgement was accepted: {}", brief(text)),
                (None, false) => violate!("refused", "an acknowledgement was refused: {}", brief(text)),
            }
        }
        Role::Relay => match (read(v, text), torn) {
            (Some(_), true) => violate!("torn-accepted", "a torn message was accepted by a v{v} relay: {}", brief(text)),
            (None, true) => {}
            (None, false) => violate!("refused", "a v{v} relay refused {}", brief(text)),
            (Some(mut e), false) => {
                check_body(&e, log, "relay");
                e.hops += 1;
                let hops = e.hops;
                let out = write(v, e, to);
                if hops < 4 && s.t.chance(1, 3) {
                    let r = s.pick_role(Role::Relay);
                    s.send(to, r, out);
                } else {
                    for c in 0..s.nodes.len() {
                        if s.nodes[c].role == Role::Consumer {
                            s.send(to, c, out.clone());
                        }
                    }
                }
            }
        },
        Role::Consumer => match (read(v, text), torn) {
            (Some(_), true) => violate!("torn-accepted", "a torn message was accepted by a v{v} consumer: {}", brief(text)),
            (None, true) => {}
            (None, false) => violate!("refused", "a v{v} consumer refused {}", brief(text)),
            (Some(e), false) => {
                check_body(&e, log, "consumer");
                let key = format!("{}/{}", e.src, e.seq);
                if !s.nodes[to].store.contains_key(&key) {
                    let Some(r) = log.get(&(e.src, e.seq)) else { return };
                    // Back to the typed value, by way of text.
                    let Some(j) = lib(|| json::to_string(&e.body)) else { return };
                    let d = de(r.e, &j, part::fresh(vec![]));
                    match d.ok() {
                        Some(a) if refjson::same(a, &r.value, Tol(4 * 16, 0)) => {}
                        _ => violate!("changed-in-transit", "{}: sent {} and received {}", r.e.name, show(&r.value), d.verdict()),
                    }
                    let a = e.body.ast();
                    s.nodes[to].store.insert(key, a);
                    s.nodes[to].dirty = true;
                }
                s.nodes[to].unacked.push((e.src, e.seq));
                note!("[{}] consumer {to} has {}/{}", s.now, e.src, e.seq);
            }
        },
    }
}

fn check_body(e: &Env, log: &BTreeMap<(u32, u64), Sent>, who: &str) {
    match log.get(&(e.src, e.seq)) {
        None => violate!("invented", "a {who} read a record {}/{} nobody sent", e.src, e.seq),
        Some(r) => {
            let got = e.body.ast();
            let want = zoo::decode(&zoo::S::Value, &wire(&r.value), &mut false).unwrap_or(Ast::Null);
            if !refjson::same(&got, &sorted(&want), Tol(4 * 16, 0)) {
                violate!("changed-in-transit", "a {who} read {} instead of {}", show(&got), show(&want));
            }
        }
    }
}
fn sorted(a: &Ast) -> Ast {
    match a {
        Ast::Arr(v) => Ast::Arr(v.iter().map(sorted).collect()),
        Ast::Obj(v) | Ast::Set(v) => {
            let m: BTreeMap<String, Ast> = v.iter().map(|(k, e)| (k.clone(), sorted(e))).collect();
            Ast::Obj(m.into_iter().collect())
        }
        a => a.clone(),
    }
}

/// Consumers write their whole store as one JSON map, alternating between two slots.
fn snapshot(s: &mut Sim, node: usize, tear: bool) {
    let (h, kind) = (s.nodes[node].hasher, node % 3);
    zoo::set_hasher(h.0, h.1);
    let store = &s.nodes[node].store;
    let a = Ast::Obj(store.iter().map(|(k, v)| (k.clone(), v.clone())).collect());
    let Some(text) = lib(|| match kind {
        0 if !zoo::bare() => json::to_string(&HM::<String, Value>::build(&a)),
        0 | 1 => json::to_string(&BM::<String, Value>::build(&a)),
        _ => json::to_string(&Object::build(&a)),
    }) else {
        return;
    };
    let n = &mut s.nodes[node];
    let other = 1 - n.slot;
    if tear {
        let k = s.t.below(text.len());
        n.slots[other] = text.as_bytes()[..k].to_vec();
        sim::stat("fault.torn-write", 1);
        return;
    }
    n.slots[other] = text.into_bytes();
    n.slot = other;
    n.dirty = false;
    let acks = std::mem::take(&mut n.unacked);
    for (src, seq) in acks {
        let Some(text) = lib(|| json::to_string(&Ack { src, seq, by: node })) else { return };
        s.send(node, src as usize, text);
    }
}

fn restart(s: &mut Sim, node: usize, _types: &[&'static Entry]) {
    sim::stat("fault.restart", 1);
    let up = s.t.draw(3) as u8;
    let seed = (s.t.draw(1000), s.t.weighted(&[3, 1, 1, 1]) as u8);
    let n = &mut s.nodes[node];
    n.up = true;
    n.version = n.version.max(if zoo::bare() { up.min(1) } else { up });
    n.hasher = seed;
    zoo::set_hasher(seed.0, seed.1);
    let epoch = n.epoch;
    note!("[{}] node {node} restarts as v{}", s.now, n.version);
    if n.role == Role::Consumer {
        // The newer slot may be torn; the older one is whole.
        let kind = (node + epoch as usize) % 3;
        let newer = n.slots[1 - n.slot].clone();
        let older = n.slots[n.slot].clone();
        let load = |b: &[u8]| -> Option<Ast> {
            let text = std::str::from_utf8(b).ok()?;
            lib(|| match kind {
                0 if !zoo::bare() => json::from_str::<HM<String, Value>>(text).ok().map(|m| m.ast()),
                0 | 1 => json::from_str::<BM<String, Value>>(text).ok().map(|m| m.ast()),
                _ => json::from_str::<Object>(text).ok().map(|m| m.ast()),
            })
            .flatten()
        };
        let whole = load(&older);
        if whole.is_none() && !older.is_empty() {
            violate!("record-lost", "consumer {node} could not read back its snapshot {}", brief(&String::from_utf8_lossy(&older)));
        }
        // Whatever a torn slot is read as, it must be an error or a complete earlier snapshot.
        if let Some(Ast::Obj(v) | Ast::Set(v)) = load(&newer) {
            sim::stat("cluster.older-slot-also-valid", 1);
            if newer.last() != Some(&b'}') || newer.first() != Some(&b'{') {
                violate!("torn-accepted", "a torn snapshot was accepted with {} entries: {}", v.len(), brief(&String::from_utf8_lossy(&newer)));
            }
        }
        if let Some(Ast::Obj(v) | Ast::Set(v)) = whole {
            s.nodes[node].store = v.into_iter().collect();
        }
        s.at(10, What::Snapshot { node, epoch });
    }
    if s.nodes[node].role == Role::Producer {
        s.at(10, What::Retry { node, epoch });
    }
    let _ = settle;
    let _ = s.focus;
}
