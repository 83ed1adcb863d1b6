//! C09: calls in progress at the same time - interleaved threads, nested in callbacks and
//! destructors, values crossing threads - each compared with the same call made alone.
//! C10: calls after histories of failed, panicked, torn and starved calls compared with the same
//! call made first.

use crate::exec::{self, de_opt, gen_case, one, pick_type, Case};
use crate::part::{self, Ctx, Ev, Fault, FK};
use crate::refjson::{self, brief, Ast};
use crate::sim::{self, Stop};
use crate::tape::Tape;
use crate::zoo::{self, Entry, Gen, Obj};
use crate::{alloc, clock, note, sc_fault, sched, snode, violate, Tier};
use miniserde::json::{self, Value};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, Mutex};

#[derive(Clone)]
enum What {
    De { e: &'static Entry, text: String },
    Ser { seed: u64, depth: usize, budget: usize, hash: bool },
    Built { e: &'static Entry, canon: Ast },
}

#[derive(Clone)]
struct Job {
    what: What,
    hasher: (u64, u8),
    faults: Vec<Fault>,
    op_panic: Option<usize>,
    drop_panic: Option<usize>,
    /// Where it calls back into the library when it is not alone.
    nests: Vec<usize>,
    nest_drop: Option<usize>,
}

/// Everything the caller and the participants of one call saw.
#[derive(PartialEq, Clone)]
struct Digest {
    verdict: String,
    json: Option<String>,
    trace: Vec<Ev>,
    dropped: bool,
}

impl Job {
    fn name(&self) -> String {
        let f = format!(
            "{}{}{}",
            self.faults.iter().map(|f| format!(", callback {} {:?}", f.at, f.kind)).collect::<String>(),
            self.op_panic.map(|k| format!(", key operation {k} panics")).unwrap_or_default(),
            self.drop_panic.map(|k| format!(", destructor {k} panics")).unwrap_or_default()
        );
        match &self.what {
            What::De { e, text } => format!("from_str::<{}>({}){f}", e.name, brief(text)),
            What::Ser { seed, .. } => format!("to_string of plan {seed}{f}"),
            What::Built { e, canon } => format!("to_string of {} {}", e.name, brief(&refjson::show(canon))),
        }
    }
    fn clean(what: What, hasher: (u64, u8)) -> Job {
        Job { what, hasher, faults: Vec::new(), op_panic: None, drop_panic: None, nests: Vec::new(), nest_drop: None }
    }
    fn ctx(&self, nested: bool) -> Ctx {
        let mut faults = self.faults.clone();
        if nested {
            faults.extend(self.nests.iter().filter(|&&at| self.faults.iter().all(|f| f.at != at)).map(|&at| Fault { at, kind: FK::Nest }));
        }
        let mut c = part::fresh(faults);
        c.op_panic = self.op_panic;
        c.drop_panic = self.drop_panic;
        c.nest = Some(nest_cb);
        if nested {
            c.nest_drop = self.nest_drop;
        }
        c
    }
    fn run(&self, nested: bool) -> Digest {
        let old = zoo::get_hasher();
        zoo::set_hasher(self.hasher.0, self.hasher.1);
        let d = match &self.what {
            What::De { e, text } => {
                let d = de_opt(e, text, self.ctx(nested), true);
                if !d.ctx.live.is_empty() {
                    violate!("leak", "{}: {} builder(s) were never destroyed", self.name(), d.ctx.live.len());
                }
                Digest { verdict: d.verdict(), json: d.json, trace: d.ctx.trace, dropped: d.dropped.is_ok() }
            }
            What::Ser { seed, depth, budget, hash } => {
                let saved = part::swap(part::fresh(vec![]));
                let n = snode::plan(&mut Tape::from_seed(*seed), *depth, *budget, *hash, 0);
                part::swap(saved);
                let s = sc_fault::ser(&n, self.ctx(nested));
                let saved = part::swap(part::fresh(vec![]));
                let dropped = sim::sut(|| drop(n)).is_ok();
                part::swap(saved);
                if !s.ctx.live.is_empty() {
                    violate!("leak", "{}: {} stream(s) were never destroyed", self.name(), s.ctx.live.len());
                }
                let (verdict, json) = match s.out {
                    Ok(j) => ("text".to_owned(), Some(j)),
                    Err(e) => (format!("unwound ({e:?})"), None),
                };
                Digest { verdict, json, trace: s.ctx.trace, dropped }
            }
            What::Built { e, canon } => {
                sim::stat("calls", 1);
                sim::step();
                let saved = part::swap(self.ctx(nested));
                alloc::begin_call();
                let r = {
                    let _e = sim::enter();
                    let v = (e.build)(canon);
                    let r = sim::sut(|| v.to_json());
                    drop(v);
                    r
                };
                part::swap(saved);
                let (verdict, json) = match r {
                    Ok(s) => {
                        let own = s.as_str().to_owned();
                        {
                            let _e = sim::enter();
                            drop(s);
                        }
                        ("text".to_owned(), Some(own))
                    }
                    Err(e) => (format!("unwound ({e:?})"), None),
                };
                Digest { verdict, json, trace: Vec::new(), dropped: true }
            }
        };
        zoo::set_hasher(old.0, old.1);
        d
    }
    /// The same job, checked against what it did alone.
    fn check(&self, nested: bool, alone: &Digest, where_: &str) {
        let d = self.run(nested);
        compare(&self.name(), alone, &d, where_);
    }
    fn may_leak(&self) -> bool {
        self.drop_panic.is_some()
            && match &self.what {
                What::De { e, .. } | What::Built { e, .. } => e.hashing,
                What::Ser { hash, .. } => *hash,
            }
    }
}

fn compare(name: &str, alone: &Digest, d: &Digest, where_: &str) {
    if d == alone {
        return;
    }
    let diff = if d.verdict != alone.verdict {
        format!("{} instead of {}", brief(&d.verdict), brief(&alone.verdict))
    } else if d.json != alone.json {
        format!("wrote {:?} instead of {:?}", d.json.as_deref().map(brief), alone.json.as_deref().map(brief))
    } else if d.trace != alone.trace {
        let i = d.trace.iter().zip(&alone.trace).position(|(a, b)| a != b).unwrap_or(d.trace.len().min(alone.trace.len()));
        format!("participant call {i} was {:?} instead of {:?}", d.trace.get(i), alone.trace.get(i))
    } else {
        format!("destructors {} instead of {}", d.dropped, alone.dropped)
    };
    violate!("influenced", "{name} {where_}: {diff}");
}

// ---------------------------------------------------------------- drawing jobs

fn draw_hasher(t: &mut Tape) -> (u64, u8) {
    (t.draw(1 << 16), if t.chance(1, 4) { t.range(1, 5) as u8 } else { 0 })
}

/// A call that nothing goes wrong in.
fn good_job(t: &mut Tape, tier: Tier) -> Job {
    let hasher = draw_hasher(t);
    zoo::set_hasher(hasher.0, hasher.1);
    match t.weighted(&[6, 4, 2]) {
        0 => {
            let probing = t.chance(2, 3);
            let e = pick_type(t, &|e| !e.random && e.probing == probing);
            let g = Gen { width: *t.pick(&[3, 6, 12]), depth: 4, wild: if t.chance(1, 5) { 60 } else { 0 }, ..zoo::GEN };
            let mut text = gen_case(t, e, &g).text;
            if t.chance(1, 8) {
                text = sc_fault::spoil(t, &text);
            }
            Job::clean(What::De { e, text }, hasher)
        }
        1 => {
            let budget = *t.pick(&[6, 20, tier.pick(40, 80, 10)]);
            Job::clean(What::Ser { seed: t.draw(1 << 32), depth: t.range(1, 4), budget, hash: true }, hasher)
        }
        _ => {
            let e = pick_type(t, &|e| !e.random && !e.probing);
            let g = Gen { depth: 4, width: *t.pick(&[3, 6, 12]), ..zoo::SENT };
            let doc = zoo::gen(&e.schema, t, g.depth, &g);
            let mut grey = false;
            let canon = zoo::decode(&e.schema, &doc, &mut grey).unwrap_or(Ast::Null);
            if zoo::decode(&e.schema, &doc, &mut grey).is_err() {
                return Job::clean(What::De { e: zoo::find("Value"), text: "[1]".to_owned() }, hasher);
            }
            Job::clean(What::Built { e, canon }, hasher)
        }
    }
}

/// Make a participant of the job fail. `n` is how many callbacks it makes.
fn fault(t: &mut Tape, j: &mut Job, n: usize) {
    match (&mut j.what, t.draw(6)) {
        (What::Built { .. }, _) => {}
        (What::De { e, .. }, 5) if e.pkeys => j.op_panic = Some(t.below(8)),
        (What::De { e, .. }, 4) if !e.hashing => j.drop_panic = Some(t.below(10)),
        (What::Ser { hash, .. }, 4) => {
            *hash = false;
            j.drop_panic = Some(t.below(10));
        }
        (What::De { .. }, k) => {
            let kind = if k % 2 == 0 { FK::Panic } else { FK::Err };
            j.faults = vec![Fault { at: t.below(n.max(1)), kind }];
        }
        (What::Ser { .. }, _) => j.faults = vec![Fault { at: t.below(n.max(1)), kind: FK::Panic }],
    }
}

fn callbacks(d: &Digest) -> usize {
    d.trace.len()
}

// ---------------------------------------------------------------- nesting

type Nest = Rc<Vec<(Job, Digest)>>;
thread_local! {
    static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) };
    static DEPTH: Cell<usize> = const { Cell::new(0) };
}

fn nest_cb(at: usize) {
    let Some(jobs) = NEST.with(|n| n.borrow().clone()) else { return };
    if jobs.is_empty() || DEPTH.with(Cell::get) >= 3 || sim::violated() {
        return;
    }
    let (j, alone) = &jobs[at % jobs.len()];
    if std::thread::panicking() && (j.op_panic.is_some() || j.faults.iter().any(|f| f.kind == FK::Panic)) {
        return; // injected panics hold back while another one unwinds
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    note!("    ... calls {}", j.name());
    j.check(true, alone, "called from inside another call");
    DEPTH.with(|d| d.set(d.get() - 1));
}

// ---------------------------------------------------------------- C09

enum Step {
    Run(usize),
    /// Deserialize (job) here and leave the value in the slot.
    Send(usize, usize),
    /// Take the value from the slot, serialize and drop it here.
    Take(usize),
    /// Serialize the value all threads share.
    Shared,
}

struct Parcel {
    obj: Box<dyn Obj>,
    ast: Ast,
    json: Option<String>,
    from: usize,
}

struct World {
    jobs: Vec<(Job, Digest)>,
    scripts: Vec<Vec<Step>>,
    slots: Mutex<Vec<Option<Parcel>>>,
    shared: Value,
    shared_json: String,
}
// Exactly one simulated thread runs at any time; schemas (which count references) are not touched.
unsafe impl Send for World {}
unsafe impl Sync for World {}

fn thread(w: &World, me: usize) {
    {
        // What nested calls choose from.
        let mine: Vec<(Job, Digest)> = w.jobs.iter().filter(|(j, _)| j.drop_panic.is_none()).cloned().collect();
        NEST.with(|n| *n.borrow_mut() = Some(Rc::new(mine)));
        DEPTH.with(|d| d.set(0));
    }
    for s in &w.scripts[me] {
        if sim::violated() {
            break;
        }
        match *s {
            Step::Run(i) => {
                let (j, alone) = &w.jobs[i];
                note!("thread {me}: {}", j.name());
                j.check(true, alone, &format!("on thread {me} of {}", w.scripts.len()));
            }
            Step::Send(slot, i) => {
                let (j, alone) = &w.jobs[i];
                let What::De { e, text } = &j.what else { continue };
                note!("thread {me}: {} into slot {slot}", j.name());
                zoo::set_hasher(j.hasher.0, j.hasher.1);
                let saved = part::swap(part::fresh(vec![]));
                let r = sim::sut(|| (e.from)(text));
                part::swap(saved);
                if let Ok(Ok(obj)) = r {
                    let ast = obj.value();
                    let old = {
                        let mut m = w.slots.lock().unwrap_or_else(|e| e.into_inner());
                        m[slot].replace(Parcel { obj, ast, json: alone.json.clone(), from: me })
                    };
                    if let Some(p) = old {
                        take(p, me);
                    }
                } else if alone.json.is_some() {
                    violate!("influenced", "{} on thread {me}: no value although there was one alone", j.name());
                }
            }
            Step::Take(slot) => {
                let p = w.slots.lock().unwrap_or_else(|e| e.into_inner())[slot].take();
                if let Some(p) = p {
                    note!("thread {me}: takes the value in slot {slot}");
                    take(p, me);
                }
            }
            Step::Shared => {
                let r = sim::sut(|| json::to_string(&w.shared));
                match r {
                    Ok(s) => {
                        if s != w.shared_json {
                            violate!("influenced", "thread {me} read a value shared by all threads as {} instead of {}", brief(&s), brief(&w.shared_json));
                        }
                        let _e = sim::enter();
                        drop(s);
                    }
                    Err(e) => violate!("influenced", "thread {me}: to_string of a shared value unwound: {e:?}"),
                }
            }
        }
    }
    NEST.with(|n| *n.borrow_mut() = None);
    sim::stat("sched.threads", 1);
}

fn take(p: Parcel, me: usize) {
    if p.from != me {
        sim::stat("coverage.values_moved_across_threads", 1);
    }
    let saved = part::swap(part::fresh(vec![]));
    let now = p.obj.value();
    if !refjson::same(&now, &p.ast, refjson::EXACT) {
        violate!("influenced", "a value made on thread {} is {} on thread {me} instead of {}", p.from, refjson::show(&now), refjson::show(&p.ast));
    }
    match sim::sut(|| p.obj.to_json()) {
        Ok(s) => {
            if p.json.as_deref().is_some_and(|j| j != s) {
                violate!("influenced", "a value made on thread {} was written as {} on thread {me}", p.from, brief(&s));
            }
            let _e = sim::enter();
            drop(s);
        }
        Err(e) => violate!("influenced", "to_string of a value from another thread unwound: {e:?}"),
    }
    if let Err(e) = sim::sut(|| drop(p.obj)) {
        violate!("influenced", "dropping a value from another thread unwound: {e:?}");
    }
    part::swap(saved);
}

/// How often the schedule preempts: the chance at callbacks and allocations, the mean distance in
/// between.
fn preemption(t: &mut Tape) -> (u64, u64) {
    if clock::PREEMPT && t.chance(3, 4) {
        (*t.pick(&[0, 0, 1, 8]), *t.pick(&[4, 20, 80, 400, 2000, 10_000]))
    } else {
        (*t.pick(&[1, 4, 16, 40]), 0)
    }
}

/// Calls on several threads at once before any of them was made alone: whatever the library sets up
/// on first use is set up under way.
fn together(t: &mut Tape, tier: Tier) {
    let n_jobs = t.range(1, tier.pick(3, 5, 2));
    let mut jobs: Vec<Job> = Vec::new();
    for _ in 0..n_jobs {
        let mut j = good_job(t, tier);
        if t.chance(1, 4) {
            let n = t.range(1, 20);
            fault(t, &mut j, n);
        }
        jobs.push(j);
    }
    let nt = t.range(2, tier.pick(4, 6, 2));
    let scripts: Vec<Vec<usize>> = (0..nt).map(|_| (0..t.range(1, 3)).map(|_| t.below(jobs.len())).collect()).collect();
    struct Shared {
        jobs: Vec<Job>,
        scripts: Vec<Vec<usize>>,
        seen: Mutex<Vec<(usize, usize, Digest)>>,
    }
    unsafe impl Send for Shared {}
    unsafe impl Sync for Shared {}
    for (i, j) in jobs.iter().enumerate() {
        note!("job {i}: {}", j.name());
    }
    let w = Arc::new(Shared { jobs, scripts, seen: Mutex::new(Vec::new()) });
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..nt)
        .map(|me| {
            let w = w.clone();
            Box::new(move || {
                for &i in &w.scripts[me] {
                    let d = w.jobs[i].run(false);
                    w.seen.lock().unwrap_or_else(|e| e.into_inner()).push((me, i, d));
                }
                sim::stat("sched.threads", 1);
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let (switch, mean) = preemption(t);
    let n = sched::run(t, switch, mean, tasks);
    sim::stat("sched.context-switches", n);
    sim::stat("coverage.calls-made-together-first", 1);
    note!("{n} context switches");
    sim::observe(n);
    if sim::violated() {
        return;
    }
    let leaky = w.jobs.iter().any(Job::may_leak);
    if leaky || alloc::live() != 0 {
        alloc::write_off();
    }
    if !leaky {
        sim::participants_check("after calls made together");
    }
    sim::ledger_reset();
    let seen = std::mem::take(&mut *w.seen.lock().unwrap_or_else(|e| e.into_inner()));
    for (i, j) in w.jobs.iter().enumerate() {
        let alone = j.run(false);
        for (me, _, d) in seen.iter().filter(|s| s.1 == i) {
            compare(&j.name(), &alone, d, &format!("on thread {me} of {nt}, before it was made alone,"));
        }
        if sim::violated() {
            return;
        }
        sim::ledger_reset();
        alloc::write_off();
        if let What::De { e, text } = &j.what {
            // What the calls agree on must be right as well.
            let c = exec::Case::of(e, text.clone());
            zoo::set_hasher(j.hasher.0, j.hasher.1);
            let d = exec::de(e, text, part::fresh(vec![]));
            exec::check_model(&c, &d, refjson::DECODE);
            sim::ledger_reset();
            alloc::write_off();
        }
    }
}

pub fn c09(t: &mut Tape, tier: Tier) {
    if t.chance(1, 5) {
        return together(t, tier);
    }
    let n_jobs = t.range(2, tier.pick(7, 12, 3));
    let mut jobs: Vec<(Job, Digest)> = Vec::new();
    for _ in 0..n_jobs {
        let mut j = good_job(t, tier);
        let mut d = j.run(false);
        if t.chance(1, 3) {
            fault(t, &mut j, callbacks(&d));
            d = j.run(false);
        }
        let n = callbacks(&d);
        if n > 0 && t.chance(2, 3) {
            let k = t.range(1, 3);
            j.nests = (0..k).map(|_| t.below(n)).collect();
        }
        if t.chance(1, 4) {
            j.nest_drop = Some(t.below(12));
        }
        note!("job {}: {} alone: {}", jobs.len(), j.name(), brief(&d.verdict));
        jobs.push((j, d));
    }
    if sim::violated() {
        return;
    }
    // What a call keeps when it is alone is C10's business; here it only must not depend on the company.
    let keeps = alloc::live() != 0;
    if keeps {
        alloc::write_off();
    }
    let conserved = |what: &str| {
        if keeps {
            sim::participants_check(what);
        } else {
            sim::conservation_check(what);
        }
    };
    conserved("after the calls made alone");
    // Nested calls on one thread.
    let inner: Vec<(Job, Digest)> = jobs.iter().filter(|(j, _)| j.drop_panic.is_none()).cloned().collect();
    NEST.with(|n| *n.borrow_mut() = Some(Rc::new(inner)));
    DEPTH.with(|d| d.set(0));
    for (j, alone) in &jobs {
        if sim::violated() {
            break;
        }
        note!("nesting in {}", j.name());
        j.check(true, alone, "with calls nested in its callbacks");
    }
    NEST.with(|n| *n.borrow_mut() = None);
    if sim::violated() {
        return;
    }
    conserved("after nested calls");
    if t.chance(1, 4) && !cfg!(miri) {
        return;
    }
    // Threads.
    let nt = t.range(2, tier.pick(4, 6, 2));
    let de: Vec<usize> = (0..jobs.len()).filter(|&i| matches!(jobs[i].0.what, What::De { .. }) && jobs[i].0.faults.is_empty() && jobs[i].0.op_panic.is_none() && jobs[i].0.drop_panic.is_none()).collect();
    let scripts: Vec<Vec<Step>> = (0..nt)
        .map(|_| {
            let n = t.range(1, tier.pick(5, 12, 2));
            (0..n)
                .map(|_| match t.weighted(&[6, 3, 3, 1]) {
                    1 if !de.is_empty() => Step::Send(t.below(3), *t.pick(&de)),
                    2 => Step::Take(t.below(3)),
                    3 => Step::Shared,
                    _ => Step::Run(t.below(jobs.len())),
                })
                .collect()
        })
        .collect();
    let shared_ast = zoo::any(t, 3, &zoo::SENT);
    let (shared, shared_json) = {
        let _e = sim::enter();
        let v = zoo::value_build(&shared_ast);
        let s = json::to_string(&v);
        (v, s)
    };
    let (switch, mean) = preemption(t);
    let w = Arc::new(World { jobs, scripts, slots: Mutex::new((0..3).map(|_| None).collect()), shared, shared_json });
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..nt)
        .map(|me| {
            let w = w.clone();
            Box::new(move || thread(&w, me)) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let n = sched::run(t, switch, mean, tasks);
    sim::stat("sched.context-switches", n);
    note!("{n} context switches");
    sim::observe(n);
    // What is left in the slots dies here.
    let Ok(w) = Arc::try_unwrap(w) else {
        violate!("harness-panic", "a simulated thread is still alive");
        return;
    };
    for p in w.slots.into_inner().unwrap_or_else(|e| e.into_inner()).into_iter().flatten() {
        take(p, usize::MAX);
    }
    let _ = sim::sut(|| drop((w.shared, w.shared_json)));
    if !sim::violated() {
        conserved("after all threads ended");
    }
}

// ---------------------------------------------------------------- C10

/// A call and what it cost.
fn metered(j: &Job) -> (Digest, u64, u64) {
    alloc::begin_call();
    let d = j.run(false);
    (d, alloc::N_ALLOC.load(Relaxed), alloc::BYTES.load(Relaxed))
}

fn settle(what: &str, leaky: bool) {
    if leaky {
        sim::safety_check();
    } else {
        sim::conservation_check(what);
    }
    sim::ledger_reset();
    alloc::write_off();
}

const BAD: &[&str] = &["good", "participant fault", "torn", "damaged", "refused allocation", "deep and torn", "huge", "mistyped", "refused in to_string", "vast"];

/// One call that goes wrong.
fn mishap(t: &mut Tape, tier: Tier, step: usize) {
    let mut kind = t.weighted(&[2, 8, 4, 3, 4, 1, 1, 2, 2]);
    if crate::vast::due(t, 400) {
        kind = 9;
    }
    let mut j = good_job(t, tier);
    let mut what = format!("step {step} ({})", BAD[kind]);
    let mut leaky = false;
    match kind {
        1 => {
            let n = callbacks(&j.run(false));
            settle("a good call", false);
            fault(t, &mut j, n);
            if let (What::De { e, .. }, true) = (&j.what, t.chance(1, 8)) {
                if !e.boxing {
                    j.faults = vec![Fault { at: t.below(n.max(1)), kind: FK::Lazy }];
                }
            }
            leaky = j.may_leak();
        }
        2 => {
            if let What::De { text, .. } = &mut j.what {
                let mut n = t.below(text.len() + 1);
                while !text.is_char_boundary(n) {
                    n -= 1;
                }
                text.truncate(n);
                sim::stat("fault.torn-text", 1);
            }
        }
        3 => {
            if let What::De { text, .. } = &mut j.what {
                *text = crate::damage::damage(t, text, &["{\"a\":[1,2,{}]}", "\"\\ud83d\\ude00\""]);
            }
        }
        4 | 8 => {
            if kind == 8 {
                j.what = What::Ser { seed: t.draw(1 << 32), depth: 3, budget: 20, hash: false };
            }
            let (_, n, _) = metered(&j);
            settle("a good call", false);
            let k = t.below(n.max(1) as usize);
            alloc::FAIL_FIRED.store(false, Relaxed);
            // Only library calls: the simulated party's own building is not to be refused.
            leaky = match &j.what {
                What::De { text, .. } if exec::splits_tree(text) => false,
                What::De { e, .. } => {
                    alloc::FAIL_AT.store(k as u64 + 1, Relaxed);
                    e.hash_value
                }
                _ => false,
            };
            if let What::Ser { seed, depth, budget, hash } = &j.what {
                let saved = part::swap(part::fresh(vec![]));
                let n = snode::plan(&mut Tape::from_seed(*seed), *depth, *budget, *hash, 0);
                part::swap(saved);
                alloc::FAIL_AT.store(k as u64 / 2 + 1, Relaxed);
                let s = sc_fault::ser(&n, part::fresh(vec![]));
                alloc::FAIL_AT.store(0, Relaxed);
                if alloc::FAIL_FIRED.load(Relaxed) {
                    sim::stat("fault.allocation-refused", 1);
                    if !matches!(s.out, Err(Stop::Oom)) {
                        violate!("oom-ignored", "{what}: {:?}", s.out);
                    }
                }
                let saved = part::swap(part::fresh(vec![]));
                // With a hash map inside, std may leak when a Value's destructor is starved.
                let _ = sim::sut(|| drop(n));
                part::swap(saved);
                settle(&what, *hash);
                return;
            }
            if alloc::FAIL_AT.load(Relaxed) != 0 {
                sim::stat("fault.allocation-refused", 1);
            }
        }
        5 => {
            let depth = t.range(200, tier.pick(1500, 20_000, 210));
            let obj = t.chance(1, 2);
            let mut text = (if obj { "{\"a\":" } else { "[" }).repeat(depth);
            if t.chance(1, 2) {
                text.push_str(t.pick(&["!", "1", "nul", "]", "\"", "\"\\ud800"]));
            }
            j.what = What::De { e: zoo::find(t.pick(&["Value", "Empty", "Node", "u8", "Array", "Object"])), text };
            sim::stat("fault.torn-deep-text", 1);
        }
        6 => {
            let n = t.range(1000, tier.pick(30_000, 200_000, 1100));
            let unit = *t.pick(&["a", "\\n", "é", "\\u00e9", "\\ud83d\\ude00", "\u{1f600}"]);
            let mut text = String::from(if t.chance(1, 2) { "\"" } else { "{\"" });
            text.push_str(&unit.repeat(n / unit.len()));
            text.push_str(t.pick(&["\"", "", "\":1}", "\\", "\\u12", "\":\"", "\u{1}\""]));
            j.what = What::De { e: zoo::find(t.pick(&["Value", "String", "Empty", "BM<String, u32>", "Color", "RecV2"])), text };
        }
        9 => {
            // A long or a deep document, torn, damaged or with a fault late in it.
            let e = pick_type(t, &|e| !e.random);
            let mut c = if t.chance(1, 2) { crate::vast::case(t, e) } else { Case::of(zoo::find(t.pick(&["Value", "Empty", "Probe", "Object"])), crate::damage::nested(t)) };
            match t.draw(3) {
                0 => {
                    let text = crate::damage::cut_at(&c.text, c.text.len() - t.below(c.text.len().min(300))).to_owned();
                    c = Case::of(c.e, text);
                }
                1 => c = Case::of(c.e, crate::damage::bracket(t, &c.text)),
                _ => {}
            }
            // The hasher as well: with the one whose keys all collide, this would take minutes.
            j = Job { hasher: (t.draw(1 << 16), 0), what: What::De { e: c.e, text: c.text }, ..j };
            let n = callbacks(&j.run(false));
            settle("a good call", false);
            if n > 0 && t.chance(1, 2) {
                j.faults = vec![Fault { at: n - 1 - t.below(n.min(20)), kind: *t.pick(&[FK::Err, FK::Panic]) }];
                leaky = j.may_leak();
            }
            sim::stat("coverage.vast_documents", 1);
        }
        7 => {
            if let What::De { e, .. } = &mut j.what {
                *e = pick_type(t, &|e| !e.random);
            }
        }
        _ => {}
    }
    what.push_str(": ");
    what.push_str(&j.name());
    note!("{what}");
    let d = j.run(false);
    alloc::FAIL_AT.store(0, Relaxed);
    note!("   -> {}", brief(&d.verdict));
    if let Some(m) = d.verdict.strip_prefix("unwound (Unexpected") {
        violate!("panic", "{what} panicked: {m}");
    }
    settle(&what, leaky);
}

pub fn c10(t: &mut Tape, tier: Tier) {
    let n_ref = t.range(1, 4);
    let refs: Vec<Job> = (0..n_ref).map(|_| good_job(t, tier)).collect();
    // What each does when it comes first - half of the time on a thread that has done nothing yet.
    let fresh = !cfg!(miri) && t.chance(1, 2);
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let mut first: Vec<(Digest, u64, u64)> = Vec::new();
    for j in &refs {
        let m = if fresh {
            let own = S(j.clone());
            let th = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                let own = own;
                let r = S(metered(&own.0));
                drop(own);
                r
            });
            match th.expect("spawn").join() {
                Ok(S(m)) => m,
                Err(_) => {
                    violate!("panic", "{} killed its thread", j.name());
                    return;
                }
            }
        } else {
            metered(j)
        };
        settle("a first call", false);
        if let What::De { e, text } = &j.what {
            // The absolute oracle, so that a polluted process cannot agree with itself.
            let c = exec::Case::of(e, text.clone());
            zoo::set_hasher(j.hasher.0, j.hasher.1);
            let d = exec::de(e, text, part::fresh(vec![]));
            exec::check_model(&c, &d, refjson::DECODE);
            exec::settle("a first call", &d, false);
        }
        first.push(m);
    }
    let n = t.range(2, tier.pick(14, 60, 5));
    for step in 0..n {
        if sim::violated() {
            return;
        }
        mishap(t, tier, step);
        if sim::violated() {
            return;
        }
        if step + 1 == n || t.chance(1, 4) {
            let i = t.below(refs.len());
            let (d, na, nb) = metered(&refs[i]);
            let (d0, na0, nb0) = &first[i];
            compare(&refs[i].name(), d0, &d, &format!("after {} calls that went wrong", step + 1));
            if (na, nb) != (*na0, *nb0) {
                violate!("left-behind", "{} made {na} allocations of {nb} bytes after {} calls that went wrong, {na0} of {nb0} when it came first", refs[i].name(), step + 1);
            }
            settle("the reference call", false);
            sim::stat("coverage.reference_calls", 1);
        }
    }
    let _ = one(0, FK::Err);
}
