//! C19: the same simulated run against the library with its std feature and without.
//!
//! This process holds the build with std. A second process, the peer, is the same simulator built
//! against the library without std. A run is executed here, its choices are sent to the peer, and
//! the peer executes them too: both must have seen the same.

use crate::damage::damage;
use crate::exec::{de_opt, gen_case, pick_type, settle};
use crate::part::{self, Fault, FK};
use crate::refjson::{brief, Ast, Num};
use crate::sim;
use crate::tape::Tape;
use crate::zoo::{self, Gen, GEN, SENT};
use crate::{note, sc_fault, sc_fmt, sc_text, sc_value, violate, Tier};
use miniserde::json::{self, Value};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

/// What one build saw in one run.
#[derive(PartialEq, Clone, Debug)]
struct Seen {
    history: u64,
    steps: u64,
    draws: u64,
    /// Classes of violations (of other properties), if any.
    broken: Vec<String>,
    story: Story,
}
/// What the violations said: told, not compared.
#[derive(Clone, Debug)]
struct Story(String);
impl PartialEq for Story {
    fn eq(&self, _: &Story) -> bool {
        true
    }
}

fn scenario(t: &mut Tape, tier: Tier) {
    match t.weighted(&[6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
        0 => plain(t),
        1 => sc_fault::c01(t, tier),
        2 => sc_fault::c02(t, tier),
        3 => sc_fault::c03(t, tier),
        4 => sc_fault::c04(t, tier),
        5 => sc_fault::c05(t, tier),
        6 => sc_text::c06(t, tier),
        7 => sc_text::c07(t, tier),
        8 => sc_text::c11(t, tier),
        9 => sc_text::c12(t, tier),
        10 => sc_text::c13(t, tier),
        11 => sc_value::c14(t, tier),
        _ => sc_fmt::c20(t, tier),
    }
}

/// Everything a caller can see of a few calls, to the last bit.
fn plain(t: &mut Tape) {
    for _ in 0..t.range(1, 4) {
        if sim::violated() {
            return;
        }
        let e = pick_type(t, &|_| true);
        let g = match t.draw(3) {
            0 => Gen { width: 6, depth: 3, ..SENT },
            1 => GEN,
            _ => Gen { wild: 60, unknown: 300, ..GEN },
        };
        let c = gen_case(t, e, &g);
        let text = if t.chance(1, 2) { damage(t, &c.text, &[&c.text]) } else { c.text };
        let faults = match t.draw(4) {
            0 => vec![Fault { at: t.below(12), kind: *t.pick(&[FK::Err, FK::Panic, FK::Lazy]) }],
            _ => vec![],
        };
        let lazy = faults.iter().any(|f| matches!(f.kind, FK::Lazy));
        let d = de_opt(e, &text, part::fresh(faults), true);
        // A participant that accepts without writing may make Box<T> panic: the message names a line
        // of the library, which is no behaviour.
        sim::observe_str(&match &d.out {
            Ok(Ok(a)) => exact(a),
            Ok(Err(())) => "refused".to_owned(),
            Err(_) => "unwound".to_owned(),
        });
        sim::observe_str(d.json.as_deref().unwrap_or("no text"));
        sim::observe_str(&format!("{:?}", d.ctx.trace));
        sim::observe_str(&format!("{:?} {}", d.ctx.n_op, d.ctx.n_drop));
        if !lazy {
            settle("c19", &d, false);
        }
        // Untyped, with the texts of the value and of the refusal.
        let v = sim::sut(|| match json::from_str::<Value>(&text) {
            Ok(v) => (format!("{v:?} {v:#?}"), json::to_string(&v)),
            Err(e) => (format!("{e:?} {e}"), String::new()),
        });
        let _e = sim::enter();
        match v {
            Ok((a, b)) => {
                sim::observe_str(&a);
                sim::observe_str(&b);
                let _p = sim::pause();
                note!("  Value: {} {}", brief(&a), brief(&b));
            }
            Err(_) => sim::observe_str("unwound"),
        }
        sim::stat("calls", 2);
        sim::step();
    }
}

fn exact(a: &Ast) -> String {
    match a {
        Ast::Num(Num::F(f)) => format!("f{:016x}", f.to_bits()),
        Ast::Num(Num::F32(f)) => format!("g{:08x}", f.to_bits()),
        Ast::Num(n) => format!("{n:?}"),
        Ast::Null => "n".to_owned(),
        Ast::Bool(b) => format!("{b}"),
        Ast::Raw(s) | Ast::Str(s) => format!("{s:?}"),
        Ast::Arr(v) => format!("[{}]", v.iter().map(exact).collect::<Vec<_>>().join(",")),
        Ast::Obj(v) | Ast::Set(v) => format!("{{{}}}", v.iter().map(|(k, e)| format!("{k:?}:{}", exact(e))).collect::<Vec<_>>().join(",")),
    }
}

/// One run in this build. Violations of other properties are not this property's business, but both
/// builds must have them.
fn local(t: &mut Tape, tier: Tier) -> Seen {
    zoo::set_bare(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario(t, tier)));
    zoo::set_bare(false);
    crate::alloc::flush_quarantine();
    let mut v = sim::take_violations();
    if r.is_err() {
        v.push(("party-died".to_owned(), sim::last_panic()));
    }
    let story = Story(v.first().map(|v| v.1.replace('\n', " ")).unwrap_or_default());
    Seen { history: sim::history(), steps: sim::steps(), draws: t.used() as u64, broken: v.into_iter().map(|v| v.0).collect(), story }
}

pub fn c19(t: &mut Tape, tier: Tier) {
    let here = local(t, tier);
    let there = match ask(&t.c[..t.used().min(t.c.len())], tier) {
        Ok(s) => s,
        Err(m) => {
            violate!("differs", "the build with std sees {} in this run; the build without std died or did not end ({m})", show(&here));
            return;
        }
    };
    sim::stat("coverage.runs_compared", 1);
    if here != there {
        violate!("differs", "the same run: the build with std sees {}, the build without std sees {}", show(&here), show(&there));
    }
}

fn show(s: &Seen) -> String {
    let b = if s.broken.is_empty() { String::new() } else { format!(", violations {:?} ({})", s.broken, s.story.0) };
    format!("history {:016x} after {} steps and {} choices{b}", s.history, s.steps, s.draws)
}

// ---------------------------------------------------------------- the other process

struct Peer {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}
static PEER: Mutex<Option<Peer>> = Mutex::new(None);

fn start(tier: Tier) -> Peer {
    let exe = std::env::var_os("SIM_BARE").unwrap_or_else(|| {
        eprintln!("error of the check: SIM_BARE names no simulator");
        std::process::exit(2)
    });
    let mut child = Command::new(exe)
        .args(["peer", tier.name()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("error of the check: the peer does not start: {e}");
            std::process::exit(2)
        });
    let (to, from) = (child.stdin.take().expect("pipe"), child.stdout.take().expect("pipe"));
    Peer { child, to, from }
}

fn ask(tape: &[u64], tier: Tier) -> Result<Seen, String> {
    let _p = sim::pause();
    let mut slot = PEER.lock().unwrap_or_else(|e| e.into_inner());
    let p = slot.get_or_insert_with(|| start(tier));
    let mut b = Vec::with_capacity(tape.len() * 8 + 8);
    b.extend_from_slice(&(tape.len() as u64).to_le_bytes());
    tape.iter().for_each(|c| b.extend_from_slice(&c.to_le_bytes()));
    let r = p.to.write_all(&b).and_then(|()| p.to.flush()).and_then(|()| {
        let mut w = [0u8; 8];
        let mut num = |f: &mut ChildStdout| f.read_exact(&mut w).map(|()| u64::from_le_bytes(w));
        let (history, steps, draws, n) = (num(&mut p.from)?, num(&mut p.from)?, num(&mut p.from)?, num(&mut p.from)?);
        let mut s = vec![0u8; n as usize];
        p.from.read_exact(&mut s)?;
        let s = String::from_utf8_lossy(&s).into_owned();
        let mut l = s.split('\n').map(str::to_owned);
        let story = Story(l.next().unwrap_or_default());
        Ok(Seen { history, steps, draws, broken: l.collect(), story })
    });
    r.map_err(|e| {
        let st = slot.take().map(|mut p| {
            let _ = p.child.kill();
            p.child.wait()
        });
        format!("{e}, {st:?}")
    })
}

/// sim peer <tier>: runs what it is sent. The CPU limit is raised run by run, so that a run without
/// end ends the process.
pub fn serve(tier: Tier, limit: fn(u64), begin: fn(&Tape)) -> i32 {
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    let mut w = [0u8; 8];
    loop {
        limit(cpu_seconds() + 30);
        if i.read_exact(&mut w).is_err() {
            return 0;
        }
        let mut b = vec![0u8; u64::from_le_bytes(w) as usize * 8];
        if i.read_exact(&mut b).is_err() {
            return 0;
        }
        let mut t = Tape::replay(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect());
        begin(&t);
        let s = local(&mut t, tier);
        part::swap(part::Ctx::default());
        let _ = sim::take_stats();
        let text = std::iter::once(s.story.0).chain(s.broken).collect::<Vec<_>>().join("\n");
        let mut out = Vec::new();
        for x in [s.history, s.steps, s.draws, text.len() as u64] {
            out.extend_from_slice(&x.to_le_bytes());
        }
        out.extend_from_slice(text.as_bytes());
        if o.write_all(&out).and_then(|()| o.flush()).is_err() {
            return 0;
        }
    }
}

fn cpu_seconds() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    // After the state letter: ppid .. utime and stime are the 10th and 11th numbers that follow it.
    f.get(10).copied().unwrap_or(0).saturating_add(f.get(11).copied().unwrap_or(0)) / 100 + 1
}
