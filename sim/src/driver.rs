//! Runs, workers, the search over seeds, crash and hang detection, minimisation, replay, evidence.

use crate::clock;
use crate::sim;
use crate::tape::{self, Tape};
use crate::{sc_bounds, sc_conc, sc_fault, sc_fmt, sc_peer, sc_stack, sc_text, sc_value, Tier};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Tape, Tier),
    /// Simulated runs at quick and thorough tier; whether some are repeated under Miri.
    pub quick: u64,
    pub thorough: u64,
    pub miri: bool,
    /// A worker goes on in a fresh process after so many runs (0 = never): what the library sets up
    /// on first use is then set up under the simulator's schedule again.
    pub renew: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const REAL: &str = "miniserde (json parser, json writer, de/ser impls, derive output, Value/Array/Object) unmodified from /repo; Rust std collections";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: sc_fault::c01,
        quick: 320_000,
        thorough: 4_500_000,
        miri: true,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one generated (type, document, hasher) and one execution per fault point of it: every participant callback x {error, panic, accept without writing}, every hash/comparison and every destructor panicking, sampled pairs; non-trivial: at least 8 simulator steps; distinct: hash of everything the participants observed",
        real: REAL,
        stub: "visitors, sequence and map builders, keys, hashers (simulated participants); heap allocator (checking simulator allocator)",
    },
    Prop {
        id: "C02",
        run: sc_fault::c02,
        quick: 600_000,
        thorough: 4_500_000,
        miri: true,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one generated tree of serializing participants and one execution per fault point: every begin/next/key-format callback and every destructor panicking; non-trivial: at least 8 simulator steps; distinct: hash of everything observed",
        real: REAL,
        stub: "Serialize impls and element/entry streams (borrowing, owning, lending); heap allocator",
    },
    Prop {
        id: "C03",
        run: sc_fault::c03,
        quick: 800_000,
        thorough: 4_500_000,
        miri: false,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one (type, document) with an error and a panic injected at every participant callback (up to the width), plus incomplete and trailing text; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "visitors, builders, keys, hashers; reference decoder as oracle",
    },
    Prop {
        id: "C04",
        run: sc_fault::c04,
        quick: 400_000,
        thorough: 6_000_000,
        miri: false,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one (type, document), its call history compared with the reference walk, then cut at every callback by error and by panic and cut in the text; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "visitors, builders, keys; reference walk as oracle",
    },
    Prop {
        id: "C05",
        run: sc_fault::c05,
        quick: 320_000,
        thorough: 4_500_000,
        miri: false,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one tree of serializing participants, its call history and its text compared with the reference, a panic at every callback followed by a retry; plus four values of library types serialized twice; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "Serialize impls and streams; reference JSON reader as oracle",
    },
    Prop {
        id: "C06",
        run: sc_text::c06,
        quick: 200_000,
        thorough: 3_000_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one record cut at every byte and read as four types, or a journal on a simulated disk with crashes and torn writes, or a cluster with torn snapshots; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "disk (torn, lost and partial writes), network, clock, crash and restart",
    },
    Prop {
        id: "C07",
        run: sc_text::c07,
        quick: 700_000,
        thorough: 4_500_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one document of one type damaged many times by a faulty store or link; each result compared with the reference reader; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "faulty storage and link; RFC 8259 reference reader and per-type decoder as oracle",
    },
    Prop {
        id: "C08",
        run: sc_stack::c08,
        quick: 8_000,
        thorough: 40_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one nesting pattern, one way of using it and one abort point, executed shallow and deep on a painted stack; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "call stack (painted, high-water mark read back), participants, heap allocator",
    },
    Prop {
        id: "C09",
        run: sc_conc::c09,
        quick: 70_000,
        thorough: 1_400_000,
        miri: true,
        renew: 48,
        level: "exploration",
        rule: "one run = two to six callers with their calls, faults and one seeded schedule, or calls nested in callbacks; every outcome compared with the same call run alone; distinct: hash of schedule and everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "thread scheduler (one thread at a time, switched at callbacks, allocations and any basic block, load or store of library code), participants, heap allocator",
    },
    Prop {
        id: "C10",
        run: sc_conc::c10,
        quick: 480_000,
        thorough: 1_400_000,
        miri: true,
        renew: 512,
        level: "exploration",
        rule: "one run = a history of failing, panicking, torn and memory-starved calls followed by reference calls; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "participants, heap allocator",
    },
    Prop {
        id: "C11",
        run: sc_text::c11,
        quick: 280_000,
        thorough: 4_500_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one map-bearing value sent between nodes with unrelated (also colliding) hashers, members permuted and repeated; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "hashers, link that permutes and repeats members, reference model",
    },
    Prop {
        id: "C12",
        run: sc_text::c12,
        quick: 280_000,
        thorough: 4_500_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = messages from one version of a type read by another version, or a cluster in rolling upgrade; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "network, clock, crash and restart, hashers; per-type decoder as oracle",
    },
    Prop {
        id: "C13",
        run: sc_text::c13,
        quick: 280_000,
        thorough: 4_500_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one value over a chain of typed and untyped relays, or a cluster with loss, duplication, delay, partitions and crashes; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "network, clock, crash and restart, hashers",
    },
    Prop {
        id: "C14",
        run: sc_value::c14,
        quick: 320_000,
        thorough: 5_000_000,
        miri: true,
        renew: 0,
        level: "exploration",
        rule: "one run = one history of operations on Value/Array/Object with panicking closures and iterators and abandoned iterators, each step compared with a list/ordered-map model; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "caller-supplied closures and iterators, heap allocator; Vec/BTreeMap model as oracle",
    },
    Prop {
        id: "C15",
        run: sc_bounds::c15,
        quick: 20_000,
        thorough: 300_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one family of inputs (good, torn or hostile) at growing sizes with simulated CPU time (basic blocks executed) and allocations and live bytes metered; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "CPU clock (basic blocks and block copies), heap allocator (metering, budgeted), hostile peer",
    },
    Prop {
        id: "C16",
        run: sc_fault::c16,
        quick: 400_000,
        thorough: 3_500_000,
        miri: true,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one workload with one execution per allocation it makes, that allocation refused; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: REAL,
        stub: "heap allocator (refuses on command), participants",
    },
    Prop {
        id: "C19",
        run: sc_peer::c19,
        quick: 200_000,
        thorough: 6_000_000,
        miri: false,
        renew: 0,
        level: "exploration",
        rule: "one run = one execution of a scenario of C01-C07, C11-C14 or C20, or of calls compared to the last bit, in the build with std and, from the same choices, in the build without; distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: "miniserde from /repo built twice, with and without its std feature",
        stub: "participants, stores, networks, sinks and allocator as in the scenarios",
    },
    Prop {
        id: "C20",
        run: sc_fmt::c20,
        quick: 200_000,
        thorough: 6_000_000,
        miri: false,
        renew: 0,
        level: "fault_enumeration",
        rule: "one run = one value formatted in up to three forms into a working sink and then once per write with that write failing, torn or panicking (writes sampled above 12); distinct: hash of everything observed; non-trivial: at least 8 simulator steps",
        real: "miniserde (Debug and Display of Value, Array, Object, Number; json writer) unmodified from /repo; Rust core::fmt",
        stub: "the sink (fmt::Write)",
    },
];

pub fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

pub fn run_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut x = tape::mix(tape::mix(seed, tape::hash_str(id)), idx);
    tape::splitmix(&mut x)
}

type Viol = Vec<(String, String)>;

fn fresh_run(tape: &Tape) {
    sim::begin_run(tape);
    crate::part::swap(crate::part::Ctx::default());
    crate::zoo::set_hasher(0, 0);
}

/// One simulated run.
fn execute(p: &Prop, tape: &mut Tape, tier: Tier) -> Viol {
    fresh_run(tape);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(tape, tier)));
    crate::alloc::flush_quarantine();
    let mut v = sim::take_violations();
    if r.is_err() {
        // A simulated party found the library's behaviour impossible.
        v.push(("party-died".to_owned(), format!("a simulated party died on what the library gave it: {}", sim::last_panic())));
    }
    crate::part::swap(crate::part::Ctx::default());
    v
}

/// Reports quote what the library produced, which may be anything.
fn read_text(p: impl AsRef<Path>) -> std::io::Result<String> {
    fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned())
}

/// A big stack, so that C08 measures deep recursion instead of dying of it.
fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    if cfg!(miri) {
        return f();
    }
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).expect("spawn").join().unwrap_or_else(|_| std::process::exit(2))
}

// ---------------------------------------------------------------- command line

struct Args(Vec<String>);
impl Args {
    fn at(&self, i: usize) -> &str {
        self.0.get(i).map(String::as_str).unwrap_or_else(|| {
            eprintln!("missing argument {i}");
            std::process::exit(2)
        })
    }
    fn num(&self, i: usize) -> u64 {
        self.at(i).parse().unwrap_or_else(|_| {
            eprintln!("argument {i} is not a number");
            std::process::exit(2)
        })
    }
}

pub fn main() -> i32 {
    let a = Args(std::env::args().collect());
    match a.at(1) {
        // sim run <prop> <tier> <seed> <verif dir>
        "run" => parent(prop(a.at(2)), Tier::of(a.at(3)), a.num(4), Path::new(a.at(5))),
        "worker" => worker(&a),
        "exec" => exec_file(&a),
        "seed" => exec_seed(&a),
        "replay" => replay(Path::new(a.at(2))),
        "miri" => miri(&a),
        "digest" => digest(&a),
        "peer" => {
            let tier = Tier::of(a.at(2));
            on_big_stack(move || sc_peer::serve(tier, limits, fresh_run))
        }
        "props" => {
            for p in PROPS {
                println!("{} {}", p.id, p.miri);
            }
            0
        }
        c => {
            eprintln!("unknown command {c}");
            2
        }
    }
}

// ---------------------------------------------------------------- worker

/// Milliseconds on the wall.
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}

/// sim worker <prop> <tier> <seed> <start> <stride> <count> <until> <dir> <w>
fn worker(a: &Args) -> i32 {
    let p = prop(a.at(2));
    let tier = Tier::of(a.at(3));
    let (seed, start, stride, count, until) = (a.num(4), a.num(5), a.num(6), a.num(7), a.num(8));
    let dir = PathBuf::from(a.at(9));
    let w = a.num(10);
    limits(3600 * 12);
    watchdog();
    on_big_stack(move || {
        let hb = fs::File::create(dir.join(format!("hb.{w}"))).expect("heartbeat");
        let mut hist: HashSet<u64> = HashSet::new();
        let (mut runs, mut steps, mut nontrivial) = (0u64, 0u64, 0u64);
        let mut samples: Vec<String> = Vec::new();
        let mut idx = start;
        let mut code = 0;
        let mut last_hb = u64::MAX;
        let mut again = false;
        while idx < count {
            if p.renew != 0 && runs >= p.renew && now_ms() < until {
                again = true;
                break;
            }
            if runs % 16 == 0 && now_ms() >= until {
                break;
            }
            if last_hb != idx {
                let _ = hb.write_at(&idx.to_le_bytes(), 0);
                last_hb = idx;
            }
            let mut t = Tape::from_seed(run_seed(seed, p.id, idx));
            let want_sample = runs < 2;
            sim::set_verbose(want_sample);
            let v = execute(p, &mut t, tier);
            if want_sample {
                let n = sim::take_notes();
                let mut s = format!("run {idx}: ");
                for l in n.iter().take(12) {
                    let _ = write!(s, "{}; ", l.trim());
                }
                crate::refjson::cut(&mut s, 900);
                samples.push(s);
            }
            sim::set_verbose(false);
            runs += 1;
            steps += sim::steps();
            if sim::steps() >= 8 {
                nontrivial += 1;
                if hist.len() < 3_000_000 {
                    hist.insert(sim::history());
                }
            }
            if let Some((class, msg)) = v.first() {
                let mut s = String::new();
                let _ = writeln!(s, "{idx}");
                let _ = writeln!(s, "{class}");
                let _ = writeln!(s, "{}", msg.replace('\n', " "));
                for c in &t.c {
                    let _ = writeln!(s, "{c}");
                }
                fs::write(dir.join(format!("viol.{w}.tmp")), s).expect("viol");
                fs::rename(dir.join(format!("viol.{w}.tmp")), dir.join(format!("viol.{w}"))).expect("viol");
                code = 1;
                break;
            }
            idx += stride;
        }
        let mut st = sim::take_stats();
        st.insert("runs".into(), runs);
        st.insert("steps".into(), steps);
        st.insert("nontrivial".into(), nontrivial);
        let mut s = String::new();
        for (k, v) in &st {
            let _ = writeln!(s, "{k} {v}");
        }
        let add = |name: &str, b: &[u8]| {
            let f = fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("{name}.{w}")));
            f.and_then(|mut f| f.write_all(b)).expect(name);
        };
        add("stats", s.as_bytes());
        let bytes: Vec<u8> = hist.iter().flat_map(|h| h.to_le_bytes()).collect();
        add("hist", &bytes);
        if start < stride {
            add("samples", samples.join("\n").as_bytes());
        }
        if again {
            // The same process id, everything else anew.
            use std::os::unix::process::CommandExt;
            let e = Command::new(exe())
                .args(["worker", p.id, tier.name()])
                .args([seed, idx, stride, count, until].map(|x| x.to_string()))
                .arg(&dir)
                .arg(w.to_string())
                .exec();
            eprintln!("worker {w} could not go on: {e}");
            return 2;
        }
        code
    })
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
/// No core files; an upper bound on CPU seconds.
fn limits(cpu: u64) {
    if cfg!(miri) {
        return;
    }
    unsafe {
        setrlimit(4, &[0, 0]);
        setrlimit(0, &[cpu, cpu + 5]);
    }
}

/// Exit code of a process all of whose threads block each other.
const STUCK: i32 = 77;

/// Ends the process when every thread but this one has slept through eight seconds.
fn watchdog() {
    if cfg!(miri) {
        return;
    }
    fn asleep() -> (bool, u64) {
        let mut all = true;
        let mut ticks = 0;
        let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|n| n.to_owned()));
        for e in fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
            if Some(e.file_name()) == me {
                continue;
            }
            let s = read_text(e.path().join("stat")).unwrap_or_default();
            let Some(i) = s.rfind(')') else { continue };
            let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
            all &= f.first() == Some(&"S");
            let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            ticks += g(11) + g(12);
        }
        (all, ticks)
    }
    std::thread::spawn(|| {
        let mut n = 0;
        let mut last = 0;
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let (all, ticks) = asleep();
            n = if all && ticks == last { n + 1 } else { 0 };
            last = ticks;
            if n == 40 {
                println!("violation deadlock: the library blocked and nothing could ever wake it");
                std::process::exit(STUCK);
            }
        }
    });
}

// ---------------------------------------------------------------- one run from a tape or a seed

const EXEC_CPU: u64 = 20;

/// sim exec <prop> <tier> <tape file> [verbose]: prints class, message, history, tape length used.
fn exec_file(a: &Args) -> i32 {
    let p = prop(a.at(2));
    let tier = Tier::of(a.at(3));
    let tape: Vec<u64> = read_text(a.at(4)).expect("tape").lines().filter_map(|l| l.parse().ok()).collect();
    let verbose = a.0.get(5).is_some_and(|s| s == "verbose");
    // Earlier runs of the same process, for violations that need them.
    let earlier: Option<[u64; 4]> = (a.0.len() > 6).then(|| [6, 7, 8, 9].map(|i| a.num(i)));
    limits(if earlier.is_some() { EXEC_CPU * 6 } else { EXEC_CPU });
    watchdog();
    on_big_stack(move || {
        if let Some([seed, from, stride, upto]) = earlier {
            for idx in (from..upto).step_by(stride as usize) {
                execute(p, &mut Tape::from_seed(run_seed(seed, p.id, idx)), tier);
            }
        }
        let mut t = Tape::replay(tape);
        sim::set_verbose(verbose);
        let v = execute(p, &mut t, tier);
        report(&v, &t, verbose)
    })
}

fn report(v: &Viol, t: &Tape, verbose: bool) -> i32 {
    let mut s = String::new();
    if verbose {
        for n in sim::take_notes() {
            let _ = writeln!(s, "| {n}");
        }
    }
    let _ = writeln!(s, "history {:016x} steps {} draws {}", sim::history(), sim::steps(), t.used());
    for (c, m) in v {
        let _ = writeln!(s, "violation {c}: {}", m.replace('\n', " "));
    }
    let _ = std::io::stdout().write_all(s.as_bytes());
    i32::from(!v.is_empty())
}

/// sim seed <prop> <tier> <seed> <idx> [tape log]: one run by its seed.
fn exec_seed(a: &Args) -> i32 {
    let p = prop(a.at(2));
    let tier = Tier::of(a.at(3));
    let s = run_seed(a.num(4), p.id, a.num(5));
    let log = a.0.get(6).cloned();
    limits(EXEC_CPU);
    watchdog();
    on_big_stack(move || {
        let mut t = Tape::from_seed(s);
        if let Some(l) = log {
            t.log_to(fs::File::create(l).expect("log"));
        }
        sim::set_verbose(true);
        let v = execute(p, &mut t, tier);
        report(&v, &t, true)
    })
}

/// sim digest <prop> <tier> <seed> <from> <to>: one line per run, to compare executions.
fn digest(a: &Args) -> i32 {
    let p = prop(a.at(2));
    let tier = Tier::of(a.at(3));
    let (seed, from, to) = (a.num(4), a.num(5), a.num(6));
    on_big_stack(move || {
        for idx in from..to {
            let mut t = Tape::from_seed(run_seed(seed, p.id, idx));
            let v = execute(p, &mut t, tier);
            println!("{idx} {:016x} {} {} {:?}", sim::history(), sim::steps(), t.used(), v);
        }
        0
    })
}

/// sim miri <prop> <seed> <from> <to>: runs inside Miri.
fn miri(a: &Args) -> i32 {
    let p = prop(a.at(2));
    let (seed, from, to) = (a.num(3), a.num(4), a.num(5));
    let mut code = 0;
    // Miri's clock is virtual: this budget cuts the batch at the same run on every machine.
    let t0 = Instant::now();
    let budget = Duration::from_millis(a.num(6));
    let mut done = 0;
    for idx in from..to {
        if t0.elapsed() > budget {
            break;
        }
        done += 1;
        println!("run {idx}");
        let mut t = Tape::from_seed(run_seed(seed ^ 0x4d49_5249, p.id, idx));
        let v = execute(p, &mut t, Tier::Miri);
        for (c, m) in &v {
            println!("violation {c}: {}", m.replace('\n', " "));
            code = 1;
        }
        if code != 0 {
            break;
        }
    }
    let mut s = String::new();
    for (k, v) in sim::take_stats() {
        let _ = writeln!(s, "stat {k} {v}");
    }
    print!("{s}");
    println!("miri-virtual-ms {}", t0.elapsed().as_millis());
    println!("miri-runs {done}");
    println!("miri-done {code}");
    code
}

// ---------------------------------------------------------------- parent

struct Found {
    idx: u64,
    class: String,
    msg: String,
    tape: Vec<u64>,
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

fn cpu_ticks(pid: u32) -> u64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn stale(dir: &Path) {
    // Directories of earlier parents that were killed.
    if let Some(up) = dir.parent() {
        if let Ok(rd) = fs::read_dir(up) {
            for e in rd.flatten() {
                let n = e.file_name().to_string_lossy().into_owned();
                if let Some(pid) = n.strip_prefix("simrun.") {
                    if !Path::new(&format!("/proc/{pid}")).exists() {
                        let _ = fs::remove_dir_all(e.path());
                    }
                }
            }
        }
    }
}

fn parent(p: &'static Prop, tier: Tier, seed: u64, verif: &Path) -> i32 {
    let t0 = Instant::now();
    println!("{} {} VERIF_SEED={seed}", p.id, tier.name());
    let base = PathBuf::from(std::env::var_os("SIM_TMP").unwrap_or_else(|| "/tmp".into()));
    let dir = base.join(format!("simrun.{}", std::process::id()));
    stale(&dir);
    fs::create_dir_all(&dir).expect("run directory");
    let workers: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (count, secs) = match tier {
        Tier::Thorough => (p.thorough, 1500),
        _ => (p.quick, 100),
    };
    let count = ((count as f64 * scale) as u64).max(8);
    let until = now_ms() + secs * 1000;
    let miri = MiriStage::start(p, tier, seed, verif, &dir);
    let mut kids: Vec<Kid> = (0..workers)
        .map(|w| Kid {
            w,
            child: Command::new(exe())
                .args(["worker", p.id, tier.name()])
                .args([seed, w, workers, count, until].map(|x| x.to_string()))
                .arg(&dir)
                .arg(w.to_string())
                .stdout(Stdio::null())
                .stderr(fs::File::create(dir.join(format!("err.{w}"))).expect("err"))
                .spawn()
                .expect("worker"),
            beat: u64::MAX,
            at: Instant::now(),
            ticks: 0,
            done: None,
        })
        .collect();
    let mut found: Vec<Found> = Vec::new();
    let mut broken: Option<String> = None;
    loop {
        let mut open = 0;
        for k in &mut kids {
            if k.done.is_some() {
                continue;
            }
            match k.child.try_wait().expect("wait") {
                Some(st) => {
                    k.done = Some(st.code().unwrap_or(-1));
                    let vf = dir.join(format!("viol.{}", k.w));
                    if vf.exists() {
                        found.push(read_found(&vf));
                    } else if let Some(sig) = st.signal() {
                        let idx = heartbeat(&dir, k.w);
                        found.push(Found { idx, class: format!("crash-signal-{sig}"), msg: crash_text(&dir, k.w, sig), tape: Vec::new() });
                    } else if st.code() == Some(STUCK) {
                        let idx = heartbeat(&dir, k.w);
                        found.push(Found { idx, class: "deadlock".into(), msg: "the library blocked and nothing could ever wake it".into(), tape: Vec::new() });
                    } else if st.code() == Some(clock::OVERTIME) {
                        let idx = heartbeat(&dir, k.w);
                        found.push(Found { idx, class: "hang".into(), msg: clock::HANG.into(), tape: Vec::new() });
                    } else if st.code() != Some(0) {
                        let mut s = String::new();
                        let _ = fs::File::open(dir.join(format!("err.{}", k.w))).and_then(|mut f| {
                            let mut b = Vec::new();
                            let r = f.read_to_end(&mut b);
                            s = String::from_utf8_lossy(&b).into_owned();
                            r
                        });
                        broken = Some(format!("worker {} ended with {:?}: {}", k.w, st.code(), s.lines().last().unwrap_or("")));
                    }
                }
                None => {
                    open += 1;
                    let b = heartbeat(&dir, k.w);
                    if b != k.beat {
                        k.beat = b;
                        k.at = Instant::now();
                        k.ticks = cpu_ticks(k.child.id());
                    } else if k.at.elapsed() > Duration::from_secs(20) {
                        let cpu = (cpu_ticks(k.child.id()) - k.ticks) / 100;
                        if cpu >= EXEC_CPU + 5 || k.at.elapsed() > Duration::from_secs(400) {
                            let _ = k.child.kill();
                            let _ = k.child.wait();
                            k.done = Some(-1);
                            found.push(Found {
                                idx: b,
                                class: "hang".into(),
                                msg: format!("a run that takes milliseconds used {cpu} s of CPU without finishing"),
                                tape: Vec::new(),
                            });
                        }
                    }
                }
            }
        }
        if !found.is_empty() || broken.is_some() || open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for k in &mut kids {
        let _ = k.child.kill();
        let _ = k.child.wait();
    }
    // Violations that other workers had written meanwhile.
    for k in &kids {
        let vf = dir.join(format!("viol.{}", k.w));
        if vf.exists() && k.done.is_none() {
            found.push(read_found(&vf));
        }
    }
    found.sort_by_key(|f| f.idx);
    let native = t0.elapsed();
    let mut code = 0;
    let mut viol_lines = Vec::new();
    let mut miri_note = String::new();
    let mut miri_stats = BTreeMap::new();
    let mut miri_runs = 0;
    if let Some(f) = found.into_iter().next() {
        drop(miri);
        let path = deal_with(p, tier, seed, verif, &dir, workers, f);
        viol_lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
        code = 1;
    } else if let Some(b) = &broken {
        eprintln!("error of the check: {b}");
        code = 2;
    } else if let Some(m) = miri {
        match m.finish(if tier == Tier::Thorough { 2400 } else { 240 }) {
            MiriEnd::Clean(runs, stats) => {
                miri_runs = runs;
                miri_stats = stats;
                miri_note = "completed".to_owned();
            }
            MiriEnd::Unavailable(why) => miri_note = format!("not run: {why}"),
            MiriEnd::Bad { idx, mseed, flags, text } => {
                println!("{text}");
                let path = save_miri(p, seed, verif, idx, mseed, &flags, &text);
                viol_lines.push(format!("VIOLATION property={} replay={}", p.id, path.display()));
                code = 1;
            }
        }
    }
    evidence(p, tier, seed, verif, &dir, workers, count, native, t0.elapsed(), &viol_lines, miri_runs, &miri_stats, &miri_note);
    let _ = fs::remove_dir_all(&dir);
    for l in viol_lines {
        println!("{l}");
    }
    code
}

struct Kid {
    w: u64,
    child: Child,
    beat: u64,
    at: Instant,
    ticks: u64,
    done: Option<i32>,
}

fn heartbeat(dir: &Path, w: u64) -> u64 {
    fs::read(dir.join(format!("hb.{w}"))).ok().and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))).unwrap_or(u64::MAX)
}

fn read_found(f: &Path) -> Found {
    let s = read_text(f).expect("viol");
    let mut l = s.lines();
    let idx = l.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let class = l.next().unwrap_or("").to_owned();
    let msg = l.next().unwrap_or("").to_owned();
    Found { idx, class, msg, tape: l.filter_map(|x| x.parse().ok()).collect() }
}

fn crash_text(dir: &Path, w: u64, sig: i32) -> String {
    let s = read_text(dir.join(format!("err.{w}"))).unwrap_or_default();
    let l = s.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("");
    format!("the process died of signal {sig} inside the library ({l})")
}

/// Earlier runs (seed, from, stride, up to) that a violation needs in the same process.
static EARLIER: std::sync::Mutex<Option<[u64; 4]>> = std::sync::Mutex::new(None);

fn exec_cmd(p: &Prop, tier: Tier, f: &Path, verbose: bool) -> Command {
    let mut c = Command::new(exe());
    c.args(["exec", p.id, tier.name()]).arg(f).arg(if verbose { "verbose" } else { "plain" });
    if let Some(e) = *EARLIER.lock().unwrap() {
        c.args(e.map(|x| x.to_string()));
    }
    c
}

/// What one tape does, in a process of its own.
fn probe(p: &Prop, tier: Tier, dir: &Path, slot: usize, tape: &[u64]) -> Probing {
    let f = dir.join(format!("cand.{slot}"));
    let mut s = String::new();
    for c in tape {
        let _ = writeln!(s, "{c}");
    }
    fs::write(&f, s).expect("cand");
    let child = exec_cmd(p, tier, &f, false)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("exec");
    Probing { child }
}
struct Probing {
    child: Child,
}
struct Verdict {
    class: Option<String>,
    msg: String,
    history: String,
    draws: usize,
}
impl Probing {
    fn get(self) -> Verdict {
        let o = self.child.wait_with_output().expect("exec");
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let mut v = Verdict { class: None, msg: String::new(), history: String::new(), draws: usize::MAX };
        for l in out.lines() {
            if let Some(r) = l.strip_prefix("history ") {
                let f: Vec<&str> = r.split(' ').collect();
                v.history = f[0].to_owned();
                v.draws = f.get(4).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            } else if let Some(r) = l.strip_prefix("violation ") {
                if v.class.is_none() {
                    let (c, m) = r.split_once(": ").unwrap_or((r, ""));
                    v.class = Some(c.to_owned());
                    v.msg = m.to_owned();
                }
            }
        }
        if let Some(s) = o.status.signal() {
            v.class = Some(if s == 24 || s == 9 { "hang".to_owned() } else { format!("crash-signal-{s}") });
            v.msg = format!("the process died of signal {s}");
        }
        v
    }
}

/// Shorten the tape while the same class of violation remains.
fn minimise(p: &Prop, tier: Tier, dir: &Path, class: &str, mut tape: Vec<u64>, budget: Duration) -> (Vec<u64>, usize) {
    let t0 = Instant::now();
    let mut tried = 0;
    let par = 8;
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // Candidates from coarse to fine: drop a piece, zero a piece, lower one number.
        let mut piece = tape.len().max(1);
        loop {
            piece = piece.div_ceil(2);
            for kind in 0..2 {
                let mut at = 0;
                while at < tape.len() && t0.elapsed() < budget {
                    let mut batch: Vec<Vec<u64>> = Vec::new();
                    let mut pos = Vec::new();
                    let mut q = at;
                    while batch.len() < par && q < tape.len() {
                        let end = (q + piece).min(tape.len());
                        let mut c = tape.clone();
                        if kind == 0 {
                            c.drain(q..end);
                        } else if c[q..end].iter().all(|&x| x == 0) {
                            q = end;
                            continue;
                        } else {
                            c[q..end].fill(0);
                        }
                        pos.push(q);
                        batch.push(c);
                        q = end;
                    }
                    if batch.is_empty() {
                        break;
                    }
                    let ps: Vec<Probing> = batch.iter().enumerate().map(|(i, c)| probe(p, tier, dir, i, c)).collect();
                    tried += ps.len();
                    let vs: Vec<Verdict> = ps.into_iter().map(Probing::get).collect();
                    if let Some(i) = vs.iter().position(|v| v.class.as_deref() == Some(class)) {
                        let mut c = batch.swap_remove(i);
                        c.truncate(vs[i].draws);
                        improved = true;
                        at = if kind == 0 { pos[i] } else { pos[i] + piece };
                        tape = c;
                        while tape.last() == Some(&0) {
                            tape.pop();
                        }
                    } else {
                        at = q;
                    }
                }
            }
            if piece <= 1 {
                break;
            }
        }
        let mut i = 0;
        while i < tape.len() && t0.elapsed() < budget {
            let v = tape[i];
            let mut cands: Vec<u64> = vec![v / 2, v.saturating_sub(1), v / 16, 1, 2];
            cands.retain(|&x| x < v);
            cands.dedup();
            if cands.is_empty() {
                i += 1;
                continue;
            }
            let ps: Vec<Probing> = cands
                .iter()
                .enumerate()
                .map(|(s, &x)| {
                    let mut c = tape.clone();
                    c[i] = x;
                    probe(p, tier, dir, s, &c)
                })
                .collect();
            tried += ps.len();
            let vs: Vec<Verdict> = ps.into_iter().map(Probing::get).collect();
            let best = vs.iter().zip(&cands).filter(|(v, _)| v.class.as_deref() == Some(class)).map(|(_, &x)| x).min();
            match best {
                Some(x) => {
                    tape[i] = x;
                    improved = true;
                }
                None => i += 1,
            }
        }
    }
    (tape, tried)
}

fn deal_with(p: &'static Prop, tier: Tier, seed: u64, verif: &Path, dir: &Path, stride: u64, mut f: Found) -> PathBuf {
    println!("violation in run {} (seed {seed}): {}: {}", f.idx, f.class, f.msg);
    if f.tape.is_empty() {
        // The process died: run it again with the tape written through.
        let log = dir.join("tape.log");
        let st = Command::new(exe())
            .args(["seed", p.id, tier.name(), &seed.to_string(), &f.idx.to_string()])
            .arg(&log)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        let b = fs::read(&log).unwrap_or_default();
        f.tape = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        println!("run again alone: {st:?}, {} choices", f.tape.len());
    }
    let mut first = probe(p, tier, dir, 0, &f.tape).get();
    if first.class.as_deref() != Some(f.class.as_str()) {
        // Not on its own: state left behind by earlier runs of that process. Find how many are needed.
        let (start, t0) = (f.idx % stride, Instant::now());
        let mut k = 1;
        while t0.elapsed() < Duration::from_secs(100) {
            let from = f.idx.saturating_sub(k * stride).max(start);
            *EARLIER.lock().unwrap() = Some([seed, from, stride, f.idx]);
            let v = probe(p, tier, dir, 0, &f.tape).get();
            if v.class.as_deref() == Some(f.class.as_str()) {
                println!("needs {} earlier runs of the same process", (f.idx - from) / stride);
                first = v;
                break;
            }
            *EARLIER.lock().unwrap() = None;
            if from == start {
                break;
            }
            k *= 2;
        }
    }
    let full = f.tape.len();
    let (tape, tried) = if first.class.as_deref() == Some(f.class.as_str()) {
        let budget = if f.class == "hang" || f.class == "deadlock" { 0 } else { 25 };
        minimise(p, tier, dir, &f.class, f.tape, Duration::from_secs(budget))
    } else {
        println!("note: run on its own the tape gives {:?}", first.class);
        (f.tape, 0)
    };
    let fin = probe(p, tier, dir, 0, &tape).get();
    println!("minimised from {full} to {} choices in {tried} executions: {:?}: {}", tape.len(), fin.class, fin.msg);
    // The story, for the reader.
    let cand = dir.join("cand.0");
    let story = exec_cmd(p, tier, &cand, true)
        .stderr(Stdio::null())
        .output()
        .map(|o| String::from_utf8_lossy(&o.stdout).into_owned())
        .unwrap_or_default();
    let rd = verif.join("replays");
    let _ = fs::create_dir_all(&rd);
    let path = rd.join(format!("{}-{}-{}-{}.replay", p.id, tier.name(), seed, f.idx));
    let mut s = String::new();
    let _ = writeln!(s, "# replay with: /verif/check.sh replay {}", path.display());
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "tier {}", tier.name());
    let _ = writeln!(s, "seed {seed}");
    let _ = writeln!(s, "run {}", f.idx);
    if let Some(e) = *EARLIER.lock().unwrap() {
        let _ = writeln!(s, "earlier {}", e.map(|x| x.to_string()).join(" "));
    }
    let _ = writeln!(s, "class {}", fin.class.as_deref().unwrap_or(&f.class));
    let _ = writeln!(s, "history {}", fin.history);
    let _ = writeln!(s, "message {}", if fin.msg.is_empty() { &f.msg } else { &fin.msg });
    let _ = writeln!(s, "tape {}", tape.iter().map(u64::to_string).collect::<Vec<_>>().join(" "));
    for l in story.lines() {
        let _ = writeln!(s, "# {l}");
    }
    fs::write(&path, s).expect("replay file");
    path
}

fn field<'a>(s: &'a str, k: &str) -> &'a str {
    s.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).unwrap_or("")
}

/// sim replay <file>: exit 1 if it reproduces exactly, 0 if the violation is gone.
fn replay(path: &Path) -> i32 {
    let s = read_text(path).expect("replay file");
    let p = prop(field(&s, "property"));
    if !field(&s, "miri").is_empty() {
        return replay_miri(p, &s, path);
    }
    let tier = Tier::of(field(&s, "tier"));
    let tape: Vec<u64> = field(&s, "tape").split(' ').filter_map(|x| x.parse().ok()).collect();
    let base = PathBuf::from(std::env::var_os("SIM_TMP").unwrap_or_else(|| "/tmp".into()));
    let dir = base.join(format!("simrun.{}", std::process::id()));
    fs::create_dir_all(&dir).expect("run directory");
    let e: Vec<u64> = field(&s, "earlier").split(' ').filter_map(|x| x.parse().ok()).collect();
    *EARLIER.lock().unwrap() = e.try_into().ok();
    let v = probe(p, tier, &dir, 0, &tape).get();
    let out = exec_cmd(p, tier, &dir.join("cand.0"), true).output().expect("exec");
    print!("{}", String::from_utf8_lossy(&out.stdout));
    let _ = fs::remove_dir_all(&dir);
    match v.class {
        Some(c) => {
            let exact = c == field(&s, "class") && v.history == field(&s, "history");
            println!("{}", if exact { "reproduced exactly" } else { "violated, but not in the recorded way" });
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

// ---------------------------------------------------------------- Miri: the same runs on a simulated machine

struct MiriStage {
    jobs: Vec<MiriJob>,
}
struct MiriJob {
    child: Child,
    out: PathBuf,
    err: PathBuf,
    from: u64,
    mseed: u64,
    flags: String,
}
enum MiriEnd {
    Clean(u64, BTreeMap<String, u64>),
    Unavailable(String),
    Bad { idx: u64, mseed: u64, flags: String, text: String },
}

fn miri_cmd(verif: &Path, flags: &str, p: &Prop, seed: u64, from: u64, to: u64, budget: u64) -> Command {
    let mut c = Command::new("cargo");
    c.arg("miri").args(["run", "--offline", "--quiet", "--manifest-path"]).arg(verif.join("sim/Cargo.toml"));
    c.arg("--target-dir").arg(std::env::var("SIM_MIRI_TARGET").unwrap_or_default());
    c.arg("--").args(["miri", p.id]).args([seed, from, to, budget].map(|x| x.to_string()));
    c.env("MIRIFLAGS", flags);
    c.env("RUSTUP_TOOLCHAIN", "nightly-x86_64-unknown-linux-gnu");
    c
}

impl MiriStage {
    fn start(p: &'static Prop, tier: Tier, seed: u64, verif: &Path, dir: &Path) -> Option<MiriStage> {
        if !p.miri || std::env::var_os("SIM_MIRI_TARGET").is_none() {
            return None;
        }
        // Each job starts runs until its budget of virtual milliseconds is used up.
        let (jobs, budget) = if tier == Tier::Thorough { (8, 600_000) } else { (6, 20_000) };
        let jobs = (0..jobs)
            .map(|j| {
                let (from, to) = (j * 10_000, (j + 1) * 10_000);
                let mseed = seed.wrapping_mul(16).wrapping_add(j) & 0xffff;
                let mut flags = format!("-Zmiri-seed={mseed} -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.02");
                if j % 2 == 1 {
                    flags.push_str(" -Zmiri-tree-borrows");
                }
                let (out, err) = (dir.join(format!("miri.{j}.out")), dir.join(format!("miri.{j}.err")));
                let child = miri_cmd(verif, &flags, p, seed, from, to, budget)
                    .stdout(fs::File::create(&out).expect("out"))
                    .stderr(fs::File::create(&err).expect("err"))
                    .spawn();
                child.map(|child| MiriJob { child, out, err, from, mseed, flags })
            })
            .filter_map(Result::ok)
            .collect();
        Some(MiriStage { jobs })
    }
    fn finish(mut self, limit: u64) -> MiriEnd {
        let mut stats = BTreeMap::new();
        let mut runs = 0;
        let mut unavailable = None;
        if self.jobs.is_empty() {
            return MiriEnd::Unavailable("cargo miri could not be started".into());
        }
        let deadline = Instant::now() + Duration::from_secs(limit);
        for j in &mut self.jobs {
            let st = loop {
                if let Some(st) = j.child.try_wait().expect("wait") {
                    break Some(st);
                }
                if Instant::now() > deadline {
                    let _ = j.child.kill();
                    let _ = j.child.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(50));
            };
            let out = read_text(&j.out).unwrap_or_default();
            let err = read_text(&j.err).unwrap_or_default();
            let idx = out.lines().filter_map(|l| l.strip_prefix("run ")).filter_map(|x| x.parse().ok()).last().unwrap_or(j.from);
            let judged = err.contains("Undefined Behavior") || out.lines().any(|l| l.starts_with("violation "));
            if judged {
                let text: Vec<&str> = out
                    .lines()
                    .filter(|l| l.starts_with("violation "))
                    .chain(err.lines().skip_while(|l| !l.contains("Undefined Behavior")).take(40))
                    .collect();
                return MiriEnd::Bad { idx, mseed: j.mseed, flags: j.flags.clone(), text: text.join("\n") };
            }
            if out.contains("miri-done 0") {
                runs += out.lines().find_map(|l| l.strip_prefix("miri-runs ")).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                for l in out.lines() {
                    if let Some((k, v)) = l.strip_prefix("stat ").and_then(|r| r.rsplit_once(' ')) {
                        *stats.entry(k.to_owned()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                    }
                }
            } else {
                unavailable = Some(match st {
                    None => "time limit".to_owned(),
                    Some(s) => format!("{s}: {}", err.lines().filter(|l| l.contains("error")).next().unwrap_or(err.lines().last().unwrap_or(""))),
                });
            }
        }
        match unavailable {
            Some(u) if runs == 0 => MiriEnd::Unavailable(u),
            _ => MiriEnd::Clean(runs, stats),
        }
    }
}
impl Drop for MiriStage {
    fn drop(&mut self) {
        for j in &mut self.jobs {
            let _ = j.child.kill();
            let _ = j.child.wait();
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn save_miri(p: &Prop, seed: u64, verif: &Path, idx: u64, mseed: u64, flags: &str, text: &str) -> PathBuf {
    let rd = verif.join("replays");
    let _ = fs::create_dir_all(&rd);
    let path = rd.join(format!("{}-miri-{}-{}.replay", p.id, seed, idx));
    let mut s = String::new();
    let _ = writeln!(s, "# replay with: /verif/check.sh replay {}", path.display());
    let _ = writeln!(s, "property {}", p.id);
    let _ = writeln!(s, "miri {flags}");
    let _ = writeln!(s, "mseed {mseed}");
    let _ = writeln!(s, "seed {seed}");
    let _ = writeln!(s, "run {idx}");
    for l in text.lines() {
        let _ = writeln!(s, "# {l}");
    }
    fs::write(&path, s).expect("replay file");
    path
}

fn replay_miri(p: &Prop, s: &str, path: &Path) -> i32 {
    let verif = path.parent().and_then(Path::parent).unwrap_or(Path::new("/verif"));
    let seed = field(s, "seed").parse().unwrap_or(0);
    let idx: u64 = field(s, "run").parse().unwrap_or(0);
    let o = miri_cmd(verif, field(s, "miri"), p, seed, idx, idx + 1, u64::MAX).output().expect("miri");
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    print!("{out}");
    if err.contains("Undefined Behavior") || out.lines().any(|l| l.starts_with("violation ")) {
        println!("{err}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    } else {
        println!("not reproduced");
        0
    }
}

// ---------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    tier: Tier,
    seed: u64,
    verif: &Path,
    dir: &Path,
    workers: u64,
    planned: u64,
    native: Duration,
    wall: Duration,
    viol: &[String],
    miri_runs: u64,
    miri_stats: &BTreeMap<String, u64>,
    miri_note: &str,
) {
    let mut st: BTreeMap<String, u64> = BTreeMap::new();
    let mut hist: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    for w in 0..workers {
        for l in read_text(dir.join(format!("stats.{w}"))).unwrap_or_default().lines() {
            if let Some((k, v)) = l.rsplit_once(' ') {
                let v: u64 = v.parse().unwrap_or(0);
                let e = st.entry(k.to_owned()).or_insert(0);
                if k.starts_with("max.") {
                    *e = (*e).max(v);
                } else {
                    *e += v;
                }
            }
        }
        for c in fs::read(dir.join(format!("hist.{w}"))).unwrap_or_default().chunks_exact(8) {
            hist.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
        samples.extend(read_text(dir.join(format!("samples.{w}"))).unwrap_or_default().lines().map(str::to_owned));
    }
    samples.truncate(4);
    let get = |k: &str| st.get(k).copied().unwrap_or(0);
    let runs = get("runs");
    let secs = native.as_secs_f64().max(0.001);
    let per_hour = (runs as f64 / secs * 3600.0) as u64;
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"property\": {},", js(p.id));
    let _ = writeln!(o, " \"tier\": {},", js(tier.name()));
    let _ = writeln!(o, " \"seed\": {seed},");
    let _ = writeln!(o, " \"level\": {},", js(p.level));
    let _ = writeln!(o, " \"coverage\": {{");
    let _ = writeln!(o, "  \"evaluations\": {},", get("calls").max(runs));
    let _ = writeln!(o, "  \"distinct_nontrivial\": {},", hist.len());
    let _ = writeln!(o, "  \"rule\": {},", js(&format!("evaluations = library calls executed under the simulator; {}", p.rule)));
    let _ = writeln!(o, "  \"samples\": [{}],", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "  \"exhaustive\": false,");
    let _ = writeln!(o, "  \"simulated_runs\": {runs},");
    let _ = writeln!(o, "  \"simulated_runs_planned\": {planned},");
    let _ = writeln!(o, "  \"nontrivial_runs\": {},", get("nontrivial"));
    let _ = writeln!(o, "  \"runs_per_hour\": {per_hour},");
    let _ = writeln!(o, "  \"seeds_per_hour\": {per_hour},");
    let _ = writeln!(o, "  \"worker_processes\": {workers},");
    let _ = writeln!(o, "  \"simulated_time\": {{\"participant_steps\": {}, \"network_ticks\": {}, \"clock_ns\": {}}},", get("steps"), get("sim.ticks"), get("sim.clock_ns"));
    let list = |f: &dyn Fn(&str) -> Option<String>| {
        st.iter().filter_map(|(k, v)| f(k).map(|n| format!("{}: {v}", js(&n)))).collect::<Vec<_>>().join(", ")
    };
    let _ = writeln!(o, "  \"faults_injected\": {{{}}},", list(&|k| k.strip_prefix("fault.").map(str::to_owned)));
    let _ = writeln!(
        o,
        "  \"probes\": {{{}}},",
        list(&|k| (!k.starts_with("fault.") && !["calls", "runs", "steps", "nontrivial"].contains(&k)).then(|| k.to_owned()))
    );
    if p.miri {
        let f = miri_stats.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| format!("{}: {v}", js(&k[6..]))).collect::<Vec<_>>().join(", ");
        let _ = writeln!(o, "  \"miri\": {{\"runs\": {miri_runs}, \"status\": {}, \"faults_injected\": {{{f}}}}},", js(miri_note));
    }
    let _ = writeln!(o, "  \"real_components\": {},", js(p.real));
    let _ = writeln!(o, "  \"simulated_components\": {}", js(p.stub));
    let _ = writeln!(o, " }},");
    let _ = writeln!(
        o,
        " \"assumptions\": [{}],",
        [
            "the sampled workloads stand for all workloads; a clean batch is evidence, not proof",
            "the reference models in /verif/sim/src (refjson.rs, zoo.rs) are right",
            "std collections and the Rust nightly compiler behave as documented",
        ]
        .iter()
        .map(|s| js(s))
        .collect::<Vec<_>>()
        .join(", ")
    );
    let _ = writeln!(o, " \"wall_s\": {:.2},", wall.as_secs_f64());
    let _ = writeln!(o, " \"violations\": {}", viol.len());
    o.push_str("}\n");
    let ed = verif.join("evidence");
    let _ = fs::create_dir_all(&ed);
    let _ = fs::write(ed.join(format!("{}.json", p.id)), o);
    println!(
        "{}: {runs} runs ({} calls, {} steps, {} distinct histories) in {:.1} s, {} of them under Miri{}",
        p.id,
        get("calls"),
        get("steps"),
        hist.len(),
        wall.as_secs_f64(),
        miri_runs,
        if miri_note.is_empty() { String::new() } else { format!(" ({miri_note})") }
    );
}
