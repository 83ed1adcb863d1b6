//! Threads whose interleaving the simulator decides: exactly one runs at any time, and which one
//! is drawn from the tape at every yield point (participant callbacks and library allocations).

use crate::{clock, sim};
use crate::tape::Tape;
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct State {
    cur: usize,
    alive: Vec<bool>,
    tape: Option<Tape>,
    switch_num: u64,
    switches: u64,
    yields: u64,
    /// Mean distance between two preemptions inside the library, in basic blocks and memory
    /// accesses (only in the build with feature `preempt`; 0 = none).
    mean: u64,
    preemptions: u64,
    /// Threads that the library itself blocked (on a lock held by a preempted thread).
    blocked: Vec<bool>,
}
static ST: Mutex<State> = Mutex::new(State { cur: 0, alive: Vec::new(), tape: None, switch_num: 0, switches: 0, yields: 0, mean: 0, preemptions: 0, blocked: Vec::new() });
static CV: [Condvar; 8] = [const { Condvar::new() }; 8];

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn lock() -> std::sync::MutexGuard<'static, State> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn yield_point() {
    let me = ME.with(Cell::get);
    if me == usize::MAX {
        return;
    }
    let mut s = lock();
    s.yields += 1;
    if s.yields > 20_000 {
        return; // enough preemption for one run; let it finish
    }
    let others: usize = s.alive.iter().enumerate().filter(|&(i, &a)| a && i != me).count();
    if others == 0 {
        return;
    }
    if s.cur != me {
        drop(wait_turn(s, me));
        return;
    }
    let num = s.switch_num;
    let t = s.tape.as_mut().unwrap();
    if !t.chance(num, 64) {
        return;
    }
    let k = t.below(others);
    let next = s.alive.iter().enumerate().filter(|&(i, &a)| a && i != me).nth(k).unwrap().0;
    s.cur = next;
    s.switches += 1;
    sim::observe(1000 + next as u64);
    CV[next].notify_one();
    drop(wait_turn(s, me));
}

/// The baton's holder has executed as many steps of the library as it was given: another thread
/// goes on, with a budget of its own.
pub fn preempt() {
    let me = ME.with(Cell::get);
    if me == usize::MAX {
        clock::gap(u64::MAX >> 1);
        return;
    }
    let mut s = lock();
    if s.cur != me {
        drop(wait_turn(s, me));
        return;
    }
    let others = s.alive.iter().enumerate().filter(|&(i, &a)| a && i != me).count();
    s.preemptions += 1;
    if others == 0 || s.preemptions > 4000 || s.mean == 0 {
        clock::gap(u64::MAX >> 1);
        return;
    }
    s.yields += 1;
    let mean = s.mean;
    let t = s.tape.as_mut().unwrap();
    // Mostly short stretches in a row, or one long one.
    let gap = if t.chance(1, 4) { 1 + t.draw(4) } else { 1 + t.draw(2 * mean) };
    let k = t.below(others);
    clock::gap(gap);
    let next = s.alive.iter().enumerate().filter(|&(i, &a)| a && i != me).nth(k).unwrap().0;
    s.cur = next;
    s.switches += 1;
    sim::observe(2000 + next as u64);
    CV[next].notify_one();
    drop(wait_turn(s, me));
}

/// Wait for the baton. If its holder makes no progress at all for two seconds, the library has
/// blocked it on something a preempted thread holds: the next thread takes over.
fn wait_turn(mut s: MutexGuard<'static, State>, me: usize) -> MutexGuard<'static, State> {
    let mut seen = (usize::MAX, 0);
    let mut still = 0;
    s.blocked[me] = false;
    while s.cur != me {
        if cfg!(miri) {
            s = CV[me].wait(s).unwrap_or_else(|e| e.into_inner());
            continue;
        }
        let (g, to) = CV[me].wait_timeout(s, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner());
        s = g;
        if s.cur == me || !to.timed_out() || s.cur == usize::MAX {
            continue;
        }
        still = if seen == (s.cur, s.yields) { still + 1 } else { 0 };
        seen = (s.cur, s.yields);
        let cur = s.cur;
        if still >= 4 {
            s.blocked[cur] = true;
            s.cur = me;
            sim::stat("sched.library-blocked", 1);
        }
    }
    s
}

/// Lets a task draw from the run's tape.
pub fn with_tape<R>(f: impl FnOnce(&mut Tape) -> R) -> R {
    let mut s = lock();
    f(s.tape.as_mut().expect("no tape"))
}

/// Run the tasks to completion under the tape's schedule. `switch_num`/64 is the chance to switch
/// at a yield point, `mean` the mean number of steps between two preemptions anywhere in the library
/// (0 = none). Returns the number of context switches.
pub fn run(tape: &mut Tape, switch_num: u64, mean: u64, tasks: Vec<Box<dyn FnOnce() + Send>>) -> u64 {
    let n = tasks.len();
    assert!(n <= CV.len());
    {
        let mut s = lock();
        s.alive = vec![true; n];
        s.blocked = vec![false; n];
        s.switch_num = switch_num;
        s.switches = 0;
        s.yields = 0;
        s.mean = mean;
        s.preemptions = 0;
        clock::gap(if mean == 0 { u64::MAX >> 1 } else { 1 + tape.draw(2 * mean) });
        s.tape = Some(std::mem::replace(tape, Tape::replay(Vec::new())));
        let first = s.tape.as_mut().unwrap().below(n);
        s.cur = usize::MAX; // nobody yet
        drop(s);
        let mut hs = Vec::new();
        for (i, task) in tasks.into_iter().enumerate() {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn(move || {
                        ME.with(|m| m.set(i));
                        {
                            drop(wait_turn(lock(), i));
                        }
                        sim::set_yield(true);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(task));
                        sim::set_yield(false);
                        if r.is_err() {
                            sim::violation("harness-panic", "a simulated caller died outside the library");
                        }
                        ME.with(|m| m.set(usize::MAX));
                        let mut s = lock();
                        s.alive[i] = false;
                        let others = s.alive.iter().filter(|&&a| a).count();
                        if others > 0 && s.cur == i {
                            let k = s.tape.as_mut().unwrap().below(others);
                            let next = s.alive.iter().enumerate().filter(|&(_, &a)| a).nth(k).unwrap().0;
                            s.cur = next;
                            CV[next].notify_one();
                        }
                    })
                    .expect("spawn"),
            );
        }
        let mut s = lock();
        s.cur = first;
        CV[first].notify_one();
        drop(s);
        for h in hs {
            let _ = h.join();
        }
    }
    let mut s = lock();
    sim::stat("sched.preemptions-inside-the-library", s.preemptions);
    *tape = s.tape.take().unwrap();
    s.switches
}
