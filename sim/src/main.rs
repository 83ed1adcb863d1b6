//! Deterministic simulation of the real miniserde. See /verif/DESIGN.md.
#![feature(alloc_error_hook, thread_local)]
#![allow(dead_code)]

mod alloc;
mod bare;
mod clock;
mod damage;
mod driver;
mod exec;
mod net;
mod part;
mod refjson;
mod sc_bounds;
mod sc_conc;
mod sc_fault;
mod sc_fmt;
mod sc_peer;
mod sc_stack;
mod sc_text;
mod sc_value;
mod sched;
mod sim;
mod snode;
mod tape;
mod vast;
mod zoo;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    Miri,
}

impl Tier {
    /// A size by tier.
    pub fn pick(self, quick: usize, thorough: usize, miri: usize) -> usize {
        match self {
            _ if cfg!(miri) => miri,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
            Tier::Miri => miri,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
            Tier::Miri => "miri",
        }
    }
    pub fn of(s: &str) -> Tier {
        match s {
            "thorough" => Tier::Thorough,
            "miri" => Tier::Miri,
            _ => Tier::Quick,
        }
    }
}

fn main() {
    sim::install_hooks();
    std::process::exit(driver::main());
}
