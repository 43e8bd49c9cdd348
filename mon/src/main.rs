//! Monitors for the library (C01-C21, C30-C33, C35-C37); see harness.rs for the command line.
mod alloc;
mod cli;
mod gram;
mod harness;
mod known;
mod more;
mod phases;
mod props;
mod refm;
mod rng;
mod stream;
mod sut;

pub use harness::{esc, fail, Ctx, Fail, Res};

static KIT: harness::Kit = harness::Kit {
    all: props::ALL,
    known: known::show,
    budget: props::BUDGET,
    set_budget: sut::set_budget,
    used: sut::used,
    is_budget: |p| p.downcast_ref::<sut::BudgetOut>().is_some(),
    judges: &["src/props.rs", "src/sut.rs", "src/cli.rs", "src/more.rs", "src/stream.rs", "src/phases.rs"],
};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    harness::main(&KIT);
}
