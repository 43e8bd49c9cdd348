//! Monitors for the grammar language and its tool (C22-C31, C34, C35).
#[path = "../../mon/src/alloc.rs"]
mod alloc;
mod batch;
mod expand;
mod gen;
#[allow(dead_code)]
#[path = "../../mon/src/gram.rs"]
mod gram;
#[path = "../../mon/src/harness.rs"]
mod harness;
mod lex;
mod more;
mod par;
mod props;
#[allow(dead_code)]
#[path = "../../mon/src/refm.rs"]
mod refm;
#[path = "../../mon/src/rng.rs"]
mod rng;

pub use harness::{fail, Ctx, Fail, Res};

static KIT: harness::Kit = harness::Kit {
    all: props::ALL,
    known: |_, _| None,
    budget: u64::MAX,
    set_budget: |_| {},
    used: || 0,
    is_budget: |_| false,
    judges: &["src/props.rs", "src/more.rs"],
};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    harness::main(&KIT);
}
