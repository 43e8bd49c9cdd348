//! One function per property: builds a workload case, runs the code under test and judges it.
use std::rc::Rc;
use crate::gram::{generate, Mix, Sym, G, MIX, MIX_LR, MIX_RAW};
use crate::refm::{self, Auto, Ref};
use crate::sut::{self, *};
use crate::harness::CaseFn;
use crate::rng::{fnv, Rng};
use crate::{fail, Ctx, Res};
use lrp::{Action, Clr, Dfa, Error, Grammar, Lalr, Parser, Position, Set, Slr, Span, State, Tabler, Token};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};


/// Symbol operations (comparisons and clones) a case may use. The largest case seen on the
/// unchanged tree needs less than a sixth of it.
pub const BUDGET: u64 = 4_000_000_000;

pub const ALL: &[(&str, CaseFn)] = &[
    ("C01", |c| language(c, Kind::Clr)),
    ("C02", |c| language(c, Kind::Lalr)),
    ("C03", |c| language(c, Kind::Slr)),
    ("C04", |c| tables(c, Kind::Clr)),
    ("C05", |c| tables(c, Kind::Lalr)),
    ("C06", |c| tables(c, Kind::Slr)),
    ("C07", firsts),
    ("C08", follows),
    ("C09", conflicts_surface),
    ("C10", derivations),
    ("C11", error_reports),
    ("C12", totality),
    ("C13", trace_invariants),
    ("C14", reuse),
    ("C15", reduce_equals),
    ("C16", symbol_types),
    ("C17", classification),
    ("C18", forks),
    ("C19", introspection),
    ("C20", item_sets),
    ("C21", crate::cli::check),
    ("C30", crate::more::memory),
    ("C31", crate::more::kept),
    ("C32", crate::more::shown),
    ("C33", crate::more::entries),
    ("C35", crate::stream::lazy),
    ("C36", crate::stream::linear),
    ("C37", crate::phases::stages),
];

/// Largest canonical collection a case is built for.
pub const CAP: usize = 900;

macro_rules! with_parser {
    ($kind:expr, $g:expr, $m:ty, $p:ident => $body:expr) => {
        match $kind {
            Kind::Clr => {
                let $p = Clr::<$m>::new(sut::grammar::<$m>($g));
                $body
            }
            Kind::Lalr => {
                let $p = Lalr::<$m>::new(sut::grammar::<$m>($g));
                $body
            }
            Kind::Slr => {
                let $p = Slr::<$m>::new(sut::grammar::<$m>($g));
                $body
            }
        }
    };
}
pub(crate) use with_parser;

pub fn note(ctx: &mut Ctx, g: &G) {
    ctx.on("grammar", g.show());
    ctx.on("symbol order", g.show_order());
    ctx.on("family", g.family.to_string());
}

pub fn pick(ctx: &mut Ctx, mix: Mix) -> G {
    let mut rng = ctx.rng.clone();
    let g = loop {
        let g = generate(&mut rng, mix);
        // the interpreter is some thousand times slower
        if g.n_prods() <= if cfg!(miri) { 4 } else { MAX_PRODS } {
            break g;
        }
    };
    ctx.rng = rng;
    note(ctx, &g);
    g
}

/// Now and then one with hundreds of rules in a row, for what needs no table of actions.
pub fn pick_vast(ctx: &mut Ctx, mix: Mix) -> G {
    if cfg!(miri) || !ctx.rng.chance(1, 3000) {
        return pick(ctx, mix);
    }
    let g = crate::gram::vast(&mut ctx.rng);
    note(ctx, &g);
    ctx.count("long_chains_of_rules", 1);
    g
}

fn auto_of(r: &Ref, k: Kind) -> Option<Auto> {
    match k {
        Kind::Clr => r.lr1(CAP),
        Kind::Lalr => Some(r.lalr()),
        Kind::Slr => Some(r.slr()),
    }
}

/// The reference for grammars whose canonical collection is small enough to be worth building.
fn sized(r: &Ref, k: Kind) -> Option<Auto> {
    r.lr1(CAP)?;
    auto_of(r, k)
}

/// SLR and LALR tables of a grammar with A =>+ A can repeat that reduction for ever on an input the
/// grammar rejects: FOLLOW, or the lookaheads merged from several contexts, do not see that nothing
/// can come of it. Such grammars are ambiguous, their tables are compared (C05, C06) but not run.
/// (Exact lookaheads meet a conflict instead: wherever the rule can be left, that competes.)
pub fn endless(k: Kind, g: &G) -> bool {
    k != Kind::Clr && g.is_cyclic()
}

pub fn whash(g: &G, w: &[Sym]) -> u64 {
    let mut b: Vec<u8> = g.hash().to_le_bytes().to_vec();
    for s in w {
        b.extend_from_slice(&s.to_le_bytes());
    }
    fnv(&b)
}

/// A conflict-free grammar for `k`; None when the generated one is not.
fn lr_case(ctx: &mut Ctx, k: Kind, mix: Mix) -> Option<G> {
    for _ in 0..12 {
        let g = pick(ctx, mix);
        let ok = {
            let r = Ref::new(&g);
            match sized(&r, k) {
                None => {
                    ctx.count("skipped_large_or_cyclic", 1);
                    false
                }
                Some(a) if a.conflicts() > 0 => {
                    ctx.count("skipped_conflicting", 1);
                    false
                }
                Some(_) => true,
            }
        };
        if ok {
            ctx.count("grammars", 1);
            ctx.max("max_productions", g.n_prods() as u64);
            return Some(g);
        }
    }
    None
}

pub fn words_for(ctx: &mut Ctx, g: &G) -> Vec<Vec<Sym>> {
    let mut rng = ctx.rng.clone();
    let big = rng.chance(1, 12);
    let n = if ctx.thorough { 14 } else { 8 };
    let huge = rng.chance(1, 60);
    let size = if huge { 2000 } else if big { 400 } else { rng.range(4, 40) };
    let n = if huge || big { 3 } else { n };
    let v = g.words(&mut rng, n, size);
    ctx.rng = rng;
    let mut v = v;
    if huge {
        let mut rng = ctx.rng.clone();
        let size = *rng.pick(&[700, 2500, 6000]);
        longer(ctx, &mut rng, g, &mut v, size);
        ctx.rng = rng;
    }
    v
}

/// A sentence of about `size` tokens if the grammar has one, and the same with something wrong.
pub fn longer(ctx: &mut Ctx, rng: &mut Rng, g: &G, words: &mut Vec<Vec<Sym>>, size: usize) {
    if let Some(w) = g.long_sentence(rng, size) {
        ctx.max("max_tokens_of_an_input", w.len() as u64);
        words.push(g.mutate_word(&w, rng));
        words.push(w);
    }
}

/// Words with rule names, end markers and symbols the grammar does not know among the terminals.
pub fn strange_words(ctx: &mut Ctx, g: &G, words: &mut Vec<Vec<Sym>>) {
    let mut rng = ctx.rng.clone();
    for _ in 0..4 {
        let Some(w) = g.sentence(&mut rng, 12) else { break };
        let all = g.nn + g.nt + 4;
        let mut a = w.clone();
        a.insert(rng.below(w.len() + 1), rng.below(all) as Sym);
        words.push(a);
        if !w.is_empty() {
            let mut a = w.clone();
            let i = rng.below(w.len());
            a[i] = rng.below(g.nn) as Sym;
            words.push(a);
        }
        // the input goes on after an end marker
        let mut a = w.clone();
        a.push(g.eof());
        for _ in 0..rng.below(3) {
            a.push(rng.below(all) as Sym);
        }
        words.push(a);
    }
    ctx.rng = rng;
}

// ------------------------------------------------------------------------- C01..C03

fn language(ctx: &mut Ctx, k: Kind) -> Res {
    let Some(g) = lr_case(ctx, k, MIX_LR) else { return Ok(()) };
    let r = Ref::new(&g);
    let a = auto_of(&r, k).unwrap();
    let words = words_for(ctx, &g);
    with_parser!(k, &g, Sy, p => {
        let c = p.tables().conflicts().count();
        if c != 0 {
            return fail(format!("{} reports {c} conflicts for a grammar that has none", k.name()));
        }
        for w in &words {
            ctx.on("input", g.show_word(w));
            let want = r.drive(&a, w).is_ok();
            if w.len() <= 40 {
                assert_eq!(want, r.earley(w).accept, "oracles disagree on {} / {}", g.show(), g.show_word(w));
                ctx.count("words_cross_checked_with_earley", 1);
            }
            let v = p.validate(empties::<Sy>(&g, w));
            if v != want {
                return fail(format!("{}: validate answers {v}, the input is{} a sentence", k.name(), if want { "" } else { " not" }));
            }
            let q = p.parse(tokens::<Sy>(&g, w), reductors::<Sy>(&g)).is_ok();
            if q != want {
                return fail(format!("{}: parse answers {q}, the input is{} a sentence", k.name(), if want { "" } else { " not" }));
            }
            ctx.count(if want { "sentences" } else { "non_sentences" }, 1);
            ctx.max("max_input_length", w.len() as u64);
            ctx.judged(whash(&g, w), !w.is_empty());
            if w.len() > 3 {
                ctx.sample(|| format!("{} [{}] {} -> {want}", k.name(), g.show(), g.show_word(w)));
            }
        }
    });
    Ok(())
}

// ------------------------------------------------------------------------- C04..C06

fn tables(ctx: &mut Ctx, k: Kind) -> Res {
    let mix = if ctx.rng.chance(1, 2) { MIX } else { MIX_RAW };
    let g = pick(ctx, mix);
    let r = Ref::new(&g);
    let Some(a) = sized(&r, k) else {
        ctx.count("skipped_too_large", 1);
        return Ok(());
    };
    if k == Kind::Lalr && ctx.rng.chance(1, 10) {
        r.assert_lalr_agrees(&a, CAP);
    }
    with_parser!(k, &g, Sy, p => {
        let t = p.tables();
        let ft = sut::table(&g, &t.actions);
        let w = match lockstep(&g, &ft, &|i, s| is_conflict_cell(&g, t, i, s), &a) {
            Ok(w) => w,
            Err(e) => return fail(format!("{}: {e}", k.name())),
        };
        let n = t.conflicts().count();
        if (n > 0) != (a.conflicts() > 0) {
            return fail(format!("{}: {n} conflicts reported, the construction has {}", k.name(), a.conflicts()));
        }
        if k != Kind::Clr {
            if n != a.conflicts() {
                return fail(format!("{}: {n} conflicts reported, the construction has {}", k.name(), a.conflicts()));
            }
            if t.actions.len() != a.trans.len() {
                return fail(format!("{}: {} states, the grammar has {} distinct item-set cores", k.name(), t.actions.len(), a.trans.len()));
            }
            if let Some((i, m)) = w.met.iter().find(|m| m.1.len() != 1) {
                return fail(format!("{}: state {i} stands for {} item-set cores", k.name(), m.len()));
            }
        }
        ctx.count("states_visited", w.pairs as u64);
        ctx.count("table_cells_compared", w.cells as u64);
        ctx.count("conflict_cells", w.conflicts as u64);
        ctx.count(if a.conflicts() > 0 { "grammars_with_conflicts" } else { "grammars_without_conflicts" }, 1);
        ctx.max("max_states", w.pairs as u64);
        ctx.judged(g.hash(), w.pairs > 2);
        ctx.sample(|| format!("{} [{}] order {}: {} states, {} conflict cells", k.name(), g.show(), g.show_order(), w.pairs, w.conflicts));
    });
    Ok(())
}

// ------------------------------------------------------------------------- C07, C08

fn ids(s: Option<&Set<Sy>>) -> BTreeSet<Sym> {
    s.map(|s| s.iter().map(Symbol::id).collect()).unwrap_or_default()
}

fn firsts(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 2) { MIX } else { MIX_RAW };
    let g = pick_vast(ctx, mix);
    let r = Ref::new(&g);
    let t = Tabler::new(sut::grammar::<Sy>(&g));
    for n in 0..g.nn {
        let got = ids(t.first.get(&Sy::make(&g, n as Sym)));
        let want: BTreeSet<Sym> = refm::syms(&g, r.first[n]).into_iter().collect();
        if got != want {
            return fail(format!("FIRST({}) is {:?}, should be {:?}", g.name(n as Sym), show(&g, &got), show(&g, &want)));
        }
        ctx.count("sets_compared", 1);
    }
    if let Some(k) = t.first.keys().find(|k| !g.is_nt(k.id())) {
        return fail(format!("FIRST table lists {}, which is not a rule", g.name(k.id())));
    }
    for _ in 0..4 {
        let n = ctx.rng.range(0, 4);
        let set: BTreeSet<Sym> = (0..n).map(|_| ctx.rng.below(g.nn + g.nt + 1) as Sym).collect();
        let got = ids(Some(&t.first_of(&set.iter().map(|s| Sy::make(&g, *s)).collect())));
        let mut want = refm::Bits::default();
        for s in &set {
            want |= refm::first_sym(&g, &r.first, *s);
        }
        let want: BTreeSet<Sym> = refm::syms(&g, want).into_iter().collect();
        if got != want {
            return fail(format!("first_of({:?}) is {:?}, should be {:?}", show(&g, &set), show(&g, &got), show(&g, &want)));
        }
        ctx.count("first_of_calls", 1);
    }
    // the definition itself, on sampled derivations
    if g.heights().iter().all(Option::is_some) {
        for _ in 0..4 {
            let mut rng = ctx.rng.clone();
            if let Some(w) = g.sentence(&mut rng, 12) {
                if !ids(t.first.get(&Sy::make(&g, 0))).contains(&w[0]) {
                    return fail(format!("the sentence {} starts with a token outside FIRST of the entry rule", g.show_word(&w)));
                }
                ctx.count("sentences_checked", 1);
            }
            ctx.rng = rng;
        }
    }
    ctx.judged(g.hash(), g.nn > 1);
    ctx.sample(|| format!("[{}] FIRST checked for {} rules", g.show(), g.nn));
    Ok(())
}

fn show(g: &G, s: &BTreeSet<Sym>) -> Vec<String> {
    s.iter().map(|x| g.name(*x)).collect()
}

fn follows(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 2) { MIX } else { MIX_RAW };
    let g = pick_vast(ctx, mix);
    let r = Ref::new(&g);
    let t = Tabler::new(sut::grammar::<Sy>(&g));
    for n in 0..g.nn {
        let got = ids(t.follow.get(&Sy::make(&g, n as Sym)));
        let want: BTreeSet<Sym> = refm::syms(&g, r.follow[n]).into_iter().collect();
        if got != want {
            return fail(format!("FOLLOW({}) is {:?}, should be {:?}", g.name(n as Sym), show(&g, &got), show(&g, &want)));
        }
        ctx.count("sets_compared", 1);
    }
    if let Some(k) = t.follow.keys().find(|k| !g.is_nt(k.id())) {
        return fail(format!("FOLLOW table lists {}, which is not a rule", g.name(k.id())));
    }
    ctx.judged(g.hash(), g.nn > 1);
    ctx.sample(|| format!("[{}] FOLLOW checked for {} rules", g.show(), g.nn));
    Ok(())
}

// ------------------------------------------------------------------------- C09

fn conflicts_surface(ctx: &mut Ctx) -> Res {
    let g = pick(ctx, MIX);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    let Some(a) = sized(&r, k).filter(|_| !endless(k, &g)) else {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    };
    if a.conflicts() == 0 {
        ctx.count("skipped_without_conflict", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 8, 16);
    words.retain(|w| w.len() <= 80);
    if rng.chance(1, 12) {
        let size = *rng.pick(&[150, 600]);
        longer(ctx, &mut rng, &g, &mut words, size);
    }
    ctx.rng = rng;
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            ctx.on("input", g.show_word(w));
            let known = (w.len() <= 80).then(|| r.earley(w).accept);
            let res = sut::run(&p, &g, w);
            // what the construction prescribes up to the first contested cell
            let want = drive_conflicting(&r, &a, w);
            match (&res.out, &want) {
                (Out::Ok, Drive::Accept) => {
                    if known == Some(false) {
                        return fail("accepted, but the input is not a sentence");
                    }
                    ctx.count("accepted_without_meeting_a_conflict", 1);
                }
                (Out::Conflict(x, y), Drive::Conflict(acts, pos)) => {
                    let got: BTreeSet<FActK> = x.union(y).copied().collect();
                    let want: BTreeSet<FActK> = acts.iter().map(|a| match a {
                        refm::Act::Shift => FActK::Shift,
                        refm::Act::Reduce(p) => FActK::Reduce(*p),
                        refm::Act::Acc => FActK::Acc,
                    }).collect();
                    if got != want {
                        return fail(format!("the conflict error names {got:?}, the competing actions are {want:?}"));
                    }
                    if w.len() - res.left.len() != *pos {
                        return fail(format!("the conflict is reported after {} tokens, it is met after {pos}", w.len() - res.left.len()));
                    }
                    ctx.count("conflict_errors", 1);
                }
                (Out::Unexpected(..), Drive::Error(_)) => {
                    if known == Some(true) {
                        return fail("rejected without a conflict, but the input is a sentence");
                    }
                    ctx.count("rejected_without_meeting_a_conflict", 1);
                }
                (o, w) => return fail(format!("outcome {o:?}, but the table's construction prescribes {w:?}")),
            }
            ctx.judged(whash(&g, w), true);
            ctx.sample(|| format!("{} [{}] {} -> {:?}", k.name(), g.show(), g.show_word(w), res.out));
        }
    });
    Ok(())
}

#[derive(Debug)]
enum Drive {
    Accept,
    Error(usize),
    Conflict(BTreeSet<refm::Act>, usize),
}

fn drive_conflicting(r: &Ref, a: &Auto, w: &[Sym]) -> Drive {
    let mut st = vec![0usize];
    let mut i = 0;
    loop {
        let t = w.get(i).copied().unwrap_or(r.g.eof());
        let Some(acts) = a.acts[*st.last().unwrap()].get(&t) else { return Drive::Error(i) };
        if acts.len() > 1 {
            return Drive::Conflict(acts.clone(), i);
        }
        match acts.iter().next().unwrap() {
            refm::Act::Shift => {
                st.push(a.trans[*st.last().unwrap()][&t]);
                i += 1;
            }
            refm::Act::Acc => return if i == w.len() { Drive::Accept } else { Drive::Error(i) },
            refm::Act::Reduce(p) => {
                let (l, _, rhs) = &r.flat[*p as usize];
                st.truncate(st.len() - rhs.len());
                let to = a.trans[*st.last().unwrap()][&(*l as Sym)];
                st.push(to);
            }
        }
    }
}

// ------------------------------------------------------------------------- C10

/// Replays the reduction log against the input: it must be a rightmost derivation in reverse.
/// Returns the (symbol, value id) stack it leaves and how many tokens it consumed at least.
fn replay(r: &Ref, w: &[Sym], log: &[Event], consumed: usize) -> Result<Vec<(Sym, u32)>, String> {
    let n = w.len() as u32;
    let mut st: Vec<(Sym, u32)> = vec![];
    let mut pos = 0usize;
    for (e, ev) in log.iter().enumerate() {
        let Some((l, _, rhs)) = r.flat.get(ev.red) else {
            return Err(format!("reduction {e} used a reductor of no production"));
        };
        let here = format!("reduction {e} by {} -> {}", r.g.name(*l as Sym), r.g.show_word(rhs));
        if ev.kids.len() != rhs.len() {
            return Err(format!("{here} got {} values", ev.kids.len()));
        }
        let last = *ev.kids.last().unwrap();
        if last < n {
            while pos <= last as usize {
                if pos >= consumed {
                    return Err(format!("{here} got token {last}, which was not consumed"));
                }
                st.push((w[pos], pos as u32));
                pos += 1;
            }
        }
        if st.len() < rhs.len() {
            return Err(format!("{here}: only {} values are pending", st.len()));
        }
        let top = &st[st.len() - rhs.len()..];
        for (i, (s, u)) in top.iter().enumerate() {
            if *u != ev.kids[i] || *s != rhs[i] {
                return Err(format!("{here}: value {i} is not the pending {} (value ids {:?}, pending {:?})", r.g.name(*s), ev.kids, top));
            }
        }
        st.truncate(st.len() - rhs.len());
        st.push((*l as Sym, ev.uid));
    }
    while pos < consumed {
        st.push((w[pos], pos as u32));
        pos += 1;
    }
    Ok(st)
}

fn node_matches(ev: &BTreeMap<u32, (&Event, &Ref)>, v: &V, n: u32) -> Result<usize, String> {
    // iterative: inputs can be deep
    let mut st = vec![v.clone()];
    let mut count = 0;
    while let Some(v) = st.pop() {
        count += 1;
        if v.0.uid < n {
            if v.0.red != usize::MAX {
                return Err("an input value was replaced".into());
            }
            continue;
        }
        let Some((e, r)) = ev.get(&v.0.uid) else { return Err(format!("value {} comes from no reduction", v.0.uid)) };
        let rhs = &r.flat[e.red].2;
        if v.0.red != e.red || v.0.kids.len() != e.kids.len() {
            return Err("a value is not what its reductor returned".into());
        }
        for (i, (s, k)) in v.0.kids.iter().enumerate() {
            if *s != rhs[i] || k.0.uid != e.kids[i] {
                return Err(format!("reductor of production {} saw child {i} as {}", e.red, r.g.name(*s)));
            }
            st.push(k.clone());
        }
    }
    Ok(count)
}

fn derivations(ctx: &mut Ctx) -> Res {
    let g = pick(ctx, MIX_LR);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    let Some(a) = sized(&r, k).filter(|_| !endless(k, &g)) else {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    };
    let words = words_for(ctx, &g);
    ctx.on("method", k.name().into());
    ctx.count("grammars", 1);
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            ctx.on("input", g.show_word(w));
            let res = sut::run(&p, &g, w);
            let consumed = w.len() - res.left.len();
            for (i, t) in res.left.iter().enumerate() {
                if t.item.0.uid as usize != consumed + i || t.ty.id() != w[consumed + i] {
                    return fail("the tokens not consumed are not the tail of the input");
                }
            }
            let st = match replay(&r, w, &res.log, consumed) {
                Ok(s) => s,
                Err(e) => return fail(format!("{}: {e}", k.name())),
            };
            let got: Vec<(Sym, u32)> = res.items.iter().map(|t| (t.ty.id(), t.item.0.uid)).collect();
            if got != st {
                return fail(format!("{}: the stack holds {got:?}, the reductions leave {st:?}", k.name()));
            }
            let evs: BTreeMap<u32, (&Event, &Ref)> = res.log.iter().map(|e| (e.uid, (e, &r))).collect();
            for t in &res.items {
                match node_matches(&evs, &t.item, w.len() as u32) {
                    Ok(n) => ctx.count("tree_nodes", n as u64),
                    Err(e) => return fail(format!("{}: {e}", k.name())),
                }
            }
            if res.out == Out::Ok {
                let entry = &r.flat[0].2;
                if got.iter().map(|x| x.0).collect::<Vec<_>>() != *entry {
                    return fail(format!("{}: accepted with {} on the stack", k.name(), g.show_word(&got.iter().map(|x| x.0).collect::<Vec<_>>())));
                }
                if a.conflicts() == 0 {
                    let want = r.drive(&a, w);
                    let mine: Vec<u16> = res.log.iter().map(|e| e.red as u16).collect();
                    if want.as_ref().ok() != Some(&mine) {
                        return fail(format!("{}: reductions {mine:?}, should be {want:?}", k.name()));
                    }
                }
                log_start(w.len() as u32);
                let v = match p.parse(tokens::<Sy>(&g, w), reductors::<Sy>(&g)) {
                    Ok(v) => v,
                    Err(e) => return fail(format!("the same input is rejected by parse: {e:?}")),
                };
                let l2 = log_take();
                if l2.len() != res.log.len() || v.0.uid != got.last().unwrap().1 {
                    return fail(format!("parse returns value {}, the entry rule's last symbol has value {}", v.0.uid, got.last().unwrap().1));
                }
                if entry.len() == 1 {
                    let evs: BTreeMap<u32, (&Event, &Ref)> = l2.iter().map(|e| (e.uid, (e, &r))).collect();
                    if let Err(e) = node_matches(&evs, &v, w.len() as u32) {
                        return fail(format!("{}: {e}", k.name()));
                    }
                    // frontier of the returned tree is the input
                    let mut fr = vec![];
                    let mut stack = vec![v.clone()];
                    while let Some(x) = stack.pop() {
                        if x.0.red == usize::MAX {
                            fr.push(x.0.uid as usize);
                        }
                        stack.extend(x.0.kids.iter().rev().map(|k| k.1.clone()));
                    }
                    if fr != (0..w.len()).collect::<Vec<_>>() {
                        return fail("the returned value does not contain every input value once, in order");
                    }
                }
                ctx.count("accepted_inputs", 1);
                ctx.sample(|| format!("{} [{}] {} : {} reductions", k.name(), g.show(), g.show_word(w), res.log.len()));
            }
            ctx.count("reductions", res.log.len() as u64);
            ctx.max("max_input_length", w.len() as u64);
            ctx.judged(whash(&g, w), !res.log.is_empty());
        }
    });
    Ok(())
}

// ------------------------------------------------------------------------- C11

fn error_reports(ctx: &mut Ctx) -> Res {
    let k = *ctx.rng.pick(&Kind::ALL);
    let Some(g) = lr_case(ctx, k, MIX_LR) else { return Ok(()) };
    let r = Ref::new(&g);
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 8, 20);
    // inputs with symbols the grammar does not know, and with the end marker inside
    for _ in 0..6 {
        if let Some(mut w) = g.sentence(&mut rng, 10) {
            let i = rng.below(w.len() + 1);
            let s = if rng.chance(1, 2) { g.eof() } else { g.eof() + 1 + rng.below(3) as Sym };
            w.insert(i, s);
            if rng.chance(1, 4) {
                w.push(g.eof());
            }
            words.push(w);
        }
    }
    words.retain(|w| w.len() <= 70);
    if rng.chance(1, 30) {
        longer(ctx, &mut rng, &g, &mut words, 300);
    }
    ctx.rng = rng;
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            ctx.on("input", g.show_word(w));
            let e = r.earley(w);
            let res = sut::run(&p, &g, w);
            let consumed = w.len() - res.left.len();
            if e.accept {
                if res.out != Out::Ok {
                    return fail(format!("{}: a sentence is rejected: {:?}", k.name(), res.out));
                }
                ctx.count("sentences", 1);
                continue;
            }
            if consumed != e.reach {
                return fail(format!("{}: stopped after {consumed} tokens, the longest prefix that can be continued has {}", k.name(), e.reach));
            }
            let at = w.get(e.reach).copied().unwrap_or(g.eof());
            let may = refm::syms(&g, e.next[e.reach]).into_iter().collect::<BTreeSet<_>>();
            if e.reach < w.len() && at == g.eof() && may.contains(&at) {
                // the end marker in the middle of the input, after a complete sentence
                if res.out != Out::Incomplete {
                    return fail(format!("{}: input left after the end marker, outcome {:?}", k.name(), res.out));
                }
                ctx.count("incomplete_errors", 1);
                ctx.judged(whash(&g, w), true);
                continue;
            }
            match &res.out {
                Out::Unexpected(found, exp) => {
                    if *found != at {
                        return fail(format!("{}: reports {}, the offending token is {}", k.name(), g.name(*found), g.name(at)));
                    }
                    let terms: BTreeSet<Sym> = exp.iter().copied().filter(|s| !g.is_nt(*s)).collect();
                    if terms.contains(found) {
                        return fail(format!("{}: {} is reported unexpected and expected", k.name(), g.name(*found)));
                    }
                    if k == Kind::Clr && terms != may {
                        return fail(format!("CLR: expected tokens {:?}, the tokens that can follow are {:?}", show(&g, &terms), show(&g, &may)));
                    }
                    if terms.is_empty() || exp.iter().any(|s| *s > g.eof()) {
                        return fail(format!("{}: expected tokens {:?}", k.name(), show(&g, exp)));
                    }
                    let m = format!("{}", res.err.as_ref().unwrap());
                    if !m.contains(&format!("{:?}", Sy::make(&g, at))) || exp.iter().any(|s| !m.contains(&format!("{:?}", Sy::make(&g, *s)))) {
                        return fail(format!("{}: the message {m:?} does not name the tokens", k.name()));
                    }
                    ctx.count(if e.reach == w.len() { "errors_at_end" } else { "errors_inside" }, 1);
                }
                o => return fail(format!("{}: outcome {o:?} for an input that is not a sentence", k.name())),
            }
            ctx.judged(whash(&g, w), e.reach > 0);
            ctx.sample(|| format!("{} [{}] {} : {:?} after {consumed}", k.name(), g.show(), g.show_word(w), res.out));
        }
    });
    Ok(())
}

// ------------------------------------------------------------------------- C12

fn totality(ctx: &mut Ctx) -> Res {
    let g = pick(ctx, MIX_RAW);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    ctx.on("method", k.name().into());
    let mut rng = ctx.rng.clone();
    let all = g.nn + g.nt + 4;
    let mut words = vec![];
    for _ in 0..10 {
        // any symbols at all: terminals, rule names, the end marker, unknown ones
        let n = rng.below(14);
        words.push((0..n).map(|_| rng.below(all) as Sym).collect::<Vec<_>>());
        if let Some(mut w) = g.sentence(&mut rng, 14) {
            words.push(w.clone());
            let i = rng.below(w.len() + 1);
            w.insert(i, rng.below(all) as Sym);
            words.push(w.clone());
            let i = rng.below(w.len());
            w[i] = rng.below(g.nn) as Sym;
            words.push(w);
        }
    }
    // a run of one rule name
    let s = rng.below(g.nn) as Sym;
    words.push(vec![s; rng.range(1, 6)]);
    if rng.chance(1, 10) {
        if let Some(w) = g.sentence(&mut rng, 3000) {
            words.push(w);
        }
        longer(ctx, &mut rng, &g, &mut words, 3000);
    }
    ctx.rng = rng;
    with_parser!(k, &g, Sy, p => {
        ctx.count("tables_built", 1);
        for w in &words {
            ctx.on("input", g.show_word(w));
            let before = sut::used();
            // one lookup per step and table row; far above what any run needs
            let res = sut::run(&p, &g, w);
            let steps = sut::used() - before;
            ctx.max("max_symbol_operations_in_a_parse", steps);
            let strange = w.iter().any(|s| g.is_nt(*s) || *s >= g.eof());
            if strange && res.out == Out::Ok {
                return fail("accepted an input with a token that is not a terminal of the grammar");
            }
            match res.out {
                Out::MissingState | Out::NoState | Out::UnexpectedEof => {
                    return fail(format!("outcome {:?}, which a table built by the library does not lead to", res.out));
                }
                Out::Ok => ctx.count("accepted", 1),
                Out::Conflict(..) => ctx.count("stopped_at_conflict", 1),
                _ => ctx.count("rejected", 1),
            }
            if strange {
                ctx.count("inputs_with_non_terminals", 1);
            }
            ctx.max("max_input_length", w.len() as u64);
            ctx.judged(whash(&g, w), strange || !w.is_empty());
            ctx.sample(|| format!("{} [{}] {}", k.name(), g.show(), g.show_word(w)));
        }
    });
    Ok(())
}

// ------------------------------------------------------------------------- C13

fn path_ok<P: Parser<Sy>>(p: &P, states: &[usize], items: &[Sym], g: &G) -> Option<String> {
    for (i, s) in items.iter().enumerate() {
        let mut acts = BTreeSet::new();
        if let Some(a) = p.tables().actions.get(states[i]).and_then(|m| m.get(&Sy::make(g, *s))) {
            sut::flatten(g, a, &mut acts);
        }
        let to: Vec<usize> = acts
            .iter()
            .filter_map(|a| match a {
                FAct::Shift(n) | FAct::Goto(n) => Some(*n),
                _ => None,
            })
            .collect();
        if to != [states[i + 1]] {
            return Some(format!("stack position {i}: {} leads from state {} to {:?}, the stack says {}", g.name(*s), states[i], to, states[i + 1]));
        }
    }
    None
}

type Toks = std::vec::IntoIter<Token<V, Sy>>;

/// The stack invariants that hold before every step and at the end of a run.
fn stack_ok<P: Parser<Sy>>(p: &P, g: &G, w: &[Sym], d: &Dfa<V, Sy, Toks>) -> Result<(usize, usize), String> {
    if d.states.len() != d.items.len() + 1 {
        return Err(format!("{} states for {} symbols", d.states.len(), d.items.len()));
    }
    if d.states[0] != 0 || d.states.last() != Some(&d.top) {
        return Err(format!("states {:?}, current {}", d.states, d.top));
    }
    let syms: Vec<Sym> = d.items.iter().map(|t| t.ty.id()).collect();
    if let Some(e) = path_ok(p, &d.states, &syms, g) {
        return Err(e);
    }
    let rest: Vec<_> = d.buffer.clone().collect();
    let consumed = w.len().checked_sub(rest.len()).ok_or("more input than there was")?;
    for (i, t) in rest.iter().enumerate() {
        if t.ty.id() != w[consumed + i] || t.item.0.uid as usize != consumed + i {
            return Err("what is left of the input is not its tail".into());
        }
    }
    // frontier of the stack = consumed input
    let mut next = 0usize;
    for t in &d.items {
        let mut st = vec![t.item.clone()];
        while let Some(x) = st.pop() {
            if x.0.red == usize::MAX {
                if x.0.uid as usize != next {
                    return Err(format!("the stack covers token {} where token {next} is due", x.0.uid));
                }
                next += 1;
            }
            st.extend(x.0.kids.iter().rev().map(|k| k.1.clone()));
        }
    }
    if next != consumed {
        return Err(format!("{consumed} tokens consumed, {next} on the stack"));
    }
    let mut want = vec![];
    for i in 0..d.states.len() {
        want.push(d.states[i].to_string());
        if i < syms.len() {
            want.push(format!("{:?}", d.items[i].ty));
        }
    }
    if d.stack_fmt() != want.join(" ") {
        return Err(format!("stack_fmt gives {:?}, the stack is {:?}", d.stack_fmt(), want.join(" ")));
    }
    Ok((consumed, d.items.len()))
}

fn trace_invariants(ctx: &mut Ctx) -> Res {
    let g = pick(ctx, MIX);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 5, 18);
    words.retain(|w| w.len() <= 330);
    if rng.chance(1, 60) {
        longer(ctx, &mut rng, &g, &mut words, 900);
    }
    ctx.rng = rng;
    let mut odd: Vec<_> = words.iter().filter(|w| w.len() < 40).take(6).cloned().collect();
    strange_words(ctx, &g, &mut odd);
    words.extend(odd);
    let mut rng = ctx.rng.clone();
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            ctx.on("input", g.show_word(w));
            log_start(w.len() as u32);
            let mut d = p.dfa(tokens::<Sy>(&g, w).into_iter(), reductors::<Sy>(&g));
            let mut steps = 0u64;
            let mut bad: Option<String> = None;
            let mut seen: Vec<(usize, usize)> = vec![]; // (consumed, reductions) before each step
            let res = d.trace(|s| {
                steps += 1;
                if bad.is_none() {
                    match stack_ok(&p, &g, w, s) {
                        Ok((c, _)) => seen.push((c, log_len())),
                        Err(e) => bad = Some(e),
                    }
                    if s.finished {
                        bad = Some("a step after the run is finished".into());
                    }
                }
            });
            if let Some(e) = bad {
                return fail(format!("{}: before step {steps}: {e}", k.name()));
            }
            for p in seen.windows(2) {
                let (a, b) = (p[0], p[1]);
                if b != (a.0 + 1, a.1) && b != (a.0, a.1 + 1) {
                    return fail(format!("{}: one step goes from {} consumed tokens and {} reductions to {} and {}", k.name(), a.0, a.1, b.0, b.1));
                }
            }
            let out = sut::out_of(&g, &res);
            match stack_ok(&p, &g, w, &d) {
                Ok((c, n)) => {
                    let last = (c, log_len());
                    if Some(&last) != seen.last() {
                        return fail(format!("{}: the last step ({out:?}) changed the stack", k.name()));
                    }
                    if out == Out::Ok && (c != w.len() || n != g.prods[0][0].len()) {
                        return fail(format!("{}: accepted with {c} of {} tokens consumed and {n} symbols on the stack", k.name(), w.len()));
                    }
                }
                Err(e) => return fail(format!("{}: after the run ({out:?}): {e}", k.name())),
            }
            // whether a run that reads an end marker within its input counts as finished is left open
            if d.finished != (out == Out::Ok) && out != Out::Incomplete {
                return fail(format!("{}: finished is {} after {out:?}", k.name(), d.finished));
            }
            // stepping by hand gives the same run
            log_start(w.len() as u32);
            let mut m = p.dfa(tokens::<Sy>(&g, w).into_iter(), reductors::<Sy>(&g));
            let mut n = 0u64;
            let (mut by_hand, mut errs, mut tries) = (true, 0u64, if m.buffer.peek().is_none() { 0 } else { rng.below(3) });
            let nts = g.nn as Sym;
            let r2 = loop {
                if m.finished {
                    break Ok(());
                }
                n += 1;
                let s = m.buffer.peek().map_or_else(|| m.eof.clone(), |t| t.ty.clone());
                if s.id() < nts {
                    // by hand, this is a goto
                    by_hand = false;
                    break Ok(());
                }
                // steps over what is not there: where one fails, nothing has changed
                if tries < 4 && rng.chance(1, 3) {
                    tries += 1;
                    // most often at the end, where a shift finds nothing
                    let t = Sy::make(&g, nts + rng.below(g.nt + 2) as Sym);
                    let mut o = m.clone();
                    let before = log_len();
                    if o.travel(&t).is_err() {
                        errs += 1;
                        let same = o.states == m.states && o.top == m.top
                            && o.items.len() == m.items.len()
                            && o.items.iter().zip(&m.items).all(|(a, b)| a.ty == b.ty && a.item.0.uid == b.item.0.uid)
                            && o.buffer.clone().map(|t| t.item.0.uid).eq(m.buffer.clone().map(|t| t.item.0.uid));
                        if !same {
                            return fail(format!("{}: a step over {t:?} fails and leaves {} with {} tokens, there were {} with {}", k.name(),
                                o.stack_fmt(), o.buffer.clone().count(), m.stack_fmt(), m.buffer.clone().count()));
                        }
                    }
                    log_truncate(before);
                }
                if let Err(e) = m.travel(&s) {
                    break Err(e);
                }
            };
            ctx.count("failed_steps_by_hand", errs);
            if by_hand && (sut::out_of(&g, &r2) != out || n != steps || m.states != d.states) {
                return fail(format!("{}: stepping by hand ends with {:?} after {n} steps, the traced run with {out:?} after {steps}", k.name(), sut::out_of(&g, &r2)));
            }
            ctx.count("steps_observed", steps);
            ctx.count("steps_by_hand", n);
            ctx.judged(whash(&g, w), steps > 2);
            ctx.sample(|| format!("{} [{}] {} : {steps} steps, {out:?}", k.name(), g.show(), g.show_word(w)));
        }
    });
    Ok(())
}

// ------------------------------------------------------------------------- C14

fn shape(v: &V) -> Vec<(usize, usize)> {
    // preorder (reductor, children), leaves by token position
    let mut o = vec![];
    let mut st = vec![v.clone()];
    while let Some(x) = st.pop() {
        o.push((x.0.red, if x.0.red == usize::MAX { x.0.uid as usize } else { x.0.kids.len() }));
        st.extend(x.0.kids.iter().rev().map(|k| k.1.clone()));
    }
    o
}

/// A source that may panic instead of giving a token.
struct Breaks {
    from: std::vec::IntoIter<Token<V, Sy>>,
    at: usize,
}

impl Iterator for Breaks {
    type Item = Token<V, Sy>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at == 0 {
            self.at = usize::MAX;
            panic!("planned");
        }
        self.at = self.at.saturating_sub(1);
        self.from.next()
    }
}

fn reuse(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 4) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 7, 14);
    words.retain(|w| w.len() < 150);
    strange_words(ctx, &g, &mut words);
    rng.shuffle(&mut words);
    words.truncate(rng.range(2, 14));
    if rng.chance(1, 25) {
        longer(ctx, &mut rng, &g, &mut words, 500);
        rng.shuffle(&mut words);
    }
    // some inputs again, right after each other or later
    if rng.chance(1, 2) {
        let w = rng.pick(&words).clone();
        words.push(w);
    }
    ctx.on("method", k.name().into());
    let mut history = String::new();
    with_parser!(k, &g, Sy, p => {
        let first = words[0].clone();
        log_start(10_000);
        let src = |w: &[Sym], at: usize| Breaks { from: tokens::<Sy>(&g, w).into_iter(), at };
        let mut d = p.dfa(src(&first, usize::MAX), reductors::<Sy>(&g));
        match rng.below(4) {
            // the machine has run, or stopped in the middle, before it is used again
            0 => {
                let _ = d.start();
                history.push_str(&format!("start({}) ; ", g.show_word(&first)));
            }
            1 => {
                let n = rng.below(6);
                for _ in 0..n {
                    if d.finished {
                        break;
                    }
                    let s = d.buffer.peek().map_or_else(|| d.eof.clone(), |t| t.ty.clone());
                    if d.travel(&s).is_err() {
                        break;
                    }
                }
                history.push_str(&format!("{n} steps of {} ; ", g.show_word(&first)));
            }
            _ => {}
        }
        for w in &words {
            if rng.chance(1, 6) {
                // a run that a reduction or the source of tokens breaks off
                let v = rng.pick(&words).clone();
                let (at, n) = (if rng.chance(1, 2) { rng.below(v.len() + 1) } else { usize::MAX }, rng.below(8));
                sut::bomb((at == usize::MAX).then_some(n));
                let broken = catch_unwind(AssertUnwindSafe(|| {
                    let _ = d.parse(src(&v, at));
                }));
                sut::bomb(None);
                if broken.is_err() {
                    ctx.count("runs_broken_off", 1);
                }
                history.push_str(&format!("broken off({}) ; ", g.show_word(&v)));
            }
            let explicit = rng.chance(1, 5);
            history.push_str(&format!("{}({}) ; ", if explicit { "reset, start" } else { "parse" }, g.show_word(w)));
            ctx.on("history", history.clone());
            log_start(w.len() as u32);
            let fresh = p.parse(tokens::<Sy>(&g, w), reductors::<Sy>(&g));
            let l1 = log_take();
            log_start(w.len() as u32);
            let again: Result<V, Error<Sy>> = if explicit {
                d.reset();
                d.buffer = src(w, usize::MAX).peekable();
                match d.start() {
                    Ok(()) => match d.items.last() {
                        Some(t) => Ok(t.item.clone()),
                        None => Err(Error::MissingPreviousState),
                    },
                    Err(e) => Err(e),
                }
            } else {
                d.parse(src(w, usize::MAX))
            };
            let l2 = log_take();
            match (&fresh, &again) {
                (Ok(a), Ok(b)) => {
                    if shape(a) != shape(b) {
                        return fail(format!("{}: the reused machine returns another tree than a fresh one", k.name()));
                    }
                    ctx.count("accepted", 1);
                }
                (Err(a), Err(b)) => {
                    let (a, b) = (sut::err_of(&g, a), sut::err_of(&g, b));
                    if a != b {
                        return fail(format!("{}: the reused machine reports {b:?}, a fresh one {a:?}", k.name()));
                    }
                    ctx.count("rejected", 1);
                }
                (a, b) => {
                    return fail(format!("{}: accepted by a fresh machine: {}, by the reused one: {}", k.name(), a.is_ok(), b.is_ok()));
                }
            }
            if l1.len() != l2.len() || l1.iter().zip(&l2).any(|(a, b)| a.red != b.red || a.kids != b.kids) {
                return fail(format!("{}: the reused machine made other reductions than a fresh one", k.name()));
            }
            ctx.count("reuses", 1);
            ctx.judged(fnv(history.as_bytes()) ^ g.hash(), !w.is_empty());
        }
    });
    ctx.sample(|| format!("{} [{}] {history}", k.name(), g.show()));
    ctx.rng = rng;
    Ok(())
}

// ------------------------------------------------------------------------- C15

/// Outcome and reductions of one input.
fn observe<P: Parser<Sy>>(p: &P, g: &G, w: &[Sym]) -> (Out, Vec<(usize, Vec<u32>)>, usize) {
    let r = sut::run(p, g, w);
    (r.out, r.log.iter().map(|e| (e.red, e.kids.clone())).collect(), r.left.len())
}

/// Doubles a state: the copy behaves the same and some of the transitions to the state lead to
/// the copy instead.
fn split_state(t: &mut Tabler<Sy>, rng: &mut Rng) {
    fn turn(a: &mut Action<Sy>, from: usize, to: usize) {
        match a {
            Action::Shift(n) | Action::Goto(n) if *n == from => *n = to,
            Action::Conflict(a, b) => {
                turn(a, from, to);
                turn(b, from, to);
            }
            _ => {}
        }
    }
    let i = rng.below(t.actions.len());
    let n = t.actions.len();
    t.actions.push(t.actions[i].clone());
    t.states.push(t.states[i].clone());
    for (r, row) in t.actions.iter_mut().enumerate() {
        if r != i && r != n {
            row.values_mut().for_each(|a| {
                if rng.chance(1, 2) {
                    turn(a, i, n);
                }
            });
        }
    }
}

fn reduce_equals(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 3) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    let Some(a) = sized(&r, k).filter(|_| !endless(k, &g)) else {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    };
    let words = words_for(ctx, &g);
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        let mut q = p.clone();
        let split = if ctx.rng.chance(3, 4) { ctx.rng.range(1, 6) } else { 0 };
        let before = q.tables().actions.len();
        for _ in 0..split {
            split_state(q.tables_mut(), &mut ctx.rng);
        }
        ctx.on("states split", split.to_string());
        ctx.count("states_split", split as u64);
        let mut size = q.tables().actions.len();
        for round in 1..=16 {
            q.reduce_equals();
            let now = q.tables().actions.len();
            if now > size || now == 0 {
                return fail(format!("{}: {size} states before, {now} after", k.name()));
            }
            let t = q.tables();
            let ft = sut::table(&g, &t.actions);
            if let Err(e) = lockstep(&g, &ft, &|i, s| is_conflict_cell(&g, t, i, s), &a) {
                return fail(format!("{} after {round} reductions of the table: {e}", k.name()));
            }
            // an equal row must not be left twice after one call for each level of nesting
            if round == 1 || now < size {
                for w in &words {
                    ctx.on("input", g.show_word(w));
                    let (x, y) = (observe(&p, &g, w), observe(&q, &g, w));
                    if x != y {
                        return fail(format!("{}: before {:?} with {} reductions, after {round} calls {:?} with {}", k.name(), x.0, x.1.len(), y.0, y.1.len()));
                    }
                    ctx.judged(whash(&g, w), !w.is_empty());
                    ctx.count("runs_compared", 1);
                }
            }
            if now == size {
                if now > before {
                    return fail(format!("{}: {before} states, {split} of them doubled, {now} left at the end", k.name()));
                }
                break;
            }
            ctx.count("states_removed", (size - now) as u64);
            ctx.count("shrinking_calls", 1);
            size = now;
        }
        let (b, e) = (p.tables().actions.len(), size);
        ctx.sample(|| format!("{} [{}] {b} -> {e} states, {} inputs", k.name(), g.show(), words.len()));
    });
    Ok(())
}

// ------------------------------------------------------------------------- C16

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Num(u32);
impl Symbol for Num {
    fn make(g: &G, id: Sym) -> Self {
        let k = u32::from(g.key.get(id as usize).copied().unwrap_or(1000 + id));
        Num(k << 16 | u32::from(id))
    }
    fn id(&self) -> Sym {
        (self.0 & 0xffff) as Sym
    }
}

fn text(g: &G, id: Sym) -> String {
    let k = g.key.get(id as usize).copied().unwrap_or(1000 + id);
    // ordered by the key, with prefixes of one another among them
    format!("{:03}{}{:04}", k, if id % 3 == 0 { "" } else { "é" }, id)
}
fn untext(s: &str) -> Sym {
    s[s.len() - 4..].parse().unwrap()
}
impl Symbol for String {
    fn make(g: &G, id: Sym) -> Self {
        text(g, id)
    }
    fn id(&self) -> Sym {
        untext(self)
    }
}
thread_local! {
    static INTERN: std::cell::RefCell<BTreeSet<&'static str>> = const { std::cell::RefCell::new(BTreeSet::new()) };
}
impl Symbol for &'static str {
    fn make(g: &G, id: Sym) -> Self {
        let t = text(g, id);
        INTERN.with(|i| {
            let mut i = i.borrow_mut();
            if let Some(s) = i.get(t.as_str()) {
                return *s;
            }
            let s: &'static str = Box::leak(t.into_boxed_str());
            i.insert(s);
            s
        })
    }
    fn id(&self) -> Sym {
        untext(self)
    }
}
impl Symbol for char {
    fn make(g: &G, id: Sym) -> Self {
        let k = u32::from(g.key.get(id as usize).copied().unwrap_or(1000 + id).min(1040));
        char::from_u32(0x10000 + (k << 8 | u32::from(id.min(255)))).unwrap()
    }
    fn id(&self) -> Sym {
        ((*self as u32 - 0x10000) & 0xff) as Sym
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Tree {
    T(u16, Box<Tree>),
    L(Vec<u16>),
}
impl Symbol for Tree {
    fn make(g: &G, id: Sym) -> Self {
        let k = g.key.get(id as usize).copied().unwrap_or(1000 + id);
        if g.is_nt(id) {
            Tree::T(k, Box::new(Tree::L(vec![id])))
        } else {
            Tree::L(vec![k, id])
        }
    }
    fn id(&self) -> Sym {
        match self {
            Tree::T(_, b) => b.id(),
            Tree::L(v) => *v.last().unwrap(),
        }
    }
}

/// Symbols that cannot be told apart when shown.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Alike(u32);
impl std::fmt::Debug for Alike {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("sym")
    }
}
impl Symbol for Alike {
    fn make(g: &G, id: Sym) -> Self {
        Alike(Num::make(g, id).0)
    }
    fn id(&self) -> Sym {
        (self.0 & 0xffff) as Sym
    }
}

type Obs = (Out, Vec<(usize, Vec<u32>)>, usize);

fn observe_all<M: Symbol>(k: Kind, g: &G, words: &[Vec<Sym>]) -> Result<(Vec<Obs>, bool, usize), String> {
    with_parser!(k, g, M, p => {
        // built twice: the same table
        let q = with_same(&p, g);
        if *p.tables() != *q.tables() {
            return Err(format!("{}: building the parser twice gives different tables", k.name()));
        }
        let obs = words.iter().map(|w| {
            let r = sut::run(&p, g, w);
            let out = match r.out {
                // how competing actions are nested depends on the order of the symbols
                Out::Conflict(a, b) => Out::Conflict(a.union(&b).copied().collect(), BTreeSet::new()),
                o => o,
            };
            (out, r.log.iter().map(|e| (e.red, e.kids.clone())).collect(), r.left.len())
        }).collect();
        let conflicting = p.tables().conflicts().next().is_some();
        let n = p.tables().actions.len();
        Ok((obs, conflicting, n))
    })
}

fn with_same<M: Symbol, P: Parser<M>>(_: &P, g: &G) -> P {
    P::new(sut::grammar::<M>(g))
}

fn symbol_types(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 3) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if g.nn + g.nt > 200 || r.lr1(CAP / 2).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 4, 14);
    words.push(vec![g.eof() + 1]);
    words.retain(|w| w.len() < 120);
    if rng.chance(1, 20) {
        longer(ctx, &mut rng, &g, &mut words, 400);
    }
    let base = observe_all::<Sy>(k, &g, &words).map_err(|msg| crate::Fail { msg })?;
    ctx.on("method", k.name().into());
    let mut others: Vec<(&'static str, G, Result<(Vec<Obs>, bool, usize), String>)> = vec![];
    let mut h = g.clone();
    for i in 0..3 {
        h.permute_keys(&mut rng);
        ctx.on("other symbol order", h.show_order());
        let which = rng.below(7);
        let (name, o) = match which {
            0 => ("String", observe_all::<String>(k, &h, &words)),
            1 => ("&'static str", observe_all::<&'static str>(k, &h, &words)),
            2 => ("integer", observe_all::<Num>(k, &h, &words)),
            3 => ("char", observe_all::<char>(k, &h, &words)),
            5 => ("a type shown alike", observe_all::<Alike>(k, &h, &words)),
            4 => ("recursive enum", observe_all::<Tree>(k, &h, &words)),
            _ => ("same type", observe_all::<Sy>(k, &h, &words)),
        };
        let _ = i;
        others.push((name, h.clone(), o));
        let (name, h, o) = others.last().unwrap();
        ctx.on("other symbol order", h.show_order());
        let o = match o {
            Ok(o) => o,
            Err(e) => return fail(format!("symbols as {name}: {e}")),
        };
        if o.1 != base.1 {
            return fail(format!("{}: conflicts reported with one symbol order: {}, with symbols as {name} in another: {}", k.name(), base.1, o.1));
        }
        for (j, w) in words.iter().enumerate() {
            if o.0[j] != base.0[j] {
                ctx.on("input", g.show_word(w));
                return fail(format!("{}: outcome {:?} after {} reductions, with symbols as {name} in another order {:?} after {}", k.name(), base.0[j].0, base.0[j].1.len(), o.0[j].0, o.0[j].1.len()));
            }
            ctx.count("outcomes_compared", 1);
        }
        ctx.count("symbol_types_compared", 1);
        ctx.judged(g.hash() ^ h.hash().rotate_left(9) ^ which as u64, true);
    }
    ctx.sample(|| format!("{} [{}] as {:?}", k.name(), g.show(), others.iter().map(|o| o.0).collect::<Vec<_>>()));
    ctx.rng = rng;
    Ok(())
}

// ------------------------------------------------------------------------- C17

fn classification(ctx: &mut Ctx) -> Res {
    let g = pick_vast(ctx, MIX_RAW);
    let gr: Grammar<Sy> = sut::grammar::<Sy>(&g);
    let mut terms: BTreeSet<Sym> = g.prods.iter().flatten().flatten().copied().filter(|s| !g.is_nt(*s)).collect();
    terms.insert(g.eof());
    let got: BTreeSet<Sym> = gr.terminals.iter().map(Symbol::id).collect();
    if got != terms {
        return fail(format!("terminals {:?}, should be {:?}", show(&g, &got), show(&g, &terms)));
    }
    let all: BTreeSet<Sym> = terms.iter().copied().chain(0..g.nn as Sym).collect();
    let got: Vec<Sym> = gr.symbols().map(|s| s.id()).collect();
    if got.iter().copied().collect::<BTreeSet<_>>() != all || got.len() != all.len() {
        return fail(format!("symbols {}, should be {:?}", g.show_word(&got), show(&g, &all)));
    }
    for s in 0..=g.eof() {
        if gr.is_terminal(&Sy::make(&g, s)) != !g.is_nt(s) {
            return fail(format!("{} is classified wrongly", g.name(s)));
        }
        ctx.count("symbols_classified", 1);
    }
    let b = gr.basis();
    if b.rule.id() != 0 || b.point != 0 || b.look.iter().map(Symbol::id).collect::<Vec<_>>() != [g.eof()] || b.seq.0.iter().map(Symbol::id).collect::<Vec<_>>() != g.prods[0][0] {
        return fail(format!("the entry position is {b:?}"));
    }
    let mut n = 0;
    for rule in gr.rules() {
        let l = rule.name.id() as usize;
        n += 1;
        let ps: Vec<_> = rule.prods().collect();
        if ps.len() != g.prods[l].len() {
            return fail(format!("rule {} has {} productions", g.name(l as Sym), ps.len()));
        }
        for (i, p) in ps.iter().enumerate() {
            if p.1 != i || p.0.iter().map(Symbol::id).collect::<Vec<_>>() != g.prods[l][i] {
                return fail(format!("production {i} of {} is {p:?}", g.name(l as Sym)));
            }
            ctx.count("productions_compared", 1);
        }
    }
    if n != g.nn {
        return fail(format!("{n} rules, should be {}", g.nn));
    }
    // positions walk through a production symbol by symbol
    let mut pos = b;
    let rhs = g.prods[0][0].clone();
    for i in 0..=rhs.len() {
        let top = pos.top().map(|s| s.id());
        let next = pos.next().map(|s| s.id());
        if top != rhs.get(i).copied() || next != rhs.get(i + 1).copied() || pos.finished() != (i == rhs.len()) || pos.point != i {
            return fail(format!("position {i} of {} shows {top:?} then {next:?}", g.show_word(&rhs)));
        }
        match pos.clone_next() {
            Some(p) if i < rhs.len() => {
                if !p.body_eq(&p.no_look()) || pos.body_eq(&p) || p.look != pos.look {
                    return fail("an advanced position is not the position after it".to_string());
                }
                pos = p;
            }
            None if i == rhs.len() => {}
            o => return fail(format!("advancing position {i} gives {o:?}")),
        }
    }
    positions(ctx, &g)?;
    spans(ctx)?;
    macros(ctx)?;
    ctx.judged(g.hash(), g.nn > 1);
    ctx.sample(|| format!("[{}] {} symbols", g.show(), all.len()));
    Ok(())
}

/// Positions anywhere, and rules of a single production.
fn positions(ctx: &mut Ctx, g: &G) -> Res {
    let mut rng = ctx.rng.clone();
    for _ in 0..3 {
        let l = rng.below(g.nn);
        let i = rng.below(g.prods[l].len());
        let rhs = &g.prods[l][i];
        let name = Sy::make(g, l as Sym);
        let syms: Vec<Sy> = rhs.iter().map(|s| Sy::make(g, *s)).collect();
        let single = lrp::grammar::Rule::single(name.clone(), syms.clone());
        if single.name != name || single.prods.len() != 1 || single.prods[0].0 != syms || single.prods[0].1 != 0
            || single != lrp::grammar::Rule::new(name.clone(), Some(syms.clone())) {
            return fail(format!("the rule of the single production {} is {single:?}", g.show_word(rhs)));
        }
        let mut look = |n: usize| -> BTreeSet<Sy> { (0..rng.below(n)).map(|_| Sy::make(g, g.nn as Sym + rng.below(g.nt + 1) as Sym)).collect() };
        let (la, lb) = (look(5), look(4));
        let seq = Rc::new((syms.clone(), i));
        let at = rng.below(rhs.len() + 1);
        let p = Position::new(name.clone(), seq.clone(), at, la.clone());
        // the same, of other parts
        let q = Position::new(name.clone(), Rc::new((syms.clone(), i)), at, la.clone());
        if p != q || p.cmp(&q) != std::cmp::Ordering::Equal || !p.body_eq(&q) {
            return fail(format!("{p:?} differs from itself"));
        }
        let w = p.clone().with_look(lb.clone());
        if w.look != lb || !w.body_eq(&p) || (w == p) != (la == lb) || (w.cmp(&p).is_eq()) != (la == lb) || !p.no_look().look.is_empty() || !p.no_look().body_eq(&p) || p.look != la {
            return fail(format!("{p:?} is {w:?} with other lookaheads, {:?} without", p.no_look()));
        }
        // another production of the same symbols, another rule, another place
        let other = [
            Position::new(name.clone(), Rc::new((syms.clone(), i + 1)), at, la.clone()),
            Position::new(Sy::make(g, ((l + 1) % (g.nn + g.nt)) as Sym), seq.clone(), at, la.clone()),
            Position::new(name.clone(), seq.clone(), at + 1, la.clone()),
            Position::new(name.clone(), Rc::new((syms[1..].to_vec(), i)), at, la.clone()),
        ];
        for o in &other {
            if o.body_eq(&p) || p.body_eq(o) || *o == p || o.cmp(&p).is_eq() || o.cmp(&p) != p.cmp(o).reverse() {
                return fail(format!("{p:?} is taken for {o:?}"));
            }
        }
        for n in 0..rhs.len() + 2 {
            let want = rhs.get(at + n).copied();
            if p.peek(n).map(|s| s.id()) != want || p.abs_idx(n).map(|s| s.id()) != rhs.get(n).copied() {
                return fail(format!("{p:?} shows {:?} {n} symbols on", p.peek(n)));
            }
        }
        if p.top() != p.peek(0) || p.next() != p.peek(1) || p.finished() != (at == rhs.len()) {
            return fail(format!("{p:?} shows {:?} then {:?}", p.top(), p.next()));
        }
        let mut a = p.clone();
        a.adv();
        match p.clone_next() {
            Some(n) if at < rhs.len() => {
                if n != a || n.point != at + 1 || n.rule != p.rule || n.seq != p.seq || n.look != p.look {
                    return fail(format!("{p:?} advances to {n:?}"));
                }
            }
            None if at == rhs.len() => {}
            o => return fail(format!("{p:?} advances to {o:?}")),
        }
        ctx.count("positions_compared", 1);
    }
    ctx.rng = rng;
    Ok(())
}

fn spans(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.below(40);
    let v: Vec<u32> = (0..n as u32).map(|_| ctx.rng.next() as u32).collect();
    let s: String = (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect();
    let a = ctx.rng.below(n + 1);
    let b = ctx.rng.range(a, n);
    let sp = Span::new(a, b);
    if sp.from_source(&v) != &v[a..b] || sp.from_source(&v[..]) != &v[a..b] || sp.from_source(s.as_str()) != &s[a..b] {
        return fail(format!("span {a}..{b} selects {:?}", sp.from_source(s.as_str())));
    }
    if Span::from((a, b)) != sp || Span::from(a..b) != sp || (sp.start, sp.end) != (a, b) {
        return fail(format!("span {a}..{b} built as {:?} and {:?}", Span::from((a, b)), Span::from(a..b)));
    }
    let t: Vec<_> = lrp::to_tokens(v.clone()).collect();
    if t.iter().map(|t| t.ty).collect::<Vec<_>>() != v {
        return fail("to_tokens does not keep the symbols");
    }
    ctx.count("spans", 1);
    Ok(())
}

fn macros(ctx: &mut Ctx) -> Res {
    // the two spellings of a grammar mean the same
    let m = lrp::grammar_map! {
        "S" -> "A" "b" | "c",
        "A" -> "a" | "A" "a" "S" | "x"
    };
    let mut map = lrp::RuleMap::new();
    map.insert("S", lrp::grammar::Rule::new("S", vec![vec!["A", "b"], vec!["c"]]));
    map.insert("A", lrp::grammar::Rule::new("A", vec![vec!["a"], vec!["A", "a", "S"], vec!["x"]]));
    if m != map {
        return fail("grammar_map! differs from the rules written out");
    }
    let (p, q, x, y) = (1u8, 2u8, 3u8, 4u8);
    let m = lrp::grammar_map! { p -> q x | y, q -> x };
    let mut map = lrp::RuleMap::new();
    map.insert(p, lrp::grammar::Rule::new(p, vec![vec![q, x], vec![y]]));
    map.insert(q, lrp::grammar::Rule::single(q, vec![x]));
    if m != map {
        return fail("grammar_map! with names differs from the rules written out");
    }
    let m = lrp::grammar_map! {
        "T" -> "a" "b" "c" "d" "e" "f" "g" "h" "i" "j" | "a" | "a" "b" | "a" | "z" "T" "z" "T" "z" | "y" | "x" | "w" | "v" | "u" | "t" | "s",
        "S'" -> "T",
        "A" -> "T" "T" | "T" "A"
    };
    let mut map = lrp::RuleMap::new();
    map.insert("S'", lrp::grammar::Rule::single("S'", vec!["T"]));
    map.insert("A", lrp::grammar::Rule::new("A", vec![vec!["T", "T"], vec!["T", "A"]]));
    let t = "a b c d e f g h i j|a|a b|a|z T z T z|y|x|w|v|u|t|s";
    map.insert("T", lrp::grammar::Rule::new("T", t.split('|').map(|p| p.split(' ').collect::<Vec<_>>())));
    if m != map || m.values().any(|r| r.prods().enumerate().any(|(i, p)| p.1 != i)) || m["T"].prods.len() != 12 {
        return fail("grammar_map! differs from the rules written out");
    }
    let m = lrp::grammar_map! { "S" -> "a" };
    if m.len() != 1 || m["S"] != lrp::grammar::Rule::single("S", vec!["a"]) {
        return fail("grammar_map! of a single rule differs from the rule written out");
    }
    ctx.count("macro_forms", 4);
    Ok(())
}

// ------------------------------------------------------------------------- C18

fn forks(ctx: &mut Ctx) -> Res {
    let k = *ctx.rng.pick(&Kind::ALL);
    let mix = if ctx.rng.chance(1, 4) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 4, 16);
    words.retain(|w| !w.is_empty() && w.len() < 100);
    words.truncate(10);
    if rng.chance(1, 25) {
        longer(ctx, &mut rng, &g, &mut words, 400);
    }
    strange_words(ctx, &g, &mut words);
    // (the name of a rule isn't a token: a step by hand with one is a goto, `start` refuses it)
    words.retain(|w| !w.is_empty() && w.iter().all(|s| *s as usize >= g.nn));
    words.truncate(16);
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            // snapshot after some steps; the copies get different continuations
            let steps = rng.below(2 * w.len() + 2);
            log_start(w.len() as u32);
            let mut d = p.dfa(tokens::<Sy>(&g, w).into_iter(), reductors::<Sy>(&g));
            let mut dead = false;
            for _ in 0..steps {
                if d.finished {
                    break;
                }
                let s = d.buffer.peek().map_or_else(|| d.eof.clone(), |t| t.ty.clone());
                if d.travel(&s).is_err() {
                    dead = true;
                    break;
                }
            }
            if dead || d.finished {
                // a machine at its end: the copy is at the same end, and goes where the original goes
                let mut f = d.clone();
                if f.finished != d.finished || f.top != d.top || f.states != d.states {
                    return fail(format!("{}: the copy of a machine that has ended ({}) is not where it is", k.name(), d.finished));
                }
                log_start(1000);
                let a = f.start();
                let (la, ra) = (log_take(), sut::out_of(&g, &a));
                let same = |f: &[lrp::Token<sut::V, Sy>], d: &[lrp::Token<sut::V, Sy>]| {
                    f.len() == d.len() && f.iter().zip(d).all(|(a, b)| a.ty.id() == b.ty.id() && shape(&a.item) == shape(&b.item))
                };
                log_start(1000);
                let b = d.start();
                let (lb, rb) = (log_take(), sut::out_of(&g, &b));
                if ra != rb || la.len() != lb.len() || la.iter().zip(&lb).any(|(a, b)| a.red != b.red) {
                    return fail(format!("{}: the copy of a machine that has ended goes on to {ra:?} by {} reductions, the machine to {rb:?} by {}", k.name(), la.len(), lb.len()));
                }
                if f.finished != d.finished || f.states != d.states || !same(&f.items, &d.items) {
                    return fail(format!("{}: the copy of a machine that has ended differs from it", k.name()));
                }
                ctx.count(if dead { "copies_of_failed" } else { "copies_of_finished" }, 1);
                continue;
            }
            let consumed = w.len() - d.buffer.clone().count();
            let mut tails: Vec<Vec<Sym>> = vec![w[consumed..].to_vec()];
            tails.push(g.random_word(&mut rng, 5));
            tails.push(g.mutate_word(&w[consumed..], &mut rng));
            let mut forks: Vec<_> = tails.iter().map(|_| d.clone()).collect();
            let order: Vec<usize> = {
                let mut o: Vec<usize> = (0..tails.len()).collect();
                rng.shuffle(&mut o);
                o
            };
            let snapshot: Vec<(Sym, u32)> = d.items.iter().map(|t| (t.ty.id(), t.item.0.uid)).collect();
            for (f, t) in forks.iter_mut().zip(&tails) {
                let mut all = w[..consumed].to_vec();
                all.extend_from_slice(t);
                let mut toks = tokens::<Sy>(&g, &all);
                toks.drain(..consumed);
                f.buffer = toks.into_iter().peekable();
            }
            // interleave the copies step by step
            let mut done: Vec<Option<Out>> = vec![None; tails.len()];
            let mut reds: Vec<Vec<usize>> = vec![vec![]; tails.len()];
            while done.iter().any(Option::is_none) {
                for i in &order {
                    if done[*i].is_some() {
                        continue;
                    }
                    let f = &mut forks[*i];
                    let s = f.buffer.peek().map_or_else(|| f.eof.clone(), |t| t.ty.clone());
                    let n = log_len();
                    let res = f.travel(&s);
                    if log_len() > n {
                        let l = log_take();
                        reds[*i].extend(l.iter().map(|e| e.red));
                    }
                    if res.is_err() || f.finished {
                        done[*i] = Some(sut::out_of(&g, &res));
                    }
                }
            }
            let now: Vec<(Sym, u32)> = d.items.iter().map(|t| (t.ty.id(), t.item.0.uid)).collect();
            if now != snapshot || d.buffer.clone().count() != w.len() - consumed {
                return fail(format!("{}: the original machine changed while its copies ran", k.name()));
            }
            for (i, t) in tails.iter().enumerate() {
                let mut all = w[..consumed].to_vec();
                all.extend_from_slice(t);
                ctx.on("input", format!("{} then (after {steps} steps) {}", g.show_word(&w[..consumed]), g.show_word(t)));
                let res = sut::run(&p, &g, &all);
                // the steps before the snapshot were taken with the lookahead of the original
                // continuation; a copy with another lookahead is only comparable to a fresh run
                // that agrees up to there
                let fresh: Vec<usize> = res.log.iter().map(|e| e.red).collect();
                let same_look = t.first() == w.get(consumed);
                if same_look {
                    if done[i].as_ref() != Some(&res.out) {
                        return fail(format!("{}: the copy ends with {:?}, a fresh run with {:?}", k.name(), done[i], res.out));
                    }
                    if !fresh.ends_with(&reds[i]) {
                        return fail(format!("{}: the copy makes reductions {:?}, a fresh run {fresh:?}", k.name(), reds[i]));
                    }
                    let a: Vec<_> = forks[i].items.iter().map(|x| (x.ty.id(), shape(&x.item))).collect();
                    let b: Vec<_> = res.items.iter().map(|x| (x.ty.id(), shape(&x.item))).collect();
                    if a != b {
                        return fail(format!("{}: the copy leaves other values than a fresh run", k.name()));
                    }
                    ctx.count("copies_compared", 1);
                    ctx.judged(whash(&g, &all) ^ steps as u64, steps > 0);
                } else {
                    ctx.count("copies_with_other_lookahead", 1);
                }
            }
            ctx.sample(|| format!("{} [{}] {} snapshot after {steps} steps", k.name(), g.show(), g.show_word(w)));
        }
    });
    ctx.rng = rng;
    Ok(())
}

// ------------------------------------------------------------------------- C19

fn introspection(ctx: &mut Ctx) -> Res {
    let g = pick(ctx, MIX);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        let t = p.tables();
        if t.states.len() != t.actions.len() {
            return fail(format!("{}: {} item sets, {} rows of actions", k.name(), t.states.len(), t.actions.len()));
        }
        for (i, st) in t.states.iter().enumerate() {
            // the item set of a state and its row of actions say the same
            let mut want: BTreeMap<Sym, BTreeSet<FAct>> = BTreeMap::new();
            for item in st {
                match item.top() {
                    Some(s) => {
                        let kernel = Tabler::sym_filter(st, &s);
                        let fin = match p.final_kernel(&kernel) {
                            Some(f) => f,
                            None => return fail(format!("{}: state {i}: no kernel known for {}", k.name(), g.name(s.id()))),
                        };
                        let (x, y) = (p.state_from_kernel(&kernel), p.state_from_kernel(fin));
                        if x.is_none() || x != y {
                            return fail(format!("{}: state {i}, {}: the kernel leads to {x:?}, its final form to {y:?}", k.name(), g.name(s.id())));
                        }
                        let n = x.unwrap();
                        let e = want.entry(s.id()).or_default();
                        e.insert(if g.is_nt(s.id()) { FAct::Goto(n) } else { FAct::Shift(n) });
                        // every item of the kernel is in the state it leads to
                        let Some(to) = t.states.get(n) else { return fail(format!("{}: state {n} does not exist", k.name())) };
                        for q in &kernel {
                            let have: BTreeSet<Sym> = to.iter().filter(|z| z.body_eq(q)).flat_map(|z| z.look.iter().map(Symbol::id)).collect();
                            if !to.iter().any(|z| z.body_eq(q)) || (k != Kind::Slr && !q.look.iter().all(|l| have.contains(&l.id()))) {
                                return fail(format!("{}: {q:?} goes to state {n}, which does not hold it", k.name()));
                            }
                        }
                        ctx.count("transitions_checked", 1);
                    }
                    None => {
                        let look: Vec<Sym> = if k == Kind::Slr {
                            refm::syms(&g, r.follow[item.rule.id() as usize])
                        } else {
                            item.look.iter().map(Symbol::id).collect()
                        };
                        let mut a = BTreeSet::new();
                        if item.rule.id() == 0 {
                            a.insert(FAct::Acc);
                        } else {
                            sut::flatten(&g, &Action::Reduce(item.rule.clone(), item.seq.clone()), &mut a);
                        }
                        for l in look {
                            want.entry(l).or_default().extend(a.iter().copied());
                        }
                        ctx.count("complete_items_checked", 1);
                    }
                }
            }
            let got = &sut::table(&g, &t.actions[i..=i].to_vec())[0];
            if *got != want {
                return fail(format!("{}: state {i}: actions {got:?}, its items prescribe {want:?}", k.name()));
            }
            ctx.count("states_checked", 1);
        }
        ctx.judged(g.hash() ^ k as u64, t.states.len() > 2);
        let n = t.states.len();
        ctx.sample(|| format!("{} [{}] {n} states", k.name(), g.show()));
    });
    Ok(())
}

// ------------------------------------------------------------------------- C20

pub type Body = (Sym, usize, usize);

pub fn bodies(s: &State<Sy>) -> BTreeMap<Body, BTreeSet<Sym>> {
    let mut m: BTreeMap<Body, BTreeSet<Sym>> = BTreeMap::new();
    for p in s {
        m.entry((p.rule.id(), p.seq.1, p.point)).or_default().extend(p.look.iter().map(Symbol::id));
    }
    m
}

fn item_sets(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 2) { MIX } else { MIX_RAW };
    let g = pick(ctx, mix);
    let r = Ref::new(&g);
    let gr = sut::grammar::<Sy>(&g);
    let clr = Clr::<Sy>::uninit(Tabler::new(gr.clone()));
    let lalr = Lalr::<Sy>::uninit(Tabler::new(gr.clone()));
    let slr = Slr::<Sy>::uninit(Tabler::new(gr.clone()));
    let mut rng = ctx.rng.clone();
    for _ in 0..6 {
        let mut seed: State<Sy> = State::new();
        // now and then as many as the states of real grammars have
        let large = rng.chance(1, 8);
        for _ in 0..if large { rng.range(10, 80) } else { rng.range(1, 5) } {
            let l = rng.below(g.nn);
            let rule = &gr.rules[&Sy::make(&g, l as Sym)];
            let prod = rng.pick(&rule.prods).clone();
            let point = rng.below(prod.0.len() + 1);
            let most = if rng.chance(1, 6) { g.nt.min(30) + 1 } else { 3 };
            let look: Set<Sy> = (0..rng.range(1, most)).map(|_| Sy::make(&g, (g.nn + rng.below(g.nt + 1)) as Sym)).collect();
            let pos = Position::new(rule.name.clone(), prod, point, look.clone());
            if rng.chance(1, 3) {
                // the same body again with other lookaheads
                let l2: Set<Sy> = [Sy::make(&g, (g.nn + rng.below(g.nt + 1)) as Sym)].into();
                seed.insert(pos.clone().with_look(l2));
            }
            seed.insert(pos);
        }
        ctx.on("items", format!("{seed:?}"));
        // merging: one item per body, lookaheads united
        for (name, m) in [("CLR", Clr::<Sy>::merged(seed.clone())), ("LALR", Lalr::<Sy>::merged(seed.clone()))] {
            if bodies(&m) != bodies(&seed) {
                return fail(format!("{name}: merging gives {m:?}"));
            }
            if m.len() != bodies(&m).len() {
                return fail(format!("{name}: merging leaves two items with one body: {m:?}"));
            }
        }
        ctx.max("max_items_merged", seed.len() as u64);
        // closures against the definition
        let mut want: BTreeMap<Body, BTreeSet<Sym>> = bodies(&seed);
        loop {
            let mut next = want.clone();
            for ((l, i, pt), look) in &want {
                let rhs = &g.prods[*l as usize][*i];
                let Some(b) = rhs.get(*pt) else { continue };
                if !g.is_nt(*b) {
                    continue;
                }
                let add: BTreeSet<Sym> = match rhs.get(pt + 1) {
                    Some(n) => refm::syms(&g, refm::first_sym(&g, &r.first, *n)).into_iter().collect(),
                    None => look.clone(),
                };
                for q in 0..g.prods[*b as usize].len() {
                    next.entry((*b, q, 0)).or_default().extend(add.iter().copied());
                }
            }
            if next == want {
                break;
            }
            want = next;
        }
        let c = clr.prop_closure(seed.clone());
        let d = lalr.prop_closure(seed.clone());
        for (name, x) in [("CLR", &c), ("LALR", &d)] {
            if bodies(x) != want {
                return fail(format!("{name}: the closure is {x:?}"));
            }
        }
        if bodies(&clr.prop_closure(c.clone())) != want || bodies(&lalr.prop_closure(d.clone())) != want {
            return fail("closing a closed set changes it");
        }
        let s = slr.prop_closure(seed.clone());
        if bodies(&s).keys().collect::<Vec<_>>() != want.keys().collect::<Vec<_>>() {
            return fail(format!("SLR: the closure is {s:?}"));
        }
        // advancing over a symbol
        let sy = rng.below(g.nn + g.nt) as Sym;
        let f = Tabler::sym_filter(&c, &Sy::make(&g, sy));
        let adv: BTreeMap<Body, BTreeSet<Sym>> = want
            .iter()
            .filter(|((l, i, pt), _)| g.prods[*l as usize][*i].get(*pt) == Some(&sy))
            .map(|((l, i, pt), v)| ((*l, *i, pt + 1), v.clone()))
            .collect();
        if bodies(&f) != adv {
            return fail(format!("advancing over {} gives {f:?}", g.name(sy)));
        }
        if c.len() < 120 {
            // closures have an item per lookahead, and are merged when states are
            let m = Lalr::<Sy>::merged(c.iter().cloned().chain(seed.iter().map(Position::no_look)).collect());
            if bodies(&m) != want || m.len() != want.len() {
                return fail(format!("LALR: merging {c:?} with its seed gives {m:?}"));
            }
        }
        let raw = Lalr::<Sy>::without_look(&seed);
        if raw.iter().any(|p| !p.look.is_empty()) || bodies(&raw).keys().collect::<Vec<_>>() != bodies(&seed).keys().collect::<Vec<_>>() {
            return fail(format!("dropping lookaheads gives {raw:?}"));
        }
        ctx.count("item_sets", 1);
        ctx.count("items_in_closures", c.len() as u64);
        ctx.judged(fnv(format!("{:?}", seed).as_bytes()) ^ g.hash(), want.len() > 1);
    }
    ctx.rng = rng;
    ctx.sample(|| format!("[{}] closures of 6 random item sets", g.show()));
    Ok(())
}
