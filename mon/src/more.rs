//! C30-C33: memory and threads, what is kept, what is printed, and the ways to build and run.
use crate::alloc::held;
use crate::gram::{Sym, G, MIX, MIX_LR, MIX_RAW};
use crate::harness::CaseFn;
use crate::props::{endless, note, pick, strange_words, whash, with_parser, words_for, CAP};
use crate::refm::Ref;
use crate::sut::{self, *};
use crate::{fail, Ctx, Res};
use lrp::{Clr, Dfa, Error, Grammar, Lalr, Parser, Position, ReductFn, ReductMap, Slr, Tabler, Token};
use std::cell::Cell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ------------------------------------------------------------------------- C30

/// The workloads of the other properties, run for what they do to memory.
const LOADS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C31", "C32", "C33",
];

type Lines = Vec<String>;

/// Everything a user can see of one grammar and some words, as text.
fn all_of(g: &G, words: &[Vec<Sym>], k: Kind) -> Lines {
    let mut o = vec![];
    with_parser!(k, g, String, p => {
        let t = p.tables();
        o.push(format!("{:?}", t.first));
        o.push(format!("{:?}", t.follow));
        o.push(format!("{:?}", t.actions));
        for w in words {
            let r = sut::run(&p, g, w);
            o.push(format!("{:?} {:?} {:?} {}", r.out, r.states, r.log.iter().map(|e| (e.red, e.uid)).collect::<Vec<_>>(), r.left.len()));
        }
    });
    o
}

/// A machine whose reductions panic at some point, dropped or used again.
fn unwound(ctx: &mut Ctx) {
    thread_local! {
        static LEFT: Cell<u32> = const { Cell::new(0) };
    }
    fn f(t: &[Token<V, Sy>]) -> V {
        LEFT.with(|l| {
            if l.get() == 0 {
                panic!("planned");
            }
            l.set(l.get() - 1);
        });
        V(Rc::new(Node { uid: 0, red: 0, kids: t.iter().map(|t| (t.ty.id(), t.item.clone())).collect() }))
    }
    let g = pick(ctx, MIX_LR);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() {
        return;
    }
    let mut rng = ctx.rng.clone();
    for _ in 0..4 {
        let Some(w) = g.sentence(&mut rng, 12) else { continue };
        if w.len() > 300 {
            continue;
        }
        let p = Clr::<Sy>::new(sut::grammar::<Sy>(&g));
        let map: ReductMap<V, Sy> = g.prods.iter().enumerate().map(|(l, ps)| (Sy::make(&g, l as Sym), vec![f as ReductFn<V, Sy>; ps.len()])).collect();
        let mut d = p.dfa(tokens::<Sy>(&g, &w).into_iter(), map);
        LEFT.with(|l| l.set(rng.below(6) as u32));
        let a = catch_unwind(AssertUnwindSafe(|| d.start().is_ok()));
        LEFT.with(|l| l.set(10_000));
        if a.is_err() {
            ctx.count("runs_unwound", 1);
            let b = catch_unwind(AssertUnwindSafe(|| d.parse(tokens::<Sy>(&g, &w).into_iter()).map(|v| shape_len(&v))));
            drop(b);
        }
    }
}

/// Machines without the rows, states or values their table speaks of. What they answer is open, save
/// that a state without a row is named as such; memory is looked at by others.
fn odd_machines(ctx: &mut Ctx) {
    let g = pick(ctx, MIX_LR);
    if (cfg!(miri) && g.n_prods() > 8) || Ref::new(&g).lr1(if cfg!(miri) { 12 } else { CAP }).is_none() || endless(Kind::Lalr, &g) {
        return;
    }
    let mut rng = ctx.rng.clone();
    let k = *rng.pick(&Kind::ALL);
    with_parser!(k, &g, Sy, p => {
        for _ in 0..3 {
            let Some(w) = g.sentence(&mut rng, 8) else { continue };
            if w.len() > 60 {
                continue;
            }
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let mut d = p.dfa(tokens::<Sy>(&g, &w).into_iter(), reductors::<Sy>(&g));
                let steps = rng.below(w.len() + 3);
                for _ in 0..steps {
                    let s = d.buffer.peek().map_or_else(|| d.eof.clone(), |t| t.ty.clone());
                    if d.finished || d.travel(&s).is_err() {
                        break;
                    }
                }
                match rng.below(6) {
                    0 => d.table.clear(),
                    1 => {
                        let n = rng.below(d.table.len());
                        d.table.truncate(n);
                    }
                    2 => d.top = d.table.len() + rng.below(3),
                    3 => d.states.truncate(1),
                    4 => d.items.clear(),
                    _ => d.reductors.clear(),
                }
                let _ = d.start().is_ok();
                let _ = (d.stack_fmt(), d.items.len());
                let _ = d.parse(tokens::<Sy>(&g, &w).into_iter()).is_ok();
            }));
            ctx.count("odd_machines_run", 1);
        }
    });
    ctx.rng = rng;
}

fn shape_len(v: &V) -> usize {
    let mut n = 0;
    let mut st = vec![v.clone()];
    while let Some(x) = st.pop() {
        n += 1;
        st.extend(x.0.kids.iter().map(|k| k.1.clone()));
    }
    n
}

/// Under an instrumented build every workload, alone and in several threads at once. What the
/// sanitizers see ends the process; here only the threads' results are compared.
pub fn memory(ctx: &mut Ctx) -> Res {
    let loads: Vec<&(&str, CaseFn)> = crate::props::ALL.iter().filter(|p| LOADS.contains(&p.0)).collect();
    // interpreted, one thing at a time
    let part = if cfg!(miri) { ctx.index % 3 } else { 3 };
    let n = [1, 0, 0, 6][part as usize];
    for _ in 0..n {
        let i = ctx.rng.below(loads.len());
        let (name, f) = *loads[i];
        if cfg!(miri) && ["C01", "C02", "C03", "C09", "C12", "C15", "C16", "C20", "C33"].contains(&name) {
            continue;
        }
        ctx.on("workload", name.into());
        // what it finds is its own property's business
        let mut counters = std::mem::take(&mut ctx.n);
        let distinct = std::mem::take(&mut ctx.distinct);
        let samples = std::mem::take(&mut ctx.samples);
        let _ = catch_unwind(AssertUnwindSafe(|| f(ctx).is_ok()));
        let judged = ctx.n.get("evaluations").copied().unwrap_or(0);
        *counters.entry("workload_evaluations").or_insert(0) += judged;
        *counters.entry("workloads_run").or_insert(0) += 1;
        ctx.n = counters;
        ctx.distinct = distinct;
        ctx.samples = samples;
    }
    if part == 1 || part == 3 {
        unwound(ctx);
        odd_machines(ctx);
    }
    if part < 2 {
        ctx.judged(ctx.index, false);
        return Ok(());
    }
    // several threads at once, on the same text of a grammar
    let k = *ctx.rng.pick(&Kind::ALL);
    let g = pick(ctx, MIX_LR);
    if (cfg!(miri) && g.n_prods() > 8) || Ref::new(&g).lr1(if cfg!(miri) { 12 } else { CAP }).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 3, 10);
    words.retain(|w| w.len() < if cfg!(miri) { 8 } else { 200 });
    words.truncate(if cfg!(miri) { 6 } else { 60 });
    let alone = all_of(&g, &words, k);
    let threads = if cfg!(miri) { 2 } else { 4 };
    let got: Vec<std::thread::Result<Lines>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads).map(|_| s.spawn(|| all_of(&g, &words, k))).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (i, r) in got.into_iter().enumerate() {
        match r {
            Ok(l) if l == alone => {}
            Ok(l) => {
                let d = l.iter().zip(&alone).find(|(a, b)| a != b);
                return fail(format!("{}: thread {i} of {threads} gets {:?}, alone it is {:?}", k.name(), d.map(|d| d.0), d.map(|d| d.1)));
            }
            Err(_) => return fail(format!("{}: thread {i} of {threads} panics, alone it does not", k.name())),
        }
        ctx.count("threads_compared", 1);
    }
    ctx.judged(g.hash(), true);
    ctx.sample(|| format!("{} [{}] in {threads} threads, {} words", k.name(), g.show(), words.len()));
    Ok(())
}

// ------------------------------------------------------------------------- C31

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static GIVEN: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<i64> = const { Cell::new(0) };
    /// How many reductions and tokens there are before one of them panics.
    static FUSE: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn burn() {
    FUSE.with(|f| {
        f.set(f.get() - 1);
        if f.get() < 0 {
            panic!("planned");
        }
    });
}

/// A value that counts how many of its kind there are; it knows how many tokens it stands for.
pub struct Counted {
    width: i64,
}

impl Counted {
    fn make(width: i64) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Self { width }
    }
}

impl Clone for Counted {
    fn clone(&self) -> Self {
        Self::make(self.width)
    }
}

impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

fn sum(t: &[Token<Counted, Sy>]) -> Counted {
    charge(1000);
    burn();
    MADE.with(|m| m.set(m.get() + 1));
    Counted::make(t.iter().map(|t| t.item.width).sum())
}

#[derive(Clone)]
struct Feed {
    syms: Vec<Sy>,
    at: usize,
}

impl Iterator for Feed {
    type Item = Token<Counted, Sy>;
    fn next(&mut self) -> Option<Self::Item> {
        burn();
        let s = self.syms.get(self.at)?.clone();
        self.at += 1;
        GIVEN.with(|g| g.set(g.get() + 1));
        Some(Token::new(Counted::make(1), s))
    }
}

fn feed(g: &G, w: &[Sym]) -> Feed {
    Feed { syms: w.iter().map(|s| Sy::make(g, *s)).collect(), at: 0 }
}

/// Values alive beyond those on the stack and those handed out and not yet consumed.
fn excess(d: &Dfa<Counted, Sy, Feed>, given: i64) -> i64 {
    let used: i64 = d.items.iter().map(|t| t.item.width).sum();
    LIVE.with(Cell::get) - (d.items.len() as i64 + given - used)
}

pub fn kept(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 4) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    let mut words = g.words(&mut rng, 5, 14);
    words.retain(|w| w.len() < 400);
    rng.shuffle(&mut words);
    words.truncate(12);
    ctx.on("method", k.name().into());
    let map = |g: &G| -> ReductMap<Counted, Sy> {
        g.prods.iter().enumerate().map(|(l, ps)| (Sy::make(g, l as Sym), vec![sum as ReductFn<Counted, Sy>; ps.len()])).collect()
    };
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            ctx.on("input", g.show_word(w));
            LIVE.with(|l| l.set(0));
            GIVEN.with(|l| l.set(0));
            MADE.with(|l| l.set(0));
            let mut d = p.dfa(feed(&g, w), map(&g));
            let mut worst = 0;
            let mut steps = 0u64;
            let res = d.trace(|s| {
                steps += 1;
                let e = excess(s, GIVEN.with(Cell::get));
                if e != 0 && worst == 0 {
                    worst = e;
                }
            });
            if worst != 0 {
                return fail(format!("{}: during the run {worst} values are alive beyond those on the stack and those not consumed", k.name()));
            }
            let e = excess(&d, GIVEN.with(Cell::get));
            if e != 0 {
                return fail(format!("{}: after the run ({:?}) {e} values are alive beyond those on the stack and those not consumed", k.name(), sut::out_of(&g, &res)));
            }
            ctx.count("values_made", GIVEN.with(Cell::get) as u64 + MADE.with(Cell::get) as u64);
            ctx.count("steps_observed", steps);
            // a copy has values of its own
            let n = LIVE.with(Cell::get);
            let c = d.clone();
            drop(c);
            if LIVE.with(Cell::get) != n {
                return fail(format!("{}: dropping a copy leaves {} values, there were {n}", k.name(), LIVE.with(Cell::get)));
            }
            let out = GIVEN.with(Cell::get) - d.items.iter().map(|t| t.item.width).sum::<i64>();
            d.reset();
            if LIVE.with(Cell::get) != out {
                return fail(format!("{}: a machine that is reset holds {} values, {out} are not consumed", k.name(), LIVE.with(Cell::get)));
            }
            // and again, for a value; what was not consumed goes with the input it came from
            let v = &words[rng.below(words.len())];
            GIVEN.with(|l| l.set(0));
            let r = d.parse(feed(&g, v));
            let used: i64 = d.items.iter().map(|t| t.item.width).sum();
            let (ok, held, want) = match &r {
                // a machine that has given its value has none left
                Ok(_) => (true, LIVE.with(Cell::get), 1),
                Err(_) => (false, LIVE.with(Cell::get), d.items.len() as i64 + GIVEN.with(Cell::get) - used),
            };
            if held != want {
                return fail(format!("{}: after another parse ({ok}) {held} values are alive, {want} have a place", k.name()));
            }
            ctx.count(if ok { "results_held" } else { "failed_parses" }, 1);
            drop(d);
            let n = LIVE.with(Cell::get);
            if n != i64::from(ok) {
                return fail(format!("{}: dropping the machine leaves {n} values", k.name()));
            }
            drop(r);
            let n = LIVE.with(Cell::get);
            if n != 0 {
                return fail(format!("{}: {n} values are left after everything is dropped", k.name()));
            }
            // a run that a panic in a reduction or in the source breaks off
            for _ in 0..2 {
                let mut d = p.dfa(feed(&g, w), map(&g));
                let fuse = rng.below(2 * steps as usize + 1) as i64;
                let parsed = rng.chance(1, 2);
                FUSE.with(|f| f.set(fuse));
                let a = catch_unwind(AssertUnwindSafe(|| if parsed { d.parse(feed(&g, w)).is_ok() } else { d.start().is_ok() }));
                FUSE.with(|f| f.set(i64::MAX));
                if a.is_err() {
                    ctx.count("runs_broken_off", 1);
                }
                let n = LIVE.with(Cell::get);
                let on = d.items.len() as i64;
                // and the token that is looked at
                if n != on && n != on + 1 {
                    return fail(format!("{}: {n} values are alive where a run ended or broke off with {on} on the stack", k.name()));
                }
                d.reset();
                let n = LIVE.with(Cell::get);
                if n > 1 {
                    return fail(format!("{}: a machine whose run broke off holds {n} values when it is reset", k.name()));
                }
                drop(d);
                let n = LIVE.with(Cell::get);
                if n != 0 {
                    return fail(format!("{}: dropping a machine whose run broke off leaves {n} values", k.name()));
                }
            }
            ctx.judged(whash(&g, w), steps > 2);
        }
        // one machine, the same inputs again and again
        let mut d = p.dfa(feed(&g, &[]), map(&g));
        let mut sizes = Vec::with_capacity(6);
        for _ in 0..6 {
            for w in &words {
                let _ = d.parse(feed(&g, w)).is_ok();
            }
            d.reset();
            d.buffer = feed(&g, &[]).peekable();
            sizes.push(held());
        }
        if sizes[2..].iter().any(|s| *s != sizes[1]) {
            return fail(format!("{}: a machine grows when it is used again: bytes and blocks {sizes:?}", k.name()));
        }
        ctx.count("histories", 1);
    });
    // building and running leaves nothing behind
    let lives = || {
        with_parser!(k, &g, Sy, p => {
            for w in &words {
                let _ = p.validate(empties::<Sy>(&g, w));
                let _ = p.parse(feed(&g, w), map(&g)).is_ok();
            }
            let mut q = p.clone();
            drop(p);
            let n = q.tables().conflicts().count();
            // what else can be done with a parser
            let t = q.tables();
            let more = (t.gen_first().len(), t.gen_follow().len(), t.first_step(&t.first) == t.first, t.follow_step(&t.follow) == t.follow);
            let mut shown = 0;
            for s in t.states.iter().take(6) {
                shown += format!("{s:?}").len();
                for y in t.grammar.symbols().take(4) {
                    let to = Tabler::sym_filter(s, &y);
                    shown += q.state_from_kernel(&to).unwrap_or(0) + q.final_kernel(&to).map_or(0, BTreeSet::len);
                }
            }
            let rows = t.reduced_actions().1.len();
            let mut d = q.simple_dfa(empties::<Sy>(&g, words.last().map_or(&[], |w| w)));
            let _ = d.trace(|m| shown += m.stack_fmt().len());
            let e = d.clone().start().map_err(|e| e.to_string().len());
            // equal rows may come from the merging of others
            while {
                let n = q.tables().actions.len();
                q.reduce_equals();
                q.tables().actions.len() < n
            } {}
            (n, more, shown, rows, e, q.tables().actions.len())
        })
    };
    let _ = lives();
    let a = held();
    let n = lives();
    let b = held();
    let m = lives();
    let c = held();
    if (a, n) != (b, m) || b != c {
        return fail(format!("{}: building, running and dropping a parser leaves memory behind: bytes and blocks {a:?}, {b:?}, {c:?}", k.name()));
    }
    ctx.count("parsers_dropped", 3);
    ctx.sample(|| format!("{} [{}] {} words, nothing left", k.name(), g.show(), words.len()));
    Ok(())
}

// ------------------------------------------------------------------------- C32

fn squeeze(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

pub fn shown(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 2) { MIX } else { MIX_RAW };
    let g = pick(ctx, mix);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut rng = ctx.rng.clone();
    // items, the dot in every place
    for (l, ps) in g.prods.iter().enumerate() {
        for (i, p) in ps.iter().enumerate() {
            if p.len() > 40 && i > 3 {
                continue;
            }
            let seq = Rc::new((p.iter().map(|s| Sy::make(&g, *s)).collect::<Vec<_>>(), i));
            for at in 0..=p.len() {
                let n = rng.below(4);
                let look: BTreeSet<Sy> = (0..n).map(|_| Sy::make(&g, g.nn as Sym + rng.below(g.nt + 1) as Sym)).collect();
                let pos = Position::new(Sy::make(&g, l as Sym), seq.clone(), at, look.clone());
                let mut want = format!("{:?} =", pos.rule);
                for (j, s) in seq.0.iter().enumerate() {
                    if j == at {
                        want.push_str(" .");
                    }
                    want.push_str(&format!(" {s:?}"));
                }
                if at == p.len() {
                    want.push_str(" .");
                }
                want.push_str(&format!(" {look:?}"));
                let (a, b) = (format!("{pos}"), format!("{pos:?}"));
                if squeeze(&a) != squeeze(&want) || squeeze(&b) != squeeze(&want) {
                    return fail(format!("the item [{want}] is shown as [{a}] and [{b}]"));
                }
                ctx.count("items_shown", 1);
                // what the item stands at
                for q in 0..p.len() + 2 {
                    let s = pos.peek(q).map(|s| s.id());
                    if s != p.get(at + q).copied() || pos.abs_idx(q).map(|s| s.id()) != p.get(q).copied() {
                        return fail(format!("the item [{want}] has {s:?} {q} symbols after the dot"));
                    }
                    if q > 3 {
                        break;
                    }
                }
            }
        }
    }
    let mut words = words_for(ctx, &g);
    strange_words(ctx, &g, &mut words);
    ctx.on("method", k.name().into());
    let mut long = 0;
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            // what is shown grows with every step
            if w.len() > if long < 2 { 400 } else { 60 } {
                continue;
            }
            long += usize::from(w.len() > 60);
            ctx.on("input", g.show_word(w));
            let toks: Vec<Token<u32, Sy>> = w.iter().enumerate().map(|(i, s)| Token::new(i as u32, Sy::make(&g, *s))).collect();
            thread_local! { static NEXT: Cell<u32> = const { Cell::new(0) }; }
            NEXT.with(|n| n.set(1000));
            fn fresh(_: &[Token<u32, Sy>]) -> u32 {
                charge(1000);
                NEXT.with(|n| { n.set(n.get() + 1); n.get() })
            }
            let map: ReductMap<u32, Sy> = Dfa::<u32, Sy, std::vec::IntoIter<Token<u32, Sy>>>::transparent(p.tables(), fresh);
            let mut d = p.dfa(toks.into_iter(), map);
            let mut bad = None;
            let mut steps = 0;
            let look = |s: &Dfa<u32, Sy, std::vec::IntoIter<Token<u32, Sy>>>| -> Option<String> {
                let (mut a, mut b) = (vec![], vec![]);
                for i in 0..s.states.len().max(s.items.len()) {
                    if let Some(x) = s.states.get(i) {
                        a.push(x.to_string());
                        b.push(x.to_string());
                    }
                    if let Some(t) = s.items.get(i) {
                        a.push(format!("{:?}", t.ty));
                        b.push(format!("{t:?}"));
                    }
                }
                let (a, b) = (a.join(" "), b.join(" "));
                (s.stack_fmt() != a || s.stack_debug() != b).then(|| format!("the stack {b} is shown as {} and {}", s.stack_fmt(), s.stack_debug()))
            };
            let mut deep = 0;
            let res = d.trace(|s| {
                steps += 1;
                deep = deep.max(s.states.len());
                if bad.is_none() {
                    bad = look(s);
                }
            });
            ctx.max("max_stack_shown", deep as u64);
            if let Some(e) = bad.or_else(|| look(&d)) {
                return fail(format!("{}: {e}", k.name()));
            }
            ctx.count("stacks_shown", steps);
            ctx.judged(whash(&g, w), steps > 1);
            let Err(e) = res else { continue };
            let m = e.to_string();
            let parts: Vec<String> = match &e {
                Error::UnexpectedToken(f, ex) => std::iter::once(format!("{f:?}")).chain(ex.iter().map(|x| format!("{x:?}"))).collect(),
                Error::Conflict(a, b) => vec![format!("{a:?}"), format!("{b:?}")],
                _ => vec![],
            };
            // in this order, whatever stands between
            let mut at = 0;
            for x in &parts {
                match m[at..].find(x.as_str()) {
                    Some(i) => at += i + x.len(),
                    None => return fail(format!("{}: the message {m:?} does not tell {x}; the error is {e:?}", k.name())),
                }
            }
            ctx.count(if parts.is_empty() { "errors_without_parts" } else { "errors_shown" }, 1);
            ctx.sample(|| format!("{} [{}] {} : {m}", k.name(), g.show(), g.show_word(w)));
        }
    });
    // the kinds of errors can be told apart
    let all: Vec<Error<Sy>> = vec![
        Error::UnexpectedToken(Sy::make(&g, 0), vec![]),
        Error::UnexpectedEof,
        Error::Conflict(lrp::Action::Acc, lrp::Action::Shift(1)),
        Error::MissingPreviousState,
        Error::StateNotSpecified,
        Error::IncompleteExec,
    ];
    let texts: BTreeSet<String> = all.iter().map(ToString::to_string).collect();
    if texts.len() != all.len() || texts.contains("") {
        return fail(format!("errors of different kinds are shown alike: {texts:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------- C33

/// First token of what the last symbol of the entry production stands for.
fn corner(v: &V) -> usize {
    let mut x = v.clone();
    while let Some(k) = x.0.kids.first().map(|k| k.1.clone()) {
        x = k;
    }
    x.0.uid as usize
}

/// A parser whose table was not made accepts nothing and says why.
fn untabled<P: Parser<Sy>>(p: &P, g: &G, words: &[Vec<Sym>]) -> bool {
    words.iter().take(3).all(|w| matches!(p.simple_dfa(empties::<Sy>(g, w)).start(), Err(lrp::Error::StateNotSpecified)))
}

pub fn entries(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(1, 2) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    note(ctx, &g);
    let k = *ctx.rng.pick(&Kind::ALL);
    let r = Ref::new(&g);
    if r.lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut words = words_for(ctx, &g);
    words.retain(|w| w.len() < 500);
    strange_words(ctx, &g, &mut words);
    ctx.on("method", k.name().into());
    macro_rules! same {
        ($a:expr, $b:expr, $what:expr) => {
            if $a != $b {
                return fail(format!("{}: {} does not give the same parser", k.name(), $what));
            }
            ctx.count("parsers_compared", 1);
        };
    }
    let gr: Grammar<Sy> = sut::grammar::<Sy>(&g);
    let t = Tabler::new(gr.clone());
    match k {
        Kind::Clr => {
            let a = Clr::new(gr.clone());
            same!(a, Clr::with_table(t.clone()), "with_table");
            same!(a, a.clone(), "a copy");
            same!(a, Clr::new(gr), "building again");
            let u = Clr::uninit(t.clone());
            same!(u.tables(), &t, "uninit");
            same!(untabled(&u, &g, &words), true, "uninit, run all the same,");
        }
        Kind::Lalr => {
            let a = Lalr::new(gr.clone());
            same!(a, Lalr::with_table(t.clone()), "with_table");
            same!(a, a.clone(), "a copy");
            same!(a, Lalr::new(gr), "building again");
            let u = Lalr::uninit(t.clone());
            same!(u.tables(), &t, "uninit");
            same!(untabled(&u, &g, &words), true, "uninit, run all the same,");
        }
        Kind::Slr => {
            let a = Slr::new(gr.clone());
            same!(a, Slr::with_table(t.clone()), "with_table");
            same!(a, a.clone(), "a copy");
            same!(a, Slr::new(gr), "building again");
            let u = Slr::uninit(t.clone());
            same!(u.tables(), &t, "uninit");
            same!(untabled(&u, &g, &words), true, "uninit, run all the same,");
        }
    }
    with_parser!(k, &g, Sy, p => {
        let t = p.tables();
        if t.first != Tabler::new(t.grammar.clone()).first || t.follow != Tabler::new(t.grammar.clone()).follow {
            return fail(format!("{}: the parser's FIRST or FOLLOW sets are not those of its grammar", k.name()));
        }
        let maps: ReductMap<(), Sy> = p.empty::<std::vec::IntoIter<Token<(), Sy>>>();
        if maps.len() != g.nn || maps.iter().any(|(r, f)| g.prods.get(r.id() as usize).map(Vec::len) != Some(f.len())) {
            return fail(format!("{}: the empty reductors are not one for each production", k.name()));
        }
        for w in &words {
            ctx.on("input", g.show_word(w));
            let base = sut::run(&p, &g, w);
            let ok = base.out == Out::Ok;
            let mut outs: Vec<(&str, Out)> = vec![];
            outs.push(("validate", if p.validate(empties::<Sy>(&g, w)) { Out::Ok } else if ok { Out::NoState } else { base.out.clone() }));
            let parsed = p.parse(tokens::<Sy>(&g, w), reductors::<Sy>(&g));
            outs.push(("parse", match &parsed { Ok(_) => Out::Ok, Err(e) => sut::err_of(&g, e) }));
            outs.push(("simple_dfa", sut::out_of(&g, &p.simple_dfa(empties::<Sy>(&g, w)).start())));
            outs.push(("simple_dfa on to_tokens", sut::out_of(&g, &p.simple_dfa(lrp::to_tokens(w.iter().map(|s| Sy::make(&g, *s)))).start())));
            let mut d = Dfa::new(tokens::<Sy>(&g, w).into_iter(), t.actions.clone(), reductors::<Sy>(&g), Sy::make(&g, g.eof()));
            outs.push(("a machine made by hand", sut::out_of(&g, &d.start())));
            let mut d = p.dfa(tokens::<Sy>(&g, &[]).into_iter(), reductors::<Sy>(&g));
            let again = d.parse(tokens::<Sy>(&g, w).into_iter());
            outs.push(("the machine's parse", match &again { Ok(_) => Out::Ok, Err(e) => sut::err_of(&g, e) }));
            let toks: Vec<Token<Sy, Sy>> = w.iter().map(|s| Token::new(Sy::make(&g, *s), Sy::make(&g, *s))).collect();
            let cl = p.parse(toks, p.cloned::<std::vec::IntoIter<Token<Sy, Sy>>>());
            outs.push(("parse with the cloning reductors", match &cl { Ok(_) => Out::Ok, Err(e) => sut::err_of(&g, e) }));
            if let Some(o) = outs.iter().find(|o| o.1 != base.out) {
                return fail(format!("{}: {} ends with {:?}, a run of the machine with {:?}", k.name(), o.0, o.1, base.out));
            }
            if ok {
                let last = base.items.last().expect("an item");
                let (Ok(a), Ok(b), Ok(c)) = (&parsed, &again, &cl) else { return fail("no value") };
                let (n, x, y) = (shape_len(&last.item), shape_len(a), shape_len(b));
                let at = corner(&last.item);
                if (x, corner(a)) != (n, at) || (y, corner(b)) != (n, at) {
                    return fail(format!("{}: the value of parse has {x} parts, that of the machine's parse {y}, the one on the stack {n}", k.name()));
                }
                // the cloning reductors give the type of their first symbol, a rule's name above a rule
                let top = last.item.0.kids.first().map_or(last.ty.id(), |k| k.0);
                if c.id() != top {
                    return fail(format!("{}: with the cloning reductors the value is {}, its first part is {}", k.name(), g.name(c.id()), g.name(top)));
                }
                ctx.count("accepted", 1);
            } else {
                ctx.count("rejected", 1);
            }
            ctx.count("runs_compared", outs.len() as u64);
            ctx.judged(whash(&g, w), w.len() > 1);
        }
        ctx.sample(|| format!("{} [{}] {} words, eight ways", k.name(), g.show(), words.len()));
    });
    Ok(())
}
