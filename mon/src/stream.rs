//! C35 and C36: how tokens are taken from their source, and what a run costs.
use crate::alloc::total;
use crate::gram::{Sym, G, MIX, MIX_LR};
use crate::harness::on_stack;
use crate::props::{endless, pick, strange_words, whash, with_parser, words_for, BUDGET, CAP};
use crate::refm::Ref;
use crate::sut::{self, *};
use crate::{fail, Ctx, Res};
use lrp::{Clr, Dfa, Lalr, Parser, ReductFn, ReductMap, Slr, Token};
use std::cell::Cell;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

// ------------------------------------------------------------------------- C35

thread_local! {
    /// tokens handed out
    static GIVEN: Cell<usize> = const { Cell::new(0) };
    /// times the source was asked when it had no more
    static ENDED: Cell<usize> = const { Cell::new(0) };
    /// whether more was asked for than there may be
    static OVER: Cell<bool> = const { Cell::new(false) };
    /// clones made of values
    static CLONES: Cell<u64> = const { Cell::new(0) };
    static REDUCED: Cell<u64> = const { Cell::new(0) };
}

/// A source that counts what is taken. One without end goes on with any symbols and claims so; it
/// stops, and remembers it, when more than `limit` are taken.
struct Source {
    syms: Vec<Sy>,
    at: usize,
    endless: bool,
    limit: usize,
}

impl Source {
    fn next_sym(&mut self) -> Option<Sy> {
        if self.at >= self.limit {
            OVER.with(|o| o.set(true));
            return None;
        }
        let s = match self.syms.get(self.at) {
            Some(s) => s.clone(),
            None if self.endless && !self.syms.is_empty() => self.syms[self.at % self.syms.len()].clone(),
            None => {
                ENDED.with(|e| e.set(e.get() + 1));
                // one that begins again after its end is not to be asked again
                return if ENDED.with(Cell::get) > 1 { self.syms.first().cloned() } else { None };
            }
        };
        self.at += 1;
        GIVEN.with(|g| g.set(g.get() + 1));
        Some(s)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        if self.endless {
            (usize::MAX, None)
        } else {
            (0, None)
        }
    }
}

struct Wide(Source);
impl Iterator for Wide {
    type Item = Token<usize, Sy>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next_sym().map(|s| Token::new(1, s))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}

struct Bare(Source);
impl Iterator for Bare {
    type Item = Token<(), Sy>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next_sym().map(Token::empty)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}

/// A run: nothing is taken yet, the limit is `limit`.
fn source(g: &G, w: &[Sym], endless: bool, limit: usize) -> Source {
    GIVEN.with(|g| g.set(0));
    ENDED.with(|g| g.set(0));
    OVER.with(|g| g.set(false));
    Source { syms: w.iter().map(|s| Sy::make(g, *s)).collect(), at: 0, endless, limit }
}

fn given() -> usize {
    GIVEN.with(Cell::get)
}

fn width(t: &[Token<usize, Sy>]) -> usize {
    charge(1000);
    t.iter().map(|t| t.item).sum()
}

fn every<T: Clone>(g: &G, f: ReductFn<T, Sy>) -> ReductMap<T, Sy> {
    g.prods.iter().enumerate().map(|(l, ps)| (Sy::make(g, l as Sym), vec![f; ps.len()])).collect()
}

fn shifted(d: &Dfa<usize, Sy, Wide>) -> usize {
    d.items.iter().map(|t| t.item).sum()
}

pub fn lazy(ctx: &mut Ctx) -> Res {
    if ctx.index % 64 == 1 {
        return answers(ctx);
    }
    let mix = if ctx.rng.chance(1, 3) { MIX } else { MIX_LR };
    let g = pick(ctx, mix);
    let k = *ctx.rng.pick(&Kind::ALL);
    if Ref::new(&g).lr1(CAP).is_none() || endless(k, &g) {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let mut words = words_for(ctx, &g);
    words.retain(|w| w.len() < 500);
    strange_words(ctx, &g, &mut words);
    let mut rng = ctx.rng.clone();
    rng.shuffle(&mut words);
    words.truncate(30);
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        for w in &words {
            ctx.on("input", g.show_word(w));
            let n = w.len();
            // a run that is watched
            let mut d = p.dfa(Wide(source(&g, w, false, usize::MAX)), every::<usize>(&g, width));
            if given() + ENDED.with(Cell::get) != 0 {
                return fail(format!("{}: {} tokens are taken before the machine runs", k.name(), given()));
            }
            let mut bad = None;
            let mut steps = 0u64;
            let res = d.trace(|m| {
                steps += 1;
                if bad.is_none() && given() > shifted(m) + 1 {
                    bad = Some((given(), shifted(m)));
                }
            });
            let out = sut::out_of(&g, &res);
            if let Some((a, b)) = bad {
                return fail(format!("{}: before a step {a} tokens are taken with {b} shifted", k.name()));
            }
            let (taken, used) = (given(), shifted(&d));
            if taken > used + 1 {
                return fail(format!("{}: the run ends with {out:?} when {taken} tokens are taken and {used} shifted", k.name()));
            }
            if ENDED.with(Cell::get) > 1 {
                return fail(format!("{}: the source is asked again after its end", k.name()));
            }
            if res.is_ok() && taken != n {
                return fail(format!("{}: accepted after {taken} of {n} tokens", k.name()));
            }
            d.reset();
            if given() != taken {
                return fail(format!("{}: a reset takes {} tokens", k.name(), given() - taken));
            }
            // what was not shifted is still there to be taken
            let left: Vec<Sym> = d.buffer.by_ref().map(|t| t.ty.id()).take(n + 1).collect();
            if left != w[used.min(n)..] {
                return fail(format!("{}: after {out:?} with {used} tokens shifted the machine's buffer gives {} of {} others", k.name(), left.len(), n - used.min(n)));
            }
            drop(d);
            ctx.count("steps_observed", steps);
            // how far every other way to run reads. What comes after the wrong token is never
            // looked at, there may be no end of it; an accepted input ends, and that is seen once.
            let ended = taken == used;
            let (w2, more): (&[Sym], bool) = if ended { (w, false) } else { (&w[..taken], true) };
            let limit = if ended { usize::MAX } else { taken };
            macro_rules! way {
                ($name:expr, $run:expr) => {{
                    let o: Out = $run;
                    if o != out {
                        return fail(format!("{}: {} ends with {o:?} on a source that counts, with {out:?} when traced", k.name(), $name));
                    }
                    if OVER.with(Cell::get) {
                        return fail(format!("{}: {} takes more than the {taken} tokens that settle its outcome {out:?}", k.name(), $name));
                    }
                    if ENDED.with(Cell::get) > 1 {
                        return fail(format!("{}: {} asks the source again after its end", k.name(), $name));
                    }
                    if given() != taken {
                        return fail(format!("{}: {} takes {} tokens, a traced run {taken}", k.name(), $name, given()));
                    }
                    ctx.count("runs_compared", 1);
                }};
            }
            let src = || source(&g, w2, more, limit);
            let of = |r: Result<usize, lrp::Error<Sy>>| match &r {
                Ok(_) => Out::Ok,
                Err(e) => sut::err_of(&g, e),
            };
            way!("start", sut::out_of(&g, &p.dfa(Wide(src()), every::<usize>(&g, width)).start()));
            way!("parse", of(p.parse(Wide(src()), every::<usize>(&g, width))));
            way!("simple_dfa", sut::out_of(&g, &p.simple_dfa(Bare(src())).start()));
            way!("validate", match p.validate(Bare(src())) {
                true => Out::Ok,
                false if out == Out::Ok => Out::NoState,
                false => out.clone(),
            });
            let mut m = p.dfa(Wide(source(&g, &[], false, usize::MAX)), every::<usize>(&g, width));
            way!("the machine's parse", of(m.parse(Wide(src()))));
            // the same by hand, no token looked at before it is shifted
            let mut m = p.dfa(Wide(source(&g, w, false, usize::MAX)), every::<usize>(&g, width));
            for _ in 0..steps {
                let i = shifted(&m);
                let s = w.get(i).map_or_else(|| m.eof.clone(), |s| Sy::make(&g, *s));
                if g.is_nt(s.id()) || m.travel(&s).is_err() || m.finished {
                    break;
                }
                if given() != shifted(&m) {
                    return fail(format!("{}: by hand, {} tokens are taken and {} shifted", k.name(), given(), shifted(&m)));
                }
            }
            ctx.count(if res.is_ok() { "accepted" } else { "rejected" }, 1);
            if more {
                ctx.count("sources_without_end", 5);
            }
            ctx.judged(whash(&g, w), steps > 2);
        }
    });
    ctx.rng = rng;
    ctx.sample(|| format!("{} [{}] {} sources, each read as far as needed", k.name(), g.show(), words.len()));
    Ok(())
}

/// The lrp command answers a line before it is given the next one.
fn answers(ctx: &mut Ctx) -> Res {
    let n = ctx.rng.range(1, 6);
    let lines: Vec<(String, bool)> = (0..n)
        .map(|_| {
            let d = ctx.rng.range(1, 8);
            let mut s = "(".repeat(d) + &")".repeat(d);
            let ok = ctx.rng.chance(1, 2);
            if !ok {
                s.push(*ctx.rng.pick(&['(', ']', 'd', 'x']));
            }
            (s, ok)
        })
        .collect();
    ctx.on("lines", format!("{lines:?}"));
    let exe = std::env::current_exe().expect("own path");
    let mut child = Command::new(exe.parent().expect("target/<profile>").join("lrpcli"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("running the tool");
    let mut stdin = child.stdin.take().expect("its input");
    let mut out = child.stdout.take().expect("its output");
    let (tx, rx) = mpsc::channel::<Vec<u8>>();
    let reader = std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        while let Ok(n) = out.read(&mut b) {
            if n == 0 || tx.send(b[..n].to_vec()).is_err() {
                break;
            }
        }
    });
    // it asks for a line when it is done with what came before
    let wait = |asked: usize| -> Result<Vec<u8>, Vec<u8>> {
        let mut got: Vec<u8> = vec![];
        loop {
            if String::from_utf8_lossy(&got).matches("input: ").count() >= asked {
                return Ok(got);
            }
            match rx.recv_timeout(Duration::from_secs(60)) {
                Ok(b) => got.extend(b),
                Err(_) => return Err(got),
            }
        }
    };
    let mut res = Ok(());
    if wait(1).is_err() {
        res = fail("the tool does not ask for a line before it is given one");
    }
    for (s, ok) in &lines {
        if res.is_err() {
            break;
        }
        let _ = stdin.write_all(format!("{s}\n").as_bytes());
        let _ = stdin.flush();
        match wait(1) {
            Ok(t) => {
                let t = String::from_utf8_lossy(&t).to_string();
                if t.contains("unexpected token") || t.contains("unknown symbol") {
                    if *ok {
                        res = fail(format!("the tool rejects {s:?} before it is given the next line"));
                    }
                } else if !(*ok && t.contains("ok")) {
                    res = fail(format!("{s:?} has no answer, or a wrong one, before the tool is given the next line"));
                }
                ctx.count("lines_answered_at_once", 1);
            }
            Err(t) => res = fail(format!("the tool has not answered {s:?} before it is given the next line, it printed {} bytes", t.len())),
        }
    }
    drop(stdin);
    if res.is_err() {
        let _ = child.kill();
    }
    let _ = child.wait();
    let _ = reader.join();
    ctx.judged(ctx.index, false);
    res
}

// ------------------------------------------------------------------------- C36

/// A value that counts its copies; small, and nothing hangs on it.
struct Thin(u32);
impl Clone for Thin {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        Self(self.0)
    }
}

fn thin(t: &[Token<Thin, Sy>]) -> Thin {
    REDUCED.with(|r| r.set(r.get() + 1));
    // guards against reducing for ever
    tick();
    Thin(t.len() as u32)
}

#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    tokens: u64,
    reductions: u64,
    ops: u64,
    clones: u64,
    bytes: u64,
}

impl Cost {
    /// Steps of the machine.
    fn steps(&self) -> u64 {
        self.tokens + self.reductions + 1
    }
}

fn cost(f: impl FnOnce()) -> Cost {
    REDUCED.with(|r| r.set(0));
    CLONES.with(|r| r.set(0));
    let (ops, bytes) = (sut::used(), total());
    f();
    Cost {
        tokens: 0,
        reductions: REDUCED.with(Cell::get),
        ops: sut::used() - ops,
        clones: CLONES.with(Cell::get),
        bytes: total() - bytes,
    }
}

fn long(ctx: &mut Ctx, g: &G) -> Vec<Vec<Sym>> {
    let mut rng = ctx.rng.clone();
    let mut out: Vec<Vec<Sym>> = vec![];
    for _ in 0..8 {
        let size = *rng.pick(&[300, 1000, 3000, 8000]);
        if let Some(w) = g.long_sentence(&mut rng, size) {
            if w.len() >= 60 && w.len() <= 20_000 {
                out.push(w);
            }
        }
        if out.len() >= 3 {
            break;
        }
    }
    // wrong at some place
    for i in 0..out.len() {
        let mut w = out[i].clone();
        let at = rng.below(w.len());
        w[at] = *rng.pick(&g.terms());
        out.push(w);
        if rng.chance(1, 2) {
            let mut w = out[i].clone();
            w.truncate(at);
            out.push(w);
        }
    }
    ctx.rng = rng;
    out
}

pub fn linear(ctx: &mut Ctx) -> Res {
    // on a stack that does not hold a frame for every token
    on_stack(1 << 20, ctx, |c| {
        sut::set_budget(BUDGET);
        linear_in(c)
    })
}

fn linear_in(ctx: &mut Ctx) -> Res {
    let g = pick(ctx, MIX_LR);
    let k = *ctx.rng.pick(&Kind::ALL);
    {
        let r = Ref::new(&g);
        if endless(k, &g) {
            return Ok(());
        }
        let Some(a) = r.lr1(CAP) else {
            ctx.count("skipped_large_or_cyclic", 1);
            return Ok(());
        };
        let a = match k {
            Kind::Clr => a,
            Kind::Lalr => r.lalr(),
            Kind::Slr => r.slr(),
        };
        if a.conflicts() > 0 {
            ctx.count("skipped_conflicting", 1);
            return Ok(());
        }
    }
    let words = long(ctx, &g);
    if words.is_empty() {
        ctx.count("skipped_short", 1);
        return Ok(());
    }
    ctx.on("method", k.name().into());
    with_parser!(k, &g, Sy, p => {
        let row = p.tables().actions.iter().map(|r| r.len()).max().unwrap_or(0) as u64;
        let toks = |w: &[Sym]| -> Vec<Token<Thin, Sy>> { w.iter().map(|s| Token::new(Thin(1), Sy::make(&g, *s))).collect() };
        // what the machine itself costs, its table among it
        let maps = every::<Thin>(&g, thin);
        let empty = toks(&[]);
        let bare = cost(|| drop(p.dfa(empty.into_iter(), maps)));
        for w in &words {
            ctx.on("input", format!("{} tokens, {}", w.len(), g.show_word(&w[..w.len().min(300)])));
            let mut runs: Vec<(&str, Cost, bool)> = vec![];
            let mut d = p.dfa(toks(w).into_iter(), every::<Thin>(&g, thin));
            let mut ok = false;
            let c = cost(|| ok = d.start().is_ok());
            let used = (w.len() - d.buffer.len()) as u64;
            runs.push(("start", Cost { tokens: used, ..c }, ok));
            // again on the same machine
            let v = toks(w);
            let c = cost(|| ok = d.parse(v.into_iter()).is_ok());
            runs.push(("the machine's parse", Cost { tokens: used, ..c }, ok));
            drop(d);
            let (v, m) = (toks(w), every::<Thin>(&g, thin));
            let c = cost(|| ok = p.parse(v, m).is_ok());
            runs.push(("parse", Cost { tokens: used, ops: c.ops.saturating_sub(bare.ops), bytes: c.bytes.saturating_sub(bare.bytes), ..c }, ok));
            for (name, c, ok) in &runs {
                let s = c.steps();
                let per = (c.ops / s).max(1);
                ctx.max("max_symbol_operations_per_step", per);
                ctx.max("max_bytes_per_step", c.bytes / s);
                let what = format!("{}: {name} of {} tokens with {} reductions ({})", k.name(), c.tokens, c.reductions, if *ok { "accepted" } else { "rejected" });
                if c.ops > s * (400 + 10 * row) + 4000 {
                    return fail(format!("{what} needs {} symbol operations, {per} for every step", c.ops));
                }
                if c.clones > 4 * s + 16 {
                    return fail(format!("{what} copies {} values", c.clones));
                }
                if c.bytes > s * 2048 + 64 * row + 65_536 {
                    return fail(format!("{what} allocates {} bytes", c.bytes));
                }
                ctx.count("runs_measured", 1);
                ctx.max("max_tokens", c.tokens);
                ctx.count("tokens_consumed", c.tokens);
                ctx.count("reductions", c.reductions);
            }
            ctx.count(if ok { "accepted" } else { "rejected" }, 1);
            ctx.judged(whash(&g, w), w.len() > 60);
        }
        ctx.sample(|| format!("{} [{}] {:?} tokens", k.name(), g.show(), words.iter().map(Vec::len).collect::<Vec<_>>()));
    });
    Ok(())
}
