//! C37: the stages of table making, each by itself, against what they are defined to be and against
//! the parser they are the stages of.
use crate::gram::{Sym, G, MIX, MIX_RAW};
use crate::props::{bodies, endless, pick, Body, CAP};
use crate::refm::{self, Ref};
use crate::rng::Rng;
use crate::sut::{self, *};
use crate::{fail, Ctx, Res};
use lrp::{Action, Clr, Lalr, Map, Parser, Position, Set, Slr, State, Table, Tabler};
use std::collections::{BTreeMap, BTreeSet};

type Sets = BTreeMap<Sym, BTreeSet<Sym>>;

fn sets(t: &Table<Sy>) -> Sets {
    t.iter().map(|(k, v)| (k.id(), v.iter().map(Symbol::id).collect())).collect()
}

fn within(a: &Sets, b: &Sets) -> bool {
    a.iter().all(|(k, v)| v.is_empty() || b.get(k).is_some_and(|w| v.is_subset(w)))
}

/// Every set with those of the rules in it.
fn stepped(s: &Sets) -> Sets {
    let mut out = s.clone();
    for (k, v) in s {
        let add: Vec<Sym> = v.iter().filter_map(|x| s.get(x)).flatten().copied().collect();
        out.get_mut(k).unwrap().extend(add);
    }
    out
}

fn saturated(s: &Sets) -> Sets {
    let mut a = s.clone();
    loop {
        let b = stepped(&a);
        if a == b {
            return a;
        }
        a = b;
    }
}

fn terminals(g: &G, s: &Sets) -> Sets {
    s.iter().map(|(k, v)| (*k, v.iter().copied().filter(|x| !g.is_nt(*x)).collect())).collect()
}

fn show(s: &Sets, g: &G) -> String {
    let one = |v: &BTreeSet<Sym>| v.iter().map(|x| g.name(*x)).collect::<Vec<_>>().join(" ");
    s.iter().map(|(k, v)| format!("{}: {{{}}}", g.name(*k), one(v))).collect::<Vec<_>>().join("; ")
}

/// FIRST and FOLLOW: what is begun with, each step, and steps on what is finished.
fn of_sets(ctx: &mut Ctx, g: &G, rng: &mut Rng) -> Res {
    let t = Tabler::new(sut::grammar::<Sy>(g));
    for (name, begun, done) in [("FIRST", sets(&t.gen_first()), sets(&t.first)), ("FOLLOW", sets(&t.gen_follow()), sets(&t.follow))] {
        let sat = terminals(g, &saturated(&begun));
        if !within(&sat, &done) || !within(&done, &sat) {
            return fail(format!("{name}: begun with {} ends as {}, the parser holds {}", show(&begun, g), show(&sat, g), show(&done, g)));
        }
    }
    let step = |first: bool, s: &Table<Sy>| if first { t.first_step(s) } else { t.follow_step(s) };
    for (first, name, begun, done) in [(true, "FIRST", t.gen_first(), &t.first), (false, "FOLLOW", t.gen_follow(), &t.follow)] {
        if sets(&step(first, done)) != sets(done) {
            return fail(format!("{name}: a step changes the finished sets"));
        }
        // the table begun with, and any other
        let mut any: Table<Sy> = Table::new();
        for l in 0..g.nn {
            let of: Set<Sy> = (0..rng.below(4)).map(|_| Sy::make(g, rng.below(g.nn + g.nt) as Sym)).collect();
            any.insert(Sy::make(g, l as Sym), of);
        }
        for from in [begun, any] {
            let (a, b) = (sets(&from), sets(&step(first, &from)));
            if !within(&stepped(&a), &b) || !within(&b, &saturated(&a)) {
                return fail(format!("{name}: a step from {} gives {}", show(&a, g), show(&b, g)));
            }
            ctx.count("steps", 1);
        }
    }
    let mut again = t.clone();
    for _ in 0..rng.range(1, 3) {
        match rng.below(2) {
            0 => again.proc_first(),
            _ => again.proc_follow(),
        }
    }
    if again != t {
        return fail("finishing FIRST or FOLLOW again changes them");
    }
    // from the beginning, by hand
    again.first = again.gen_first();
    again.proc_first();
    again.follow = again.gen_follow();
    again.proc_follow();
    if again != t {
        return fail("FIRST and FOLLOW made again differ");
    }
    let b = t.basis_pos();
    if b != t.grammar.basis() || b.point != 0 || b.rule.id() != 0 || b.look.iter().map(Symbol::id).collect::<Vec<_>>() != [g.eof()] {
        return fail(format!("the first position is {b:?}"));
    }
    Ok(())
}

/// `transitive` ends at the first repetition and nowhere else.
fn of_transitive(rng: &mut Rng) -> Res {
    let n = rng.range(1, 40);
    let to: Vec<usize> = (0..n).map(|i| rng.range(i, n - 1)).collect();
    let from = rng.below(n);
    let mut want = from;
    while to[want] != want {
        want = to[want];
    }
    let got = lrp::transitive(from, |x| to[x]);
    if got != want {
        return fail(format!("transitive over {to:?} from {from} gives {got}"));
    }
    Ok(())
}

/// Items that may be stacked up anywhere: of random productions, anywhere in them.
fn random_items(g: &G, rng: &mut Rng) -> State<Sy> {
    let gr = sut::grammar::<Sy>(g);
    (0..rng.range(1, 4))
        .map(|_| {
            let rule = &gr.rules[&Sy::make(g, rng.below(g.nn) as Sym)];
            let prod = rng.pick(&rule.prods).clone();
            let point = rng.below(prod.0.len() + 1);
            let look: Set<Sy> = (0..rng.range(1, 3)).map(|_| Sy::make(g, (g.nn + rng.below(g.nt + 1)) as Sym)).collect();
            Position::new(rule.name.clone(), prod, point, look)
        })
        .collect()
}

/// What one step of closing has to add.
fn predicted(r: &Ref, s: &BTreeMap<Body, BTreeSet<Sym>>, looks: bool) -> BTreeMap<Body, BTreeSet<Sym>> {
    let g = r.g;
    let mut out = s.clone();
    for ((l, i, pt), look) in s {
        let rhs = &g.prods[*l as usize][*i];
        let Some(b) = rhs.get(*pt) else { continue };
        if !g.is_nt(*b) {
            continue;
        }
        let add: BTreeSet<Sym> = match rhs.get(pt + 1) {
            _ if !looks => BTreeSet::new(),
            Some(n) => refm::syms(g, refm::first_sym(g, &r.first, *n)).into_iter().collect(),
            None => look.clone(),
        };
        for q in 0..g.prods[*b as usize].len() {
            out.entry((*b, q, 0)).or_default().extend(add.iter().copied());
        }
    }
    out
}

fn below(a: &BTreeMap<Body, BTreeSet<Sym>>, b: &BTreeMap<Body, BTreeSet<Sym>>) -> bool {
    a.iter().all(|(k, v)| b.get(k).is_some_and(|w| v.is_subset(w)))
}

macro_rules! by_hand {
    ($ctx:expr, $g:expr, $r:expr, $rng:expr, $P:ident, $name:expr, $looks:expr) => {{
        let (ctx, g, r, rng) = ($ctx, $g, $r, $rng);
        let name = $name;
        let done = $P::<Sy>::new(sut::grammar::<Sy>(g));
        let t = done.tables();
        // the stages, one after another
        let mut p = $P::<Sy>::uninit(Tabler::new(sut::grammar::<Sy>(g)));
        if !p.tables().states.is_empty() || !p.tables().actions.is_empty() || !p.tables().kernels.is_empty() {
            return fail(format!("{name}: a parser not begun with has states"));
        }
        // unfinished: a move is what is reached, closed
        let all: Vec<Sym> = (0..(g.nn + g.nt) as Sym).collect();
        for _ in 0..4 {
            let seed = if rng.chance(1, 2) { random_items(g, rng) } else { rng.pick(&t.states).clone() };
            let sy = Sy::make(g, *rng.pick(&all));
            let moved = Tabler::sym_filter(&seed, &sy);
            match p.goto(&seed, &sy) {
                None if moved.is_empty() => {}
                Some((k, c)) if !moved.is_empty() && k == moved && c == p.prop_closure(moved.clone()) => {
                    ctx.count("moves", 1);
                }
                x => return fail(format!("{name}: moving {seed:?} over {} gives {x:?}", g.name(sy.id()))),
            }
            let one = bodies(&p.closure(seed.clone()));
            if !below(&predicted(r, &bodies(&seed), $looks), &one) || !below(&one, &bodies(&p.prop_closure(seed.clone()))) {
                return fail(format!("{name}: a step of closing {seed:?} gives {one:?}"));
            }
        }
        p.proc_closures_first_row();
        if p.tables().states.len() != 1 || p.tables().states[0] != t.states[0] || !p.tables().actions.is_empty() {
            return fail(format!("{name}: the first row is {:?}", p.tables().states));
        }
        let mut p = $P::<Sy>::uninit(Tabler::new(sut::grammar::<Sy>(g)));
        p.proc_closures();
        if p.tables().states != t.states || p.tables().kernels != t.kernels || !p.tables().actions.is_empty() {
            return fail(format!("{name}: the item sets made by themselves are not those of the parser"));
        }
        let mut p = $P::<Sy>::uninit(Tabler::new(sut::grammar::<Sy>(g)));
        p.proc_actions();
        if p != done {
            return fail(format!("{name}: the parser made by hand is another"));
        }
        // finished: no move is new, and the items of a state decide on its row and nothing else
        let start = t.basis_pos().rule;
        for (i, row) in t.states.iter().enumerate() {
            for s in &all {
                if let Some(x) = done.goto(row, &Sy::make(g, *s)) {
                    return fail(format!("{name}: state {i} moves over {} to {x:?}, which is not a state", g.name(*s)));
                }
            }
            let mut want: BTreeMap<Sym, BTreeSet<FAct>> = BTreeMap::new();
            for item in row {
                let d = done.decision(&start, item, row);
                if item.top().is_some() && d.keys().collect::<Vec<_>>() != vec![item.top().as_ref().unwrap()] {
                    return fail(format!("{name}: {item:?} decides {d:?}"));
                }
                for (s, a) in d {
                    sut::flatten(g, &a, want.entry(s.id()).or_default());
                }
            }
            let got = &sut::table(g, &t.actions[i..=i].to_vec())[0];
            if *got != want {
                return fail(format!("{name}: state {i}: actions {got:?}, its items decide {want:?}"));
            }
            ctx.count("rows_decided", 1);
        }
        merging(ctx, g, rng, name, t)?;
        t.states.len()
    }};
}

/// The two halves of merging equal states.
fn merging(ctx: &mut Ctx, g: &G, rng: &mut Rng, name: &str, t: &Tabler<Sy>) -> Res {
    let mut t = t.clone();
    // double some rows, so that there is something to merge
    for _ in 0..rng.below(4) {
        let i = rng.below(t.actions.len());
        t.actions.push(t.actions[i].clone());
        t.states.push(t.states[i].clone());
    }
    let before = t.clone();
    let (to, rows) = t.reduced_actions();
    if t != before {
        return fail(format!("{name}: looking for equal states changes the table"));
    }
    if rows.iter().collect::<BTreeSet<_>>().len() != rows.len() {
        return fail(format!("{name}: equal rows are left"));
    }
    if to.keys().copied().ne(0..t.actions.len()) || t.actions.iter().enumerate().any(|(i, a)| rows.get(to[&i]) != Some(a)) {
        return fail(format!("{name}: {to:?} does not lead every state to its row"));
    }
    if to.get(&0) != Some(&0) || to.values().collect::<BTreeSet<_>>().len() != rows.len() {
        return fail(format!("{name}: {to:?} leaves rows out, or moves the start"));
    }
    // any renaming, on any action
    let n = t.actions.len();
    let names: Map<usize, usize> = (0..n).map(|i| (i, rng.below(2 * n))).collect();
    let mut some: Vec<Action<Sy>> = t.actions.iter().flat_map(|m| m.values().cloned()).collect();
    for _ in 0..4 {
        let (a, b) = (rng.pick(&some).clone(), rng.pick(&some).clone());
        some.push(Action::Conflict(Box::new(a), Box::new(b)));
    }
    for a in &some {
        let mut b = a.clone();
        Tabler::update_entry(&mut b, &names);
        if b != renamed(a, &names) {
            return fail(format!("{name}: {a:?} renamed by {names:?} is {b:?}"));
        }
    }
    ctx.count("actions_renamed", some.len() as u64);
    let mut m = t.clone();
    m.reduce_equals();
    let want: Vec<_> = rows.iter().map(|r| r.iter().map(|(k, a)| (k.clone(), renamed(a, &to))).collect::<Map<_, _>>()).collect();
    if m.actions != want {
        return fail(format!("{name}: merging is not the renaming of the merged rows"));
    }
    let _ = g;
    Ok(())
}

fn renamed(a: &Action<Sy>, to: &Map<usize, usize>) -> Action<Sy> {
    match a {
        Action::Shift(n) => Action::Shift(to[n]),
        Action::Goto(n) => Action::Goto(to[n]),
        Action::Conflict(x, y) => Action::Conflict(Box::new(renamed(x, to)), Box::new(renamed(y, to))),
        x => x.clone(),
    }
}

/// LALR: what is learnt about a state reaches what follows from it, and nothing else.
fn updates(ctx: &mut Ctx, g: &G, r: &Ref, rng: &mut Rng) -> Result<usize, crate::Fail> {
    let name = "LALR";
    let done = Lalr::<Sy>::new(sut::grammar::<Sy>(g));
    let t = done.tables();
    merging(ctx, g, rng, name, t)?;
    let mut p = Lalr::<Sy>::uninit(Tabler::new(sut::grammar::<Sy>(g)));
    p.proc_closures_first_row();
    if p.tables().states.len() != 1 || p.tables().states[0] != t.states[0] {
        return fail(format!("{name}: the first row is {:?}", p.tables().states));
    }
    let kernels: Vec<(State<Sy>, usize)> = t.kernels.iter().filter(|(k, _)| !k.is_empty()).map(|(k, i)| (k.clone(), *i)).collect();
    let Some((main, id)) = (!kernels.is_empty()).then(|| rng.pick(&kernels).clone()) else { return Ok(t.states.len()) };
    let cut = |rng: &mut Rng| -> State<Sy> {
        main.iter()
            .map(|q| {
                let look = q.look.iter().filter(|_| rng.chance(1, 2)).cloned().collect();
                q.clone().with_look(look)
            })
            .collect()
    };
    // nothing new, and news about nothing
    let known = cut(rng);
    let unknown = random_items(g, rng);
    for deep in [true, false] {
        let say = |main: &State<Sy>, inc: State<Sy>| {
            let mut q = done.clone();
            let c = q.prop_closure(inc.clone());
            let x = if deep { q.update_closures(main, inc, c) } else { q.update_state(main, inc, c) };
            // a kernel not yet written with one item per body may be rewritten so
            let told = x.is_some() && Lalr::<Sy>::merged(main.clone()) == *main;
            let same = q.tables().states.len() == t.states.len() && q.tables().states.iter().zip(&t.states).all(|(a, b)| bodies(a) == bodies(b));
            told || !same || q.tables().actions != t.actions || q.state_from_kernel(main) != done.state_from_kernel(main)
        };
        if say(&main, known.clone()) || say(&main, main.clone()) {
            return fail(format!("{name}: telling state {id} what it knows changes something"));
        }
        if !t.kernels.contains_key(&unknown) && say(&unknown, known.clone()) {
            return fail(format!("{name}: telling a state that is not there changes something"));
        }
        ctx.count("updates_without_news", 3);
    }
    // one more lookahead
    let l = Sy::make(g, (g.nn + rng.below(g.nt + 1)) as Sym);
    let which = rng.below(main.len());
    let inc: State<Sy> = main
        .iter()
        .enumerate()
        .map(|(i, q)| {
            let mut look = q.look.clone();
            if i == which {
                look.insert(l.clone());
            }
            q.clone().with_look(look)
        })
        .collect();
    if inc == main {
        return Ok(t.states.len());
    }
    for deep in [false, true] {
        let mut q = done.clone();
        let c = q.prop_closure(inc.clone());
        let new = if deep { q.update_closures(&main, inc.clone(), c) } else { q.update_state(&main, inc.clone(), c) };
        // what every state has to hold now
        let mut want: Vec<BTreeMap<Body, BTreeSet<Sym>>> = t.states.iter().map(bodies).collect();
        for (b, s) in bodies(&inc) {
            want[id].entry(b).or_default().extend(s);
        }
        let next: Vec<BTreeMap<Sym, usize>> = sut::table(g, &t.actions)
            .iter()
            .map(|m| {
                m.iter()
                    .filter_map(|(s, a)| {
                        a.iter().find_map(|x| match x {
                            FAct::Shift(n) | FAct::Goto(n) => Some((*s, *n)),
                            _ => None,
                        })
                    })
                    .collect()
            })
            .collect();
        loop {
            let mut grown = false;
            for i in 0..want.len() {
                if !deep && i != id {
                    continue;
                }
                let c = predicted(r, &want[i], true);
                grown |= c != want[i];
                want[i] = c;
                if !deep {
                    continue;
                }
                for (b, s) in want[i].clone() {
                    if let Some(x) = g.prods[b.0 as usize][b.1].get(b.2) {
                        let to = want[next[i][x]].entry((b.0, b.1, b.2 + 1)).or_default();
                        let n = to.len();
                        to.extend(s);
                        grown |= to.len() > n;
                    }
                }
            }
            if !grown {
                break;
            }
        }
        let have: Vec<_> = q.tables().states.iter().map(bodies).collect();
        if let Some(i) = (0..want.len()).find(|i| have.get(*i) != Some(&want[*i])) {
            return fail(format!("{name}: state {id} learns that {} may follow item {which}; then state {i} holds {:?}, not {:?}", g.name(l.id()), have.get(i), want[i]));
        }
        let Some(new) = new else { return fail(format!("{name}: a new lookahead is not reported")) };
        let kernel: BTreeMap<Body, BTreeSet<Sym>> = bodies(&inc).into_keys().map(|b| (b, want[id][&b].clone())).collect();
        if bodies(&new) != kernel || q.final_kernel(&main) != Some(&new) || q.state_from_kernel(&new) != Some(id) || q.state_from_kernel(&main) != Some(id) {
            return fail(format!("{name}: state {id} is now known as {new:?}"));
        }
        if q.tables().kernels.len() != t.kernels.len() || q.tables().actions != t.actions || q.tables().kernels.values().collect::<BTreeSet<_>>().len() != t.states.len() {
            return fail(format!("{name}: learning a lookahead loses or adds a state"));
        }
        ctx.count("updates_with_news", 1);
        if have.iter().zip(t.states.iter().map(bodies)).filter(|(a, b)| **a != *b).count() > 1 {
            ctx.count("updates_passed_on", 1);
        }
    }
    Ok(t.states.len())
}

pub fn stages(ctx: &mut Ctx) -> Res {
    let mix = if ctx.rng.chance(2, 3) { MIX } else { MIX_RAW };
    let g = pick(ctx, mix);
    let r = Ref::new(&g);
    let k = *ctx.rng.pick(&Kind::ALL);
    let mut rng = ctx.rng.clone();
    of_transitive(&mut rng)?;
    of_sets(ctx, &g, &mut rng)?;
    if r.lr1(CAP / 3).is_none() || endless(k, &g) {
        ctx.count("sets_only", 1);
        ctx.judged(g.hash(), false);
        return Ok(());
    }
    ctx.on("method", k.name().into());
    let n = match k {
        Kind::Clr => by_hand!(&mut *ctx, &g, &r, &mut rng, Clr, "CLR", true),
        Kind::Slr => by_hand!(&mut *ctx, &g, &r, &mut rng, Slr, "SLR", false),
        Kind::Lalr => updates(ctx, &g, &r, &mut rng)?,
    };
    ctx.judged(g.hash() ^ k as u64, n > 2);
    ctx.sample(|| format!("{} [{}] {n} states, by stages", k.name(), g.show()));
    ctx.rng = rng;
    Ok(())
}
