//! Adapter to the crate under test: instrumented symbol type, logging reductors, table views.
use crate::gram::{Sym, G};
use crate::refm::{Act, Auto};
use lrp::{Action, Error, Grammar, Map, Parser, ReductFn, ReductMap, Tabler, Token};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::rc::Rc;

// ---------------------------------------------------------------- logical watchdog

/// Panic payload: the logical step budget of a case is used up.
pub struct BudgetOut;

thread_local! {
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static USED: Cell<u64> = const { Cell::new(0) };
}

pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
    USED.with(|u| u.set(0));
}

pub fn used() -> u64 {
    USED.with(Cell::get)
}

/// Charges `n` operations at once.
pub fn charge(n: u64) {
    USED.with(|u| u.set(u.get() + n));
    BUDGET.with(|b| {
        let v = b.get();
        if v < n {
            b.set(u64::MAX);
            std::panic::panic_any(BudgetOut);
        }
        b.set(v - n);
    });
}

#[inline]
pub fn tick() {
    USED.with(|u| u.set(u.get() + 1));
    BUDGET.with(|b| {
        let v = b.get();
        if v == 0 {
            b.set(u64::MAX);
            std::panic::panic_any(BudgetOut);
        }
        b.set(v - 1);
    });
}

// ---------------------------------------------------------------- symbol types

/// A symbol type the monitored code can run on.
pub trait Symbol: Clone + Ord + fmt::Debug + 'static {
    fn make(g: &G, id: Sym) -> Self;
    fn id(&self) -> Sym;
}

/// Instrumented symbol: ordered by a key chosen per workload, every comparison and clone is
/// counted against the budget of the case.
pub struct Sy {
    key: u16,
    id: Sym,
}

impl Clone for Sy {
    fn clone(&self) -> Self {
        tick();
        Self { key: self.key, id: self.id }
    }
}
impl PartialEq for Sy {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.key == o.key
    }
}
impl Eq for Sy {}
impl PartialOrd for Sy {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Sy {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.key.cmp(&o.key)
    }
}
impl fmt::Debug for Sy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "s{}", self.id)
    }
}
impl fmt::Display for Sy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "s{}", self.id)
    }
}
impl Symbol for Sy {
    fn make(g: &G, id: Sym) -> Self {
        // ids outside the grammar sort after everything else
        Sy { key: g.key.get(id as usize).copied().unwrap_or(1000 + id), id }
    }
    fn id(&self) -> Sym {
        self.id
    }
}

// ---------------------------------------------------------------- values and reductors

#[derive(Debug)]
pub struct Node {
    pub uid: u32,
    /// usize::MAX for an input token, else the reductor that made it
    pub red: usize,
    /// (symbol id, value) of each child in the order the reductor got them
    pub kids: Vec<(Sym, V)>,
}

#[derive(Clone, Debug)]
pub struct V(pub Rc<Node>);

pub struct Event {
    pub red: usize,
    pub kids: Vec<u32>,
    pub uid: u32,
}

thread_local! {
    static LOG: RefCell<Vec<Event>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
}

/// Starts a fresh reduction log; `first` is the uid of the first reduced value.
pub fn log_start(first: u32) {
    LOG.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| n.set(first));
}
pub fn log_take() -> Vec<Event> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn log_truncate(n: usize) {
    LOG.with(|l| l.borrow_mut().truncate(n));
}
pub fn log_len() -> usize {
    LOG.with(|l| l.borrow().len())
}

fn red<M: Symbol, const N: usize>(toks: &[Token<V, M>]) -> V {
    red_any(N, toks)
}

#[inline(never)]
fn red_any<M: Symbol>(n: usize, toks: &[Token<V, M>]) -> V {
    reduced(n, toks.iter().map(|t| (t.ty.id(), t.item.clone())).collect())
}

thread_local! {
    static BOMB: Cell<Option<usize>> = const { Cell::new(None) };
}

/// The reduction after `n` more panics; None: none does.
pub fn bomb(n: Option<usize>) {
    BOMB.with(|b| b.set(n));
}

fn reduced(red: usize, kids: Vec<(Sym, V)>) -> V {
    BOMB.with(|b| match b.get() {
        Some(0) => {
            b.set(None);
            panic!("planned");
        }
        Some(n) => b.set(Some(n - 1)),
        None => {}
    });
    // a reduction is logged, so endless reducing has to stop before memory runs out
    charge(1000);
    let uid = NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    });
    LOG.with(|l| {
        l.borrow_mut().push(Event { red, kids: kids.iter().map(|k| k.1 .0.uid).collect(), uid });
    });
    V(Rc::new(Node { uid, red, kids }))
}

pub const MAX_PRODS: usize = 560;

macro_rules! row {
    ($m:ty, $v:ident, $($a:literal)*) => { $(
        $v.extend_from_slice(&[
            red::<$m, { $a * 16 }> as ReductFn<V, $m>, red::<$m, { $a * 16 + 1 }>, red::<$m, { $a * 16 + 2 }>, red::<$m, { $a * 16 + 3 }>,
            red::<$m, { $a * 16 + 4 }>, red::<$m, { $a * 16 + 5 }>, red::<$m, { $a * 16 + 6 }>, red::<$m, { $a * 16 + 7 }>,
            red::<$m, { $a * 16 + 8 }>, red::<$m, { $a * 16 + 9 }>, red::<$m, { $a * 16 + 10 }>, red::<$m, { $a * 16 + 11 }>,
            red::<$m, { $a * 16 + 12 }>, red::<$m, { $a * 16 + 13 }>, red::<$m, { $a * 16 + 14 }>, red::<$m, { $a * 16 + 15 }>,
        ]);
    )* };
}

/// One distinct reductor per production, numbered as `G::flat`.
pub fn reductors<M: Symbol>(g: &G) -> ReductMap<V, M> {
    let mut v: Vec<ReductFn<V, M>> = Vec::with_capacity(MAX_PRODS);
    row!(M, v, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34);
    let mut map: ReductMap<V, M> = Map::new();
    let mut n = 0;
    for (l, ps) in g.prods.iter().enumerate() {
        let fs = v[n..n + ps.len()].to_vec();
        n += ps.len();
        map.insert(M::make(g, l as Sym), fs);
    }
    map
}

pub fn leaf(i: u32) -> V {
    V(Rc::new(Node { uid: i, red: usize::MAX, kids: vec![] }))
}

pub fn tokens<M: Symbol>(g: &G, w: &[Sym]) -> Vec<Token<V, M>> {
    w.iter()
        .enumerate()
        .map(|(i, s)| Token::new(leaf(i as u32), M::make(g, *s)))
        .collect()
}

pub fn empties<M: Symbol>(g: &G, w: &[Sym]) -> Vec<Token<(), M>> {
    w.iter().map(|s| Token::empty(M::make(g, *s))).collect()
}

pub fn grammar<M: Symbol>(g: &G) -> Grammar<M> {
    let mut map = lrp::RuleMap::new();
    for (l, ps) in g.prods.iter().enumerate() {
        let name = M::make(g, l as Sym);
        let prods: Vec<Vec<M>> = ps.iter().map(|p| p.iter().map(|s| M::make(g, *s)).collect()).collect();
        map.insert(name.clone(), lrp::grammar::Rule::new(name, prods));
    }
    Grammar::new(M::make(g, 0), map, M::make(g, g.eof()))
}

// ---------------------------------------------------------------- table views

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum FAct {
    Shift(usize),
    Goto(usize),
    Reduce(u16),
    Acc,
    /// a reduction of something that is not a production of the grammar
    Bogus,
}

pub type FTable = Vec<BTreeMap<Sym, BTreeSet<FAct>>>;

fn flat_index<M: Symbol>(g: &G, name: &M, seq: &[M], idx: usize) -> FAct {
    let l = name.id() as usize;
    if l < g.nn && idx < g.prods[l].len() {
        let want = &g.prods[l][idx];
        if want.len() == seq.len() && want.iter().zip(seq).all(|(a, b)| *a == b.id()) {
            let before: usize = g.prods[..l].iter().map(Vec::len).sum();
            return FAct::Reduce((before + idx) as u16);
        }
    }
    FAct::Bogus
}

pub fn flatten<M: Symbol>(g: &G, a: &Action<M>, out: &mut BTreeSet<FAct>) {
    match a {
        Action::Shift(n) => {
            out.insert(FAct::Shift(*n));
        }
        Action::Goto(n) => {
            out.insert(FAct::Goto(*n));
        }
        Action::Reduce(name, p) => {
            out.insert(flat_index(g, name, &p.0, p.1));
        }
        Action::Acc => {
            out.insert(FAct::Acc);
        }
        Action::Conflict(x, y) => {
            flatten(g, x, out);
            flatten(g, y, out);
        }
    }
}

pub fn table<M: Symbol>(g: &G, t: &lrp::ActTable<M>) -> FTable {
    t.iter()
        .map(|m| {
            m.iter()
                .map(|(k, a)| {
                    let mut s = BTreeSet::new();
                    flatten(g, a, &mut s);
                    (k.id(), s)
                })
                .collect()
        })
        .collect()
}

/// Walks the table under test and a reference automaton in lockstep from their start states and
/// compares, for every viable prefix, the set of actions per lookahead and the gotos.
pub struct Walk {
    pub pairs: usize,
    /// table state -> reference states it was met with
    pub met: BTreeMap<usize, BTreeSet<usize>>,
    pub cells: usize,
    pub conflicts: usize,
}

pub fn lockstep(g: &G, t: &FTable, conflict_cells: &dyn Fn(usize, Sym) -> bool, a: &Auto) -> Result<Walk, String> {
    let mut seen: BTreeMap<(usize, usize), Vec<Sym>> = BTreeMap::new();
    let mut todo = vec![(0usize, 0usize)];
    seen.insert((0, 0), vec![]);
    let mut w = Walk { pairs: 0, met: BTreeMap::new(), cells: 0, conflicts: 0 };
    while let Some((i, r)) = todo.pop() {
        let path = seen[&(i, r)].clone();
        let at = || format!("after the viable prefix [{}]", g.show_word(&path));
        w.pairs += 1;
        w.met.entry(i).or_default().insert(r);
        let Some(row) = t.get(i) else {
            return Err(format!("{}: state {i} is not in the action table", at()));
        };
        let mut next: Vec<(Sym, usize, usize)> = vec![];
        for (s, acts) in row {
            w.cells += 1;
            if g.is_nt(*s) {
                let goto: Vec<usize> = acts.iter().filter_map(|x| if let FAct::Goto(n) = x { Some(*n) } else { None }).collect();
                let want = a.trans[r].get(s);
                if goto.len() != 1 || acts.len() != 1 || want.is_none() {
                    return Err(format!("{}: entry for nonterminal {} is {:?}, reference has {}", at(), g.name(*s), acts, want.map_or("none", |_| "one goto")));
                }
                next.push((*s, goto[0], *want.unwrap()));
                continue;
            }
            let none = BTreeSet::new();
            let want = a.acts[r].get(s).unwrap_or(&none);
            let mut got: BTreeSet<Act> = BTreeSet::new();
            let mut shifts = vec![];
            for x in acts {
                match x {
                    FAct::Shift(n) => {
                        got.insert(Act::Shift);
                        shifts.push(*n);
                    }
                    FAct::Reduce(p) => {
                        got.insert(Act::Reduce(*p));
                    }
                    FAct::Acc => {
                        got.insert(Act::Acc);
                    }
                    FAct::Goto(_) | FAct::Bogus => {
                        return Err(format!("{}: on terminal {} the action is {acts:?}", at(), g.name(*s)));
                    }
                }
            }
            if &got != want || shifts.len() > 1 {
                return Err(format!("{}, lookahead {}: actions {:?}, reference {:?}", at(), g.name(*s), acts, want));
            }
            if (want.len() > 1) != conflict_cells(i, *s) {
                return Err(format!("{}, lookahead {}: {} competing actions, but reported as conflict: {}", at(), g.name(*s), want.len(), conflict_cells(i, *s)));
            }
            if want.len() > 1 {
                w.conflicts += 1;
            }
            if let Some(n) = shifts.first() {
                next.push((*s, *n, a.trans[r][s]));
            }
        }
        for (s, want) in &a.acts[r] {
            if !row.contains_key(s) {
                return Err(format!("{}, lookahead {}: no action, reference {:?}", at(), g.name(*s), want));
            }
        }
        for s in a.trans[r].keys() {
            if !row.contains_key(s) {
                return Err(format!("{}: no transition on {}", at(), g.name(*s)));
            }
        }
        for (s, n, m) in next {
            if !seen.contains_key(&(n, m)) {
                let mut p = path.clone();
                p.push(s);
                seen.insert((n, m), p);
                todo.push((n, m));
            }
        }
    }
    Ok(w)
}

pub fn is_conflict_cell<M: Symbol>(g: &G, t: &Tabler<M>, i: usize, s: Sym) -> bool {
    t.actions.get(i).and_then(|m| m.get(&M::make(g, s))).is_some_and(|a| matches!(a, Action::Conflict(..)))
}

// ---------------------------------------------------------------- runs

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Ok,
    Unexpected(Sym, BTreeSet<Sym>),
    UnexpectedEof,
    Conflict(BTreeSet<FActK>, BTreeSet<FActK>),
    Incomplete,
    MissingState,
    NoState,
}

/// Action kinds without state numbers, so that outcomes of different tables compare.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum FActK {
    Shift,
    Goto,
    Reduce(u16),
    Acc,
    Bogus,
}

pub fn kinds<M: Symbol>(g: &G, a: &Action<M>) -> BTreeSet<FActK> {
    let mut s = BTreeSet::new();
    flatten(g, a, &mut s);
    s.into_iter()
        .map(|x| match x {
            FAct::Shift(_) => FActK::Shift,
            FAct::Goto(_) => FActK::Goto,
            FAct::Reduce(p) => FActK::Reduce(p),
            FAct::Acc => FActK::Acc,
            FAct::Bogus => FActK::Bogus,
        })
        .collect()
}

pub fn out_of<M: Symbol>(g: &G, r: &Result<(), Error<M>>) -> Out {
    match r {
        Ok(()) => Out::Ok,
        Err(e) => err_of(g, e),
    }
}

pub fn err_of<M: Symbol>(g: &G, e: &Error<M>) -> Out {
    match e {
        Error::UnexpectedToken(f, ex) => Out::Unexpected(f.id(), ex.iter().map(Symbol::id).collect()),
        Error::UnexpectedEof => Out::UnexpectedEof,
        Error::Conflict(a, b) => Out::Conflict(kinds(g, a), kinds(g, b)),
        Error::IncompleteExec => Out::Incomplete,
        Error::MissingPreviousState => Out::MissingState,
        Error::StateNotSpecified => Out::NoState,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Clr,
    Lalr,
    Slr,
}

impl Kind {
    pub const ALL: [Kind; 3] = [Kind::Clr, Kind::Lalr, Kind::Slr];
    pub fn name(self) -> &'static str {
        match self {
            Kind::Clr => "CLR",
            Kind::Lalr => "LALR",
            Kind::Slr => "SLR",
        }
    }
}

/// Result of one monitored parse.
pub struct Run<M: Symbol> {
    pub out: Out,
    pub log: Vec<Event>,
    /// stack at the end
    pub items: Vec<Token<V, M>>,
    pub states: Vec<usize>,
    /// input not consumed
    pub left: Vec<Token<V, M>>,
    pub err: Option<Error<M>>,
}

pub fn run<M: Symbol, P: Parser<M>>(p: &P, g: &G, w: &[Sym]) -> Run<M> {
    log_start(w.len() as u32);
    let mut dfa = p.dfa(tokens::<M>(g, w).into_iter(), reductors::<M>(g));
    let r = dfa.start();
    let out = out_of(g, &r);
    Run {
        out,
        log: log_take(),
        items: std::mem::take(&mut dfa.items),
        states: std::mem::take(&mut dfa.states),
        left: dfa.buffer.collect(),
        err: r.err(),
    }
}
