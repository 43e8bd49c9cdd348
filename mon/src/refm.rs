//! Reference models: FIRST/FOLLOW, LR(0)/SLR/LALR/canonical LR(1) automata, Earley, an LR driver.
//! Written from the textbook definitions, independent of the crate under test.
use crate::gram::{Sym, G};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Set of terminals; bit i is terminal i, bit nt is end of input.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Bits([u64; 5]);

/// Terminals a grammar may have.
pub const TERMS: usize = 64 * 5 - 1;

impl Bits {
    fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
}

impl std::ops::BitOr for Bits {
    type Output = Self;
    fn bitor(mut self, o: Self) -> Self {
        self |= o;
        self
    }
}

impl std::ops::BitOrAssign for Bits {
    fn bitor_assign(&mut self, o: Self) {
        for (a, b) in self.0.iter_mut().zip(o.0) {
            *a |= b;
        }
    }
}

pub fn bit(g: &G, s: Sym) -> Bits {
    debug_assert!(!g.is_nt(s));
    let i = s as usize - g.nn;
    let mut b = Bits::default();
    b.0[i / 64] = 1 << (i % 64);
    b
}

pub fn syms(g: &G, b: Bits) -> Vec<Sym> {
    (0..=g.nt).filter(|i| b.has(*i)).map(|i| (g.nn + i) as Sym).collect()
}

/// FIRST of every nonterminal (no empty productions).
pub fn first(g: &G) -> Vec<Bits> {
    let mut f = vec![Bits::default(); g.nn];
    loop {
        let mut ch = false;
        for (l, _, p) in g.flat() {
            let add = if g.is_nt(p[0]) { f[p[0] as usize] } else { bit(g, p[0]) };
            if f[l] | add != f[l] {
                f[l] |= add;
                ch = true;
            }
        }
        if !ch {
            return f;
        }
    }
}

pub fn first_sym(g: &G, f: &[Bits], s: Sym) -> Bits {
    if g.is_nt(s) {
        f[s as usize]
    } else {
        bit(g, s)
    }
}

/// FOLLOW of every nonterminal; the entry rule is followed by end of input.
pub fn follow(g: &G, f: &[Bits]) -> Vec<Bits> {
    let mut fo = vec![Bits::default(); g.nn];
    fo[0] = bit(g, g.eof());
    loop {
        let mut ch = false;
        for (l, _, p) in g.flat() {
            for i in 0..p.len() {
                if !g.is_nt(p[i]) {
                    continue;
                }
                let add = if i + 1 < p.len() {
                    first_sym(g, f, p[i + 1])
                } else {
                    fo[l]
                };
                let b = p[i] as usize;
                if fo[b] | add != fo[b] {
                    fo[b] |= add;
                    ch = true;
                }
            }
        }
        if !ch {
            return fo;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Act {
    Shift,
    /// flat production index
    Reduce(u16),
    Acc,
}

pub struct Auto {
    pub trans: Vec<BTreeMap<Sym, usize>>,
    pub acts: Vec<BTreeMap<Sym, BTreeSet<Act>>>,
    /// kernel items without lookahead, per state
    pub cores: Vec<BTreeSet<(u16, u16)>>,
}

impl Auto {
    pub fn conflicts(&self) -> usize {
        self.acts.iter().flat_map(|m| m.values()).filter(|s| s.len() > 1).count()
    }
}

type Item = (u16, u16);
type LState = BTreeMap<Item, Bits>;

pub struct Ref<'a> {
    pub g: &'a G,
    pub flat: Vec<(usize, usize, Vec<Sym>)>,
    pub by_l: Vec<Vec<u16>>,
    pub first: Vec<Bits>,
    pub follow: Vec<Bits>,
}

impl<'a> Ref<'a> {
    pub fn new(g: &'a G) -> Self {
        let flat: Vec<_> = g.flat().into_iter().map(|(a, b, c)| (a, b, c.to_vec())).collect();
        let mut by_l = vec![vec![]; g.nn];
        for (i, (l, _, _)) in flat.iter().enumerate() {
            by_l[*l].push(i as u16);
        }
        let first = first(g);
        let follow = follow(g, &first);
        Self { g, flat, by_l, first, follow }
    }

    fn closure(&self, mut s: LState) -> LState {
        let mut todo: Vec<Item> = s.keys().copied().collect();
        while let Some(it) = todo.pop() {
            let la = s[&it];
            let rhs = &self.flat[it.0 as usize].2;
            let Some(b) = rhs.get(it.1 as usize) else { continue };
            if !self.g.is_nt(*b) {
                continue;
            }
            let add = match rhs.get(it.1 as usize + 1) {
                Some(n) => first_sym(self.g, &self.first, *n),
                None => la,
            };
            for q in &self.by_l[*b as usize] {
                let e = s.entry((*q, 0));
                match e {
                    std::collections::btree_map::Entry::Vacant(v) => {
                        v.insert(add);
                        todo.push((*q, 0));
                    }
                    std::collections::btree_map::Entry::Occupied(mut o) => {
                        if *o.get() | add != *o.get() {
                            *o.get_mut() |= add;
                            todo.push((*q, 0));
                        }
                    }
                }
            }
        }
        s
    }

    fn gotos(&self, s: &LState) -> BTreeMap<Sym, LState> {
        let mut m: BTreeMap<Sym, LState> = BTreeMap::new();
        for (it, la) in s {
            if let Some(x) = self.flat[it.0 as usize].2.get(it.1 as usize) {
                *m.entry(*x).or_default().entry((it.0, it.1 + 1)).or_insert_with(Bits::default) |= *la;
            }
        }
        m
    }

    fn start(&self) -> LState {
        BTreeMap::from([((0u16, 0u16), bit(self.g, self.g.eof()))])
    }

    fn finish(&self, states: &[LState], trans: Vec<BTreeMap<Sym, usize>>, kernels: &[LState], slr: bool) -> Auto {
        let mut acts = Vec::new();
        for s in states {
            let mut m: BTreeMap<Sym, BTreeSet<Act>> = BTreeMap::new();
            for (it, la) in s {
                let (l, _, rhs) = &self.flat[it.0 as usize];
                match rhs.get(it.1 as usize) {
                    Some(x) if !self.g.is_nt(*x) => {
                        m.entry(*x).or_default().insert(Act::Shift);
                    }
                    Some(_) => {}
                    None => {
                        let la = if slr { self.follow[*l] } else { *la };
                        for t in syms(self.g, la) {
                            m.entry(t)
                                .or_default()
                                .insert(if *l == 0 { Act::Acc } else { Act::Reduce(it.0) });
                        }
                    }
                }
            }
            acts.push(m);
        }
        Auto {
            trans,
            acts,
            cores: kernels.iter().map(|k| k.keys().copied().collect()).collect(),
        }
    }

    /// Canonical LR(1); None when it has more than `cap` states.
    pub fn lr1(&self, cap: usize) -> Option<Auto> {
        let (k, s, t) = self.lr1_raw(cap)?;
        Some(self.finish(&s, t, &k, false))
    }

    #[allow(clippy::type_complexity)]
    fn lr1_raw(&self, cap: usize) -> Option<(Vec<LState>, Vec<LState>, Vec<BTreeMap<Sym, usize>>)> {
        let mut kernels = vec![self.start()];
        let mut idx: HashMap<LState, usize> = HashMap::from([(self.start(), 0)]);
        let mut states = vec![self.closure(self.start())];
        let mut trans = Vec::new();
        let mut i = 0;
        while i < states.len() {
            let mut t = BTreeMap::new();
            for (x, k) in self.gotos(&states[i]) {
                let j = *idx.entry(k.clone()).or_insert_with(|| {
                    kernels.push(k.clone());
                    states.push(self.closure(k));
                    states.len() - 1
                });
                t.insert(x, j);
            }
            trans.push(t);
            i += 1;
            if states.len() > cap {
                return None;
            }
        }
        Some((kernels, states, trans))
    }

    fn lr0_raw(&self) -> (Vec<LState>, Vec<LState>, Vec<BTreeMap<Sym, usize>>) {
        // lookaheads all empty: the same construction with bits zeroed
        let zero = |s: LState| -> LState { s.into_keys().map(|k| (k, Bits::default())).collect() };
        let st = zero(self.start());
        let mut kernels = vec![st.clone()];
        let mut idx: HashMap<LState, usize> = HashMap::from([(st.clone(), 0)]);
        let mut states = vec![zero(self.closure(st))];
        let mut trans = Vec::new();
        let mut i = 0;
        while i < states.len() {
            let mut t = BTreeMap::new();
            for (x, k) in self.gotos(&states[i]) {
                let j = *idx.entry(k.clone()).or_insert_with(|| {
                    kernels.push(k.clone());
                    states.push(zero(self.closure(k)));
                    states.len() - 1
                });
                t.insert(x, j);
            }
            trans.push(t);
            i += 1;
        }
        (kernels, states, trans)
    }

    pub fn slr(&self) -> Auto {
        let (k, s, t) = self.lr0_raw();
        self.finish(&s, t, &k, true)
    }

    /// LALR(1) by propagating lookaheads over the LR(0) automaton until nothing changes.
    pub fn lalr(&self) -> Auto {
        let (mut k, _, t) = self.lr0_raw();
        k[0] = self.start();
        loop {
            let mut ch = false;
            for i in 0..k.len() {
                let full = self.closure(k[i].clone());
                for (x, nk) in self.gotos(&full) {
                    let j = t[i][&x];
                    for (it, la) in nk {
                        let e = k[j].get_mut(&it).expect("lr0 core");
                        if *e | la != *e {
                            *e |= la;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let s: Vec<LState> = k.iter().map(|x| self.closure(x.clone())).collect();
        self.finish(&s, t, &k, false)
    }

    /// LALR(1) by its definition, merging canonical states with equal cores. For checking `lalr`.
    /// The two constructions of the reference agree (propagation and merging).
    pub fn assert_lalr_agrees(&self, a: &Auto, cap: usize) {
        let b = self.lalr_by_merge(cap).expect("within the cap");
        assert_eq!(a.conflicts(), b.conflicts(), "reference LALR constructions disagree on {}", self.g.show());
    }

    pub fn lalr_by_merge(&self, cap: usize) -> Option<Auto> {
        let (k, s, t) = self.lr1_raw(cap)?;
        let mut idx: BTreeMap<BTreeSet<Item>, usize> = BTreeMap::new();
        let mut map = Vec::new();
        let mut mk: Vec<LState> = Vec::new();
        let mut ms: Vec<LState> = Vec::new();
        for i in 0..k.len() {
            let core: BTreeSet<Item> = k[i].keys().copied().collect();
            let j = *idx.entry(core).or_insert_with(|| {
                mk.push(BTreeMap::new());
                ms.push(BTreeMap::new());
                mk.len() - 1
            });
            map.push(j);
            for (it, la) in &k[i] {
                *mk[j].entry(*it).or_insert_with(Bits::default) |= *la;
            }
            for (it, la) in &s[i] {
                *ms[j].entry(*it).or_insert_with(Bits::default) |= *la;
            }
        }
        let mut mt = vec![BTreeMap::new(); mk.len()];
        for i in 0..k.len() {
            for (x, j) in &t[i] {
                mt[map[i]].insert(*x, map[*j]);
            }
        }
        Some(self.finish(&ms, mt, &mk, false))
    }

    /// LR driver over a conflict-free automaton. Ok(reductions) or Err(position of the token at
    /// which it stops).
    pub fn drive(&self, a: &Auto, w: &[Sym]) -> Result<Vec<u16>, usize> {
        let mut st = vec![0usize];
        let mut i = 0;
        let mut red = vec![];
        loop {
            let t = w.get(i).copied().unwrap_or(self.g.eof());
            let Some(acts) = a.acts[*st.last().unwrap()].get(&t) else { return Err(i) };
            debug_assert_eq!(acts.len(), 1);
            match acts.iter().next().unwrap() {
                Act::Shift => {
                    st.push(a.trans[*st.last().unwrap()][&t]);
                    i += 1;
                }
                Act::Acc => return if i == w.len() { Ok(red) } else { Err(i) },
                Act::Reduce(p) => {
                    red.push(*p);
                    let (l, _, rhs) = &self.flat[*p as usize];
                    st.truncate(st.len() - rhs.len());
                    let to = a.trans[*st.last().unwrap()][&(*l as Sym)];
                    st.push(to);
                }
            }
        }
    }

    /// Earley. `reach[k]`: w[..k] is a prefix of some sentence (every rule must be productive);
    /// `next[k]`: terminals (and end of input) that may come after w[..k].
    pub fn earley(&self, w: &[Sym]) -> Earley {
        let g = self.g;
        let n = w.len();
        // item: (prod, dot, origin)
        let mut sets: Vec<Vec<(u16, u16, u32)>> = vec![vec![]; n + 1];
        let mut seen: Vec<std::collections::HashSet<(u16, u16, u32)>> = vec![Default::default(); n + 1];
        let mut waiting: Vec<HashMap<Sym, Vec<(u16, u16, u32)>>> = vec![HashMap::new(); n + 1];
        let mut next = Vec::new();
        let mut reach = 0;
        let push = |sets: &mut Vec<Vec<(u16, u16, u32)>>, seen: &mut Vec<std::collections::HashSet<(u16, u16, u32)>>, k: usize, it: (u16, u16, u32)| {
            if seen[k].insert(it) {
                sets[k].push(it);
            }
        };
        for p in &self.by_l[0] {
            push(&mut sets, &mut seen, 0, (*p, 0, 0));
        }
        let mut accept = false;
        for k in 0..=n {
            if sets[k].is_empty() {
                break;
            }
            reach = k;
            let mut nx = Bits::default();
            let mut i = 0;
            while i < sets[k].len() {
                let it = sets[k][i];
                i += 1;
                let (l, _, rhs) = &self.flat[it.0 as usize];
                match rhs.get(it.1 as usize) {
                    None => {
                        if *l == 0 && it.2 == 0 {
                            nx |= bit(g, g.eof());
                            if k == n {
                                accept = true;
                            }
                        }
                        // no empty productions: origin < k, its waiting list is complete
                        let ws = waiting[it.2 as usize].get(&(*l as Sym)).cloned().unwrap_or_default();
                        for v in ws {
                            push(&mut sets, &mut seen, k, (v.0, v.1 + 1, v.2));
                        }
                    }
                    Some(x) if g.is_nt(*x) => {
                        waiting[k].entry(*x).or_default().push(it);
                        for p in &self.by_l[*x as usize] {
                            push(&mut sets, &mut seen, k, (*p, 0, k as u32));
                        }
                    }
                    Some(x) => {
                        nx |= bit(g, *x);
                        if k < n && w[k] == *x {
                            push(&mut sets, &mut seen, k + 1, (it.0, it.1 + 1, it.2));
                        }
                    }
                }
            }
            next.push(nx);
        }
        Earley { accept, reach, next }
    }
}

pub struct Earley {
    pub accept: bool,
    /// longest k such that w[..k] can be extended to a sentence
    pub reach: usize,
    pub next: Vec<Bits>,
}
