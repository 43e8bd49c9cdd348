//! Grammar model of the harness, workload generators for grammars and inputs.
//! Nothing in here uses the crate under test.
use crate::rng::{fnv, Rng};
use std::collections::BTreeMap;
use std::fmt::Write;

pub type Sym = u16;

/// ids: 0..nn nonterminals (0 is the entry rule), nn..nn+nt terminals, nn+nt end of input.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct G {
    pub nn: usize,
    pub nt: usize,
    pub prods: Vec<Vec<Vec<Sym>>>,
    /// Sort key of every id (end of input included): the order of the symbol type.
    pub key: Vec<u16>,
    pub family: &'static str,
}

impl G {
    pub fn eof(&self) -> Sym {
        (self.nn + self.nt) as Sym
    }
    pub fn is_nt(&self, s: Sym) -> bool {
        (s as usize) < self.nn
    }
    pub fn term(&self, i: usize) -> Sym {
        (self.nn + i) as Sym
    }
    pub fn terms(&self) -> Vec<Sym> {
        (0..self.nt).map(|i| self.term(i)).collect()
    }
    pub fn n_prods(&self) -> usize {
        self.prods.iter().map(Vec::len).sum()
    }
    pub fn name(&self, s: Sym) -> String {
        if s == self.eof() {
            "$".into()
        } else if self.is_nt(s) {
            format!("N{s}")
        } else if (s as usize) < self.nn + self.nt {
            format!("t{}", s as usize - self.nn)
        } else {
            format!("?{s}")
        }
    }
    pub fn show_word(&self, w: &[Sym]) -> String {
        w.iter().map(|s| self.name(*s)).collect::<Vec<_>>().join(" ")
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        for (l, ps) in self.prods.iter().enumerate() {
            let alts: Vec<_> = ps.iter().map(|p| self.show_word(p)).collect();
            let _ = write!(o, "N{l} -> {} ; ", alts.join(" | "));
        }
        o
    }
    /// Symbols in the order of the symbol type.
    pub fn show_order(&self) -> String {
        let mut ids: Vec<Sym> = (0..self.key.len() as Sym).collect();
        ids.sort_by_key(|i| self.key[*i as usize]);
        self.show_word(&ids)
    }
    pub fn flat(&self) -> Vec<(usize, usize, &[Sym])> {
        let mut v = Vec::new();
        for (l, ps) in self.prods.iter().enumerate() {
            for (i, p) in ps.iter().enumerate() {
                v.push((l, i, p.as_slice()));
            }
        }
        v
    }
    pub fn entry_is_used(&self) -> bool {
        self.prods.iter().flatten().flatten().any(|s| *s == 0)
    }
    /// In the domain of the properties: one entry production, no empty production, every
    /// nonterminal defined, entry rule not used inside a production.
    pub fn in_domain(&self) -> bool {
        self.prods.len() == self.nn
            && self.prods[0].len() == 1
            && self.prods.iter().all(|p| !p.is_empty())
            && self.prods.iter().flatten().all(|p| !p.is_empty())
            && !self.entry_is_used()
            && self.nt <= crate::refm::TERMS
    }
    /// Least derivation height per nonterminal (None: derives no sentence).
    pub fn heights(&self) -> Vec<Option<usize>> {
        let mut h: Vec<Option<usize>> = vec![None; self.nn];
        loop {
            let mut ch = false;
            for (l, _, p) in self.flat() {
                let mut m = Some(0usize);
                for s in p {
                    if self.is_nt(*s) {
                        m = match (m, h[*s as usize]) {
                            (Some(a), Some(b)) => Some(a.max(b)),
                            _ => None,
                        };
                    }
                }
                if let Some(m) = m {
                    if h[l].map_or(true, |o| m + 1 < o) {
                        h[l] = Some(m + 1);
                        ch = true;
                    }
                }
            }
            if !ch {
                return h;
            }
        }
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.nn];
        let mut st = vec![0usize];
        r[0] = true;
        while let Some(n) = st.pop() {
            for s in self.prods[n].iter().flatten() {
                if self.is_nt(*s) && !r[*s as usize] {
                    r[*s as usize] = true;
                    st.push(*s as usize);
                }
            }
        }
        r
    }
    pub fn reduced(&self) -> bool {
        self.heights().iter().all(Option::is_some) && self.reachable().iter().all(|b| *b)
    }
    pub fn is_cyclic(&self) -> bool {
        // some A =>+ A by unit productions
        let n = self.nn;
        let mut m = vec![vec![false; n]; n];
        for (l, _, p) in self.flat() {
            if p.len() == 1 && self.is_nt(p[0]) {
                m[l][p[0] as usize] = true;
            }
        }
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if m[i][k] && m[k][j] {
                        m[i][j] = true;
                    }
                }
            }
        }
        (0..n).any(|i| m[i][i])
    }
    /// Drops unproductive and unreachable nonterminals and unused terminals. None if nothing
    /// is left of the entry rule.
    pub fn trimmed(&self) -> Option<G> {
        let h = self.heights();
        h[0]?;
        let mut g = self.clone();
        for l in 0..g.nn {
            g.prods[l].retain(|p| p.iter().all(|s| !self.is_nt(*s) || h[*s as usize].is_some()));
        }
        let r = g.reachable();
        let mut used = vec![false; self.nt];
        for l in 0..g.nn {
            if r[l] {
                for s in g.prods[l].iter().flatten() {
                    if !self.is_nt(*s) {
                        used[*s as usize - self.nn] = true;
                    }
                }
            }
        }
        let mut map = BTreeMap::new();
        let mut next = 0u16;
        for l in 0..g.nn {
            if r[l] {
                map.insert(l as Sym, next);
                next += 1;
            }
        }
        let nn = next as usize;
        for t in 0..self.nt {
            if used[t] {
                map.insert((self.nn + t) as Sym, next);
                next += 1;
            }
        }
        let nt = next as usize - nn;
        let mut prods = Vec::new();
        for l in 0..g.nn {
            if r[l] {
                prods.push(
                    g.prods[l]
                        .iter()
                        .map(|p| p.iter().map(|s| map[s]).collect())
                        .collect(),
                );
            }
        }
        Some(G {
            nn,
            nt,
            prods,
            key: (0..=(nn + nt) as u16).collect(),
            family: self.family,
        })
    }
    pub fn hash(&self) -> u64 {
        fnv(format!("{:?}{:?}", self.prods, self.key).as_bytes())
    }
    pub fn permute_keys(&mut self, rng: &mut Rng) {
        let n = self.nn + self.nt + 1;
        self.key = (0..n as u16).collect();
        match rng.below(4) {
            // nonterminals first, end of input last
            0 => {}
            // end of input first, terminals before nonterminals
            1 => self.key.reverse(),
            _ => rng.shuffle(&mut self.key),
        }
    }
    /// A random sentence; `budget` bounds the expansions made before the shortest ones are used.
    pub fn sentence(&self, rng: &mut Rng, budget: usize) -> Option<Vec<Sym>> {
        let h = self.heights();
        h[0]?;
        let mut left = budget;
        let mut out = Vec::new();
        let mut st: Vec<Sym> = vec![0];
        let cap = 40 * budget + 4000;
        let mut steps = 0;
        while let Some(s) = st.pop() {
            steps += 1;
            if out.len() + st.len() > cap || steps > 40 * cap {
                return None;
            }
            if !self.is_nt(s) {
                out.push(s);
                continue;
            }
            let ps: Vec<&Vec<Sym>> = self.prods[s as usize]
                .iter()
                .filter(|p| {
                    p.iter()
                        .all(|x| !self.is_nt(*x) || h[*x as usize].is_some())
                })
                .collect();
            let p = if left > 0 && st.len() < 12 + budget {
                left -= 1;
                *rng.pick(&ps)
            } else {
                let ph = |p: &Vec<Sym>| {
                    p.iter()
                        .filter(|x| self.is_nt(**x))
                        .map(|x| h[*x as usize].unwrap())
                        .max()
                        .unwrap_or(0)
                };
                let m = ps.iter().map(|p| ph(p)).min().unwrap();
                let best: Vec<_> = ps.iter().filter(|p| ph(p) == m).collect();
                **rng.pick(&best)
            };
            st.extend(p.iter().rev());
        }
        Some(out)
    }
/// Rules that can be repeated without end, or lead to one that can.
    fn growing(&self) -> Vec<bool> {
        let reach = |from: usize| -> Vec<bool> {
            let mut seen = vec![false; self.nn];
            let mut todo = vec![from];
            while let Some(x) = todo.pop() {
                for s in self.prods[x].iter().flatten().filter(|s| self.is_nt(**s)) {
                    if !seen[*s as usize] {
                        seen[*s as usize] = true;
                        todo.push(*s as usize);
                    }
                }
            }
            seen
        };
        let r: Vec<Vec<bool>> = (0..self.nn).map(reach).collect();
        (0..self.nn).map(|x| r[x][x] || (0..self.nn).any(|y| r[x][y] && r[y][y])).collect()
    }

    /// A sentence of about as many tokens, if there is one.
    pub fn long_sentence(&self, rng: &mut Rng, size: usize) -> Option<Vec<Sym>> {
        let h = self.heights();
        h[0]?;
        let grow = self.growing();
        let (mut out, mut st, mut steps): (Vec<Sym>, Vec<Sym>, usize) = (vec![], vec![0], 0);
        while let Some(s) = st.pop() {
            steps += 1;
            if out.len() + st.len() > 4 * size + 400 || steps > 40 * size + 4000 {
                return None;
            }
            if !self.is_nt(s) {
                out.push(s);
                continue;
            }
            let ps: Vec<&Vec<Sym>> =
                self.prods[s as usize].iter().filter(|p| p.iter().all(|x| !self.is_nt(*x) || h[*x as usize].is_some())).collect();
            let on: Vec<&&Vec<Sym>> = ps.iter().filter(|p| p.iter().any(|x| self.is_nt(*x) && grow[*x as usize])).collect();
            let more = out.len() + st.len() < size;
            let p = if more && !on.is_empty() && rng.chance(9, 10) {
                **rng.pick(&on)
            } else if more {
                *rng.pick(&ps)
            } else {
                let ph = |p: &Vec<Sym>| p.iter().filter(|x| self.is_nt(**x)).map(|x| h[*x as usize].unwrap_or(0)).max().unwrap_or(0);
                let m = ps.iter().map(|p| ph(p)).min()?;
                let best: Vec<&&Vec<Sym>> = ps.iter().filter(|p| ph(p) == m).collect();
                **rng.pick(&best)
            };
            st.extend(p.iter().rev());
        }
        Some(out)
    }
    pub fn mutate_word(&self, w: &[Sym], rng: &mut Rng) -> Vec<Sym> {
        let mut w = w.to_vec();
        let ts = self.terms();
        if ts.is_empty() {
            return w;
        }
        for _ in 0..rng.range(1, 2) {
            let n = w.len();
            match rng.below(7) {
                0 if n > 0 => {
                    w.remove(rng.below(n));
                }
                1 => w.insert(rng.below(n + 1), *rng.pick(&ts)),
                2 if n > 0 => w[rng.below(n)] = *rng.pick(&ts),
                3 if n > 1 => w.swap(rng.below(n), rng.below(n)),
                4 if n > 0 => w.truncate(rng.below(n)),
                5 if n > 0 => {
                    let i = rng.below(n);
                    let x = w[i];
                    w.insert(i, x);
                }
                _ => w.push(*rng.pick(&ts)),
            }
        }
        w
    }
    pub fn random_word(&self, rng: &mut Rng, max: usize) -> Vec<Sym> {
        let n = rng.below(max + 1);
        let ts = self.terms();
        if ts.is_empty() {
            return vec![];
        }
        (0..n).map(|_| *rng.pick(&ts)).collect()
    }
    /// A mix of every short word (when there are few), sentences and near-misses.
    pub fn words(&self, rng: &mut Rng, n: usize, size: usize) -> Vec<Vec<Sym>> {
        let mut v: Vec<Vec<Sym>> = vec![vec![]];
        if cfg!(miri) {
            v.extend(self.sentence(rng, 4).filter(|s| s.len() < 12));
            v.push(self.random_word(rng, 3));
            return v;
        }
        let ts = self.terms();
        let mut layer: Vec<Vec<Sym>> = vec![vec![]];
        for _ in 0..4 {
            let cnt = layer.len() * ts.len();
            if cnt + v.len() > 24 || cnt == 0 {
                break;
            }
            layer = layer
                .iter()
                .flat_map(|w| {
                    ts.iter().map(move |t| {
                        let mut w = w.clone();
                        w.push(*t);
                        w
                    })
                })
                .collect();
            v.extend(layer.iter().cloned());
        }
        for i in 0..n {
            let b = match i % 4 {
                0 => 6,
                1 => size / 4,
                _ => size,
            };
            match self.sentence(rng, b) {
                Some(s) if s.len() < 60 * (size + 4) => {
                    for _ in 0..2 {
                        v.push(self.mutate_word(&s, rng));
                    }
                    v.push(s);
                }
                _ => v.push(self.random_word(rng, 8)),
            }
            if i % 3 == 0 {
                v.push(self.random_word(rng, 7));
            }
        }
        v
    }
}


/// `S : a B | c ; B : d` ; the first rule is the entry.
pub fn parse_dsl(src: &str, family: &'static str) -> G {
    let rules: Vec<(String, Vec<Vec<String>>)> = src
        .split(" ; ")
        .map(str::trim)
        .filter(|r| !r.is_empty())
        .map(|r| {
            let (l, rhs) = r.split_once(" : ").unwrap_or_else(|| panic!("bad rule {r}"));
            let mut alts = vec![vec![]];
            for w in rhs.split_whitespace() {
                if w == "|" {
                    alts.push(vec![]);
                } else {
                    alts.last_mut().unwrap().push(w.to_string());
                }
            }
            (l.trim().to_string(), alts)
        })
        .collect();
    let mut ids: BTreeMap<String, Sym> = BTreeMap::new();
    for (i, (l, _)) in rules.iter().enumerate() {
        assert!(ids.insert(l.clone(), i as Sym).is_none(), "twice {l}");
    }
    let nn = rules.len();
    let mut next = nn as Sym;
    for (_, alts) in &rules {
        for w in alts.iter().flatten() {
            if !ids.contains_key(w) {
                ids.insert(w.clone(), next);
                next += 1;
            }
        }
    }
    let prods = rules
        .iter()
        .map(|(_, a)| a.iter().map(|p| p.iter().map(|w| ids[w]).collect()).collect())
        .collect();
    let nt = next as usize - nn;
    G {
        nn,
        nt,
        prods,
        key: (0..=(nn + nt) as u16).collect(),
        family,
    }
}

pub const CURATED: &[&str] = &[
    // the grammars of the repository's own tests
    "S : C C ; C : c C | d",
    "Start : Add ; Add : Add + Factor | Factor ; Factor : Factor * Term | Term ; Term : ( Add ) | int | ident",
    "S : E ; E : d D | D | F ; F : e C | C ; D : d e B b | e A c ; C : e d B c | d A b ; B : a ; A : a",
    "S : E ; E : E * B | E + B | B ; B : 0 | 1",
    "S' : S ; S : ( ) | ( S ) | [ ] | [ S ] | { } | { S }",
    "S : Phrase ; Phrase : Item Space Phrase | Item ; Item : Word | Num ; Word : Alpha Word | Alpha ; Num : Digit Num | Digit ; Alpha : a | b | c ; Digit : 0 | 1 ; Space : _",
    // textbook separations
    "S' : S ; S : a A d | b B d | a B e | b A e ; A : c ; B : c",
    "S' : S ; S : L = R | R ; L : * R | id ; R : L",
    "S' : S ; S : A a | b A c | d c | b d a ; A : d",
    "S' : S ; S : A a | b A c | B c | b B a ; A : d ; B : d",
    "Q : S ; S : if e then S else S | if e then S | x",
    "Q : E ; E : E + E | E * E | ( E ) | n",
    "Q : S ; S : a S b | a b",
    "Q : S ; S : a S a | b S b | c",
    "Q : S ; S : S S | a",
    // LR(2), not LR(1)
    "Q : S ; S : A x y | B x z ; A : a ; B : a",
    // indirect recursion over several rules, on either end
    "Q : A ; A : B x | a ; B : C y | b ; C : A z | c",
    "Q : A ; A : B x | a ; B : C y | b ; C : D w | c ; D : A z | d",
    "Q : X ; X : x Y ; Y : y Z ; Z : z X | e",
    "Q : X ; X : x Y | p ; Y : y Z | q ; Z : z W | r ; W : w X | e",
    "Q : A ; A : B x | a ; B : A y | b",
    "Q : E ; E : Lam | App ; Lam : fn id . E ; App : App At | At ; At : id | ( E )",
    "Q : E ; E : T + E | T ; T : F * T | F ; F : - F | P ; P : n | ( E )",
    // realistic languages, without empty productions
    "J : V ; V : obj | O | A | str | num | true | false | null ; O : { } | { Ms } ; Ms : M | Ms , M ; M : str : V ; A : [ ] | [ Es ] ; Es : V | Es , V",
    "P : Ss ; Ss : S sc | Ss S sc ; S : id = E | if E then Ss end | if E then Ss else Ss end | while E do Ss end | return E ; E : E or C | C ; C : C and N | N ; N : not N | R ; R : A < A | A == A | A ; A : A + M | A - M | M ; M : M * U | M / U | U ; U : - U | At ; At : id | num | ( E ) | id ( ) | id ( As ) ; As : E | As , E",
    "P : X ; X : < id > C < / id > | < id > < / id > | text ; C : X | C X",
    "P : L ; L : ( ) | ( Xs ) | atom | quote L ; Xs : L | Xs L | L . L",
    "P : T ; T : T1 -> T | T1 ; T1 : T1 * T0 | T0 ; T0 : int | bool | T0 list | ( T ) | ( Ts ) rec ; Ts : T | Ts , T",
    "P : R ; R : R alt C | C ; C : C K | K ; K : K star | K plus | K opt | a | ( R ) | [ Cs ] | [ not Cs ] ; Cs : Ci | Cs Ci ; Ci : a | a - a",
    "P : Ds ; Ds : D | Ds D ; D : Ty Vs sc | Ty id ( ) B | Ty id ( Ps ) B ; Ps : Pm | Ps , Pm ; Pm : Ty id ; Vs : V | Vs , V ; V : id | id = num | * V ; Ty : int | char | Ty const ; B : { } | { Ss } ; Ss : St | Ss St ; St : id = num sc | B | return num sc",
    "EntryPoint : Program ; Program : Program Import Sc | Program Alias Sc | Program RuleDecl Sc | Alias Sc | Import Sc | RuleDecl Sc ; IdentPath : IdentPath PathAccess Ident | Ident ; RuleDecl : IdentPath TwoDots IdentPath Assign Rule ; Rule : Rule Pipe RulePipe CodeBlock | Rule Pipe RulePipe | RulePipe CodeBlock | RulePipe ; RulePipe : RulePipe RuleItem | RuleItem ; RuleItem : IdentPath | IdentPath Optional | IdentPath TwoDots Ident | StrLit | StrLit Optional TwoDots Clone Ident | OpenParen Rule CloseParen | OpenParen Rule CloseParen Optional ; Import : UseWord IdentPath PathAccess Glob | UseWord IdentPath ; Alias : AliasWord Ident IdentPath | AliasWord StrLit IdentPath",
    "P : Sel ; Sel : select Cols from Tabs | select Cols from Tabs where Cond ; Cols : * | CL ; CL : Col | CL , Col ; Col : id | id . id | id as id ; Tabs : id | Tabs , id | Tabs join id on Cond ; Cond : Cond or Cj | Cj ; Cj : Cj and Cp | Cp ; Cp : Col = Col | Col = num | ( Cond ) | not Cp | id in ( Sel )",
    // several unit levels and shared prefixes
    "Q : A ; A : B ; B : C ; C : D ; D : E ; E : x | E x | y A z",
    "Q : S ; S : a b c d e f g h i j | a b c d e f g h i k | a b c d e f g h S",
    "Q : S ; S : A | B | C ; A : x A p | x p ; B : x B q | x q ; C : x C r | x r",
    "Q : S T U ; S : a S | a ; T : b T | b ; U : c U | c",
    "Q : a ",
    "Q : a b a",
    "Q : A ; A : a",
];

fn empty(nn: usize, nt: usize, family: &'static str) -> G {
    G {
        nn,
        nt,
        prods: vec![vec![]; nn],
        key: (0..=(nn + nt) as u16).collect(),
        family,
    }
}

fn random(rng: &mut Rng, nn: usize, nt: usize, maxp: usize, maxl: usize, fam: &'static str) -> G {
    let mut g = empty(nn, nt, fam);
    let any = |rng: &mut Rng| -> Sym {
        // entry rule is not used inside productions
        if nn > 1 && rng.chance(2, 5) {
            rng.range(1, nn - 1) as Sym
        } else {
            (nn + rng.below(nt)) as Sym
        }
    };
    for l in 0..nn {
        let k = if l == 0 { 1 } else { rng.range(1, maxp) };
        for _ in 0..k {
            let n = if l == 0 && rng.chance(3, 4) && nn > 1 {
                g.prods[l].push(vec![1]);
                continue;
            } else {
                rng.range(1, maxl)
            };
            let p: Vec<Sym> = (0..n).map(|_| any(rng)).collect();
            if !g.prods[l].contains(&p) || rng.chance(1, 40) {
                g.prods[l].push(p);
            }
        }
        if g.prods[l].is_empty() {
            { let t0 = g.term(0); g.prods[l].push(vec![t0]); }
        }
    }
    g
}

/// Every alternative starts with its own terminal, with list rules and unit chains mixed in.
fn delimited(rng: &mut Rng) -> G {
    let nn = rng.range(2, 9);
    let nt = rng.range(3, 14);
    let mut g = empty(nn, nt, "delimited");
    g.prods[0] = vec![vec![1]];
    for l in 1..nn {
        let mut ts = g.terms();
        rng.shuffle(&mut ts);
        let k = rng.range(1, nt.min(4));
        let mut ps: Vec<Vec<Sym>> = Vec::new();
        for t in ts.iter().take(k) {
            let mut p = vec![*t];
            for _ in 0..rng.below(4) {
                if rng.chance(1, 2) {
                    p.push(rng.range(1, nn - 1) as Sym);
                } else {
                    p.push(g.term(rng.below(nt)));
                }
            }
            ps.push(p);
        }
        // one short way out
        ps[0].truncate(1);
        match rng.below(5) {
            // left recursive list
            0 => ps.push(vec![l as Sym, g.term(rng.below(nt)), rng.range(1, nn - 1) as Sym]),
            1 => ps.push(vec![l as Sym, ts[k.min(nt - 1)]]),
            // unit to a later rule
            2 if l + 1 < nn => ps.push(vec![(l + 1) as Sym]),
            _ => {}
        }
        rng.shuffle(&mut ps);
        g.prods[l] = ps;
    }
    g
}

/// Operator ladders with random associativity, prefix and postfix operators, calls and lists.
fn ladder(rng: &mut Rng) -> G {
    let levels = rng.range(1, 8);
    // nonterminals: Q, L1..Lk, Atom, Args
    let nn = levels + 3;
    let atom = (levels + 1) as Sym;
    let args = (levels + 2) as Sym;
    let mut g = empty(nn, 0, "ladder");
    let mut nt = 0usize;
    let mut fresh = || {
        nt += 1;
        (nn + nt - 1) as Sym
    };
    g.prods[0] = vec![vec![1]];
    for l in 1..=levels {
        let me = l as Sym;
        let up = (l + 1) as Sym;
        let mut ps = vec![];
        let shape = rng.below(4);
        for _ in 0..rng.range(1, 3) {
            let o = fresh();
            ps.push(match shape {
                0 => vec![me, o, up],
                1 => vec![up, o, me],
                2 => vec![o, me],
                _ => vec![me, o],
            });
        }
        ps.push(vec![up]);
        if rng.chance(1, 2) {
            rng.shuffle(&mut ps);
        }
        g.prods[l] = ps;
    }
    let id = fresh();
    let (lp, rp, comma) = (fresh(), fresh(), fresh());
    let mut ps = vec![vec![id], vec![lp, 1, rp]];
    if rng.chance(1, 2) {
        ps.push(vec![id, lp, args, rp]);
        ps.push(vec![id, lp, rp]);
    }
    if rng.chance(1, 2) {
        let (a, b) = (fresh(), fresh());
        ps.push(vec![a, args, b]);
    }
    if rng.chance(1, 3) {
        for _ in 0..rng.range(1, 12) {
            ps.push(vec![fresh()]);
        }
    }
    rng.shuffle(&mut ps);
    g.prods[atom as usize] = ps;
    g.prods[args as usize] = if rng.chance(1, 2) {
        vec![vec![1], vec![args, comma, 1]]
    } else {
        vec![vec![1, comma, args], vec![1]]
    };
    g.nt = nt;
    g.key = (0..=(nn + nt) as u16).collect();
    g.trimmed().unwrap()
}

/// Mutual recursion over a ring of rules (left, right or centre), long productions, wide rules.
fn ring(rng: &mut Rng) -> G {
    let k = rng.range(1, 7);
    let nn = k + 1;
    let nt = 3 * k + 2;
    let mut g = empty(nn, nt, "ring");
    g.prods[0] = vec![vec![1]];
    let mode = rng.below(4);
    for i in 0..k {
        let me = i + 1;
        let nx = ((i + 1) % k + 1) as Sym;
        let (a, b, c) = (g.term(3 * i), g.term(3 * i + 1), g.term(3 * i + 2));
        let mut p = match mode {
            0 => vec![nx, a],
            1 => vec![a, nx],
            2 => vec![a, nx, b],
            _ => match rng.below(3) {
                0 => vec![nx, a],
                1 => vec![a, nx],
                _ => vec![a, nx, b],
            },
        };
        if rng.chance(1, 6) && k > 2 && i + 1 < k {
            p = vec![nx];
        }
        g.prods[me].push(p);
        if i == 0 || rng.chance(1, 2) {
            g.prods[me].push(vec![c]);
        }
        if rng.chance(1, 4) {
            let t = g.term(3 * k);
            let n = rng.range(1, k) as Sym;
            { let e = g.term(3 * k + 1); g.prods[me].push(vec![t, n, e]); }
        }
        if rng.chance(1, 2) {
            g.prods[me].reverse();
        }
    }
    g
}

fn wide(rng: &mut Rng) -> G {
    // Q: R ; R: item | R sep item ; item: many alternatives, long ones among them
    let n = rng.range(8, 70);
    let nn = 4;
    let nt = n + 3;
    let mut g = empty(nn, nt, "wide");
    g.prods[0] = vec![vec![1]];
    g.prods[1] = if rng.chance(1, 2) {
        vec![vec![2], vec![1, g.term(n), 2]]
    } else {
        vec![vec![2, 1], vec![2]]
    };
    for i in 0..n {
        let mut p = vec![g.term(i)];
        if rng.chance(1, 5) {
            for _ in 0..rng.range(1, 14) {
                p.push(if rng.chance(1, 6) {
                    3
                } else {
                    g.term(rng.below(n))
                });
            }
        }
        g.prods[2].push(p);
    }
    g.prods[3] = vec![vec![g.term(n + 1), 1, g.term(n + 2)], vec![g.term(n + 1), g.term(n + 2)]];
    g
}

/// Contexts that tell two identical handles apart only by lookahead (separates the methods).
fn contexts(rng: &mut Rng) -> G {
    // Q: S ; S: p_i X q_j  for pairs ; every X derives the same core
    let nx = rng.range(2, 4);
    let np = rng.range(1, 4);
    let nq = rng.range(nx, nx + 3);
    let nn = 2 + nx + 1;
    let core = (2 + nx) as Sym;
    let nt = np + nq + 3;
    let mut g = empty(nn, nt, "contexts");
    g.prods[0] = vec![vec![1]];
    for i in 0..np {
        let mut qs: Vec<usize> = (0..nq).collect();
        rng.shuffle(&mut qs);
        let mut xs: Vec<usize> = (0..nx).collect();
        rng.shuffle(&mut xs);
        let m = rng.range(1, nx);
        for j in 0..m {
            let x = (2 + xs[j]) as Sym;
            let q = g.term(np + qs[j]);
            let p = g.term(i);
            let mut r = vec![];
            if !rng.chance(1, 6) {
                r.push(p);
            }
            r.push(x);
            if !rng.chance(1, 8) {
                r.push(q);
            }
            g.prods[1].push(r);
        }
    }
    if rng.chance(1, 3) {
        { let w = g.term(np + nq); g.prods[1].push(vec![w, 1, w]); }
    }
    for x in 0..nx {
        let mut p = vec![core];
        match rng.below(5) {
            0 => p = vec![g.term(np + nq + 1)],
            1 => p.push(g.term(np + nq + 1)),
            2 => p.insert(0, g.term(np + nq + 1)),
            _ => {}
        }
        g.prods[2 + x].push(p);
        if rng.chance(1, 4) {
            { let w = g.term(np + nq + 1); g.prods[2 + x].push(vec![w, (2 + x) as Sym]); }
        }
    }
    g.prods[core as usize] = vec![vec![g.term(np + nq + 1)]];
    if rng.chance(1, 2) {
        { let w = g.term(np + nq + 2); g.prods[core as usize].push(vec![w, core]); }
    }
    g
}

fn mutated(rng: &mut Rng) -> G {
    let mut g = parse_dsl(rng.pick(CURATED), "mutated");
    for _ in 0..rng.range(1, 3) {
        let l = rng.below(g.nn);
        let i = rng.below(g.prods[l].len());
        let any = |rng: &mut Rng, g: &G| -> Sym {
            if rng.chance(1, 3) && g.nn > 1 {
                rng.range(1, g.nn - 1) as Sym
            } else {
                g.term(rng.below(g.nt))
            }
        };
        match rng.below(6) {
            0 if g.prods[l].len() > 1 => {
                g.prods[l].remove(i);
            }
            1 if g.prods[l][i].len() > 1 => {
                let j = rng.below(g.prods[l][i].len());
                g.prods[l][i].remove(j);
            }
            2 => {
                let j = rng.below(g.prods[l][i].len() + 1);
                let s = any(rng, &g);
                g.prods[l][i].insert(j, s);
            }
            3 => {
                let j = rng.below(g.prods[l][i].len());
                let s = any(rng, &g);
                g.prods[l][i][j] = s;
            }
            4 if l > 0 => {
                let n = rng.range(1, 3);
                let p: Vec<Sym> = (0..n).map(|_| any(rng, &g)).collect();
                g.prods[l].push(p);
            }
            _ if g.prods[l].len() > 1 => {
                let j = rng.below(g.prods[l].len());
                g.prods[l].swap(i, j);
            }
            _ => {}
        }
    }
    g
}

/// Two grammars under one entry, with brackets around each.
fn composed(rng: &mut Rng) -> G {
    let a = parse_dsl(rng.pick(&CURATED[..24]), "x");
    let b = parse_dsl(rng.pick(&CURATED[..24]), "x");
    let share = rng.chance(1, 2);
    let nn = 2 + a.nn + b.nn;
    let nta = a.nt;
    let ntb = b.nt;
    let base = if share { nta.max(ntb) } else { nta + ntb };
    let nt = base + 3;
    let mut g = empty(nn, nt, "composed");
    g.prods[0] = vec![vec![1]];
    let ma = |s: Sym| -> Sym {
        if (s as usize) < a.nn {
            2 + s
        } else {
            (nn + s as usize - a.nn) as Sym
        }
    };
    let mb = |s: Sym| -> Sym {
        if (s as usize) < b.nn {
            (2 + a.nn) as Sym + s
        } else {
            (nn + s as usize - b.nn + if share { 0 } else { nta }) as Sym
        }
    };
    for l in 0..a.nn {
        g.prods[2 + l] = a.prods[l]
            .iter()
            .map(|p| p.iter().map(|s| ma(*s)).collect())
            .collect();
    }
    for l in 0..b.nn {
        g.prods[2 + a.nn + l] = b.prods[l]
            .iter()
            .map(|p| p.iter().map(|s| mb(*s)).collect())
            .collect();
    }
    let (x, y, z) = (g.term(base), g.term(base + 1), g.term(base + 2));
    let ea = 2 as Sym;
    let eb = (2 + a.nn) as Sym;
    g.prods[1] = match rng.below(4) {
        0 => vec![vec![x, ea, y], vec![z, eb, y]],
        1 => vec![vec![ea, x, eb]],
        2 => vec![vec![x, ea], vec![y, eb], vec![1, z, x, ea]],
        _ => vec![vec![x, ea, z], vec![x, eb, y]],
    };
    g
}

/// Large in one dimension: alternatives of a rule, symbols of a production, rules in a chain or ring,
/// or rules side by side.
fn large(rng: &mut Rng) -> G {
    match rng.below(7) {
        0 => {
            // Q: R ; R: R A | A ; A: up to 300 pairs, some with a tail
            let m = rng.range(11, 18);
            let n = rng.range(70, (m * m).min(MAX_ALTS));
            let mut g = empty(3, m, "large");
            g.prods[0] = vec![vec![1]];
            g.prods[1] = if rng.chance(1, 2) { vec![vec![1, 2], vec![2]] } else { vec![vec![2]] };
            let mut all: Vec<(usize, usize)> = (0..m).flat_map(|a| (0..m).map(move |b| (a, b))).collect();
            rng.shuffle(&mut all);
            g.prods[2] = all[..n].iter().map(|(a, b)| vec![g.term(*a), g.term(*b)]).collect();
            g
        }
        1 => {
            // one long production, another sharing its beginning
            let m = rng.range(2, 6);
            let n = rng.range(20, 280);
            let mut g = empty(4, m + 2, "large");
            g.prods[0] = vec![vec![1]];
            let mut p: Vec<Sym> = (0..n).map(|_| g.term(rng.below(m))).collect();
            for _ in 0..rng.below(3) {
                let i = rng.below(n);
                p[i] = 2 + rng.below(2) as Sym;
            }
            let mut q = p[..rng.range(1, n - 1)].to_vec();
            q.push(g.term(m));
            g.prods[1] = vec![p, q];
            g.prods[2] = vec![vec![g.term(m)], vec![g.term(m), 3]];
            g.prods[3] = vec![vec![g.term(m + 1)], vec![g.term(m + 1), g.term(m)]];
            g
        }
        2 | 3 => {
            let k = if rng.chance(1, 8) { rng.range(60, 110) } else { rng.range(10, 60) };
            chain(rng, k)
        }
        4 => {
            // a list of things of up to 300 kinds, some of them in brackets of their own
            let k = rng.range(100, 290);
            let mut g = empty(3, k, "large");
            g.prods[0] = vec![vec![1]];
            g.prods[1] = if rng.chance(1, 2) { vec![vec![1, 2], vec![2]] } else { vec![vec![2]] };
            let mut i = 0;
            while i < k {
                let p = if i + 1 < k && rng.chance(1, 20) {
                    i += 1;
                    vec![g.term(i - 1), 2, g.term(i)]
                } else {
                    vec![g.term(i)]
                };
                g.prods[2].push(p);
                i += 1;
            }
            g
        }
        5 => {
            // rules for one thing each
            let k = if rng.chance(1, 3) { rng.range(257, 275) } else { rng.range(60, 140) };
            let mut g = empty(k + 2, k, "large");
            g.prods[0] = vec![vec![1]];
            for i in 0..k {
                let t = g.term(i);
                let p = if i > 0 && rng.chance(1, 10) { vec![t, rng.range(2, i + 1) as Sym] } else { vec![t] };
                g.prods[1].push(vec![(i + 2) as Sym]);
                g.prods[i + 2].push(p);
            }
            g
        }
        _ => {
            // many rules side by side
            let k = rng.range(30, 90);
            let nt = 20;
            let mut g = empty(k + 2, nt, "large");
            g.prods[0] = vec![vec![1]];
            for i in 0..k {
                let (a, b) = (g.term(i % 9), g.term(9 + i / 9));
                g.prods[1].push(vec![a, (i + 2) as Sym]);
                let p = if i > 0 && rng.chance(1, 3) { vec![b, rng.range(2, i + 1) as Sym] } else { vec![b] };
                g.prods[i + 2].push(p);
                if rng.chance(1, 5) {
                    let e = g.term(19);
                    g.prods[i + 2].push(vec![e, b]);
                }
            }
            g
        }
    }
}

/// A chain of rules, closed to a ring or not.
fn chain(rng: &mut Rng, k: usize) -> G {
    let nt = 12;
    let mut g = empty(k + 1, nt, "large");
    g.prods[0] = vec![vec![1]];
    let closed = rng.chance(1, 2);
    let side = rng.below(4);
    for i in 1..=k {
        let next = if i < k {
            (i + 1) as Sym
        } else if closed {
            1
        } else {
            g.term(0)
        };
        let t = g.term(1 + i % 5);
        let p = match side {
            0 => vec![next],
            1 => vec![next, t],
            2 => vec![t, next],
            _ => {
                if rng.chance(1, 2) {
                    vec![next]
                } else {
                    vec![next, t]
                }
            }
        };
        g.prods[i].push(p);
        if (closed && i == k) || rng.chance(1, 6) {
            let e = g.term(6 + i % 6);
            g.prods[i].push(vec![e]);
        }
        if closed && i == k && side == 0 {
            let t = g.term(1);
            g.prods[i][0].push(t);
        }
        if rng.chance(1, 8) {
            let j = rng.range(1, k) as Sym;
            let (a, b) = (g.term(7), g.term(8));
            g.prods[i].push(vec![a, j, b]);
        }
    }
    g
}

/// More rules in a row than a table can be built for in reasonable time.
pub fn vast(rng: &mut Rng) -> G {
    loop {
        let k = if rng.chance(1, 3) { rng.range(200, 270) } else { rng.range(60, 200) };
        let Some(mut g) = chain(rng, k).trimmed() else { continue };
        if g.in_domain() {
            g.permute_keys(rng);
            return g;
        }
    }
}

const MAX_ALTS: usize = 300;

#[derive(Clone, Copy)]
pub struct Mix {
    /// weights: tiny, small, medium, delimited, ladder, ring, wide, contexts, curated, mutated,
    /// composed, large
    pub w: [usize; 12],
    pub untrimmed: bool,
}

pub const MIX: Mix = Mix {
    w: [18, 14, 6, 14, 10, 10, 2, 14, 6, 14, 4, 3],
    untrimmed: false,
};
/// Few conflicts: for properties about conflict-free tables.
pub const MIX_LR: Mix = Mix {
    w: [10, 4, 1, 22, 14, 14, 3, 12, 10, 12, 6, 3],
    untrimmed: false,
};
pub const MIX_RAW: Mix = Mix {
    w: [20, 18, 10, 10, 6, 12, 2, 8, 4, 14, 2, 3],
    untrimmed: true,
};

pub fn generate(rng: &mut Rng, mut mix: Mix) -> G {
    if cfg!(miri) {
        // interpreted, everything takes some thousand times longer
        mix.w = [4, 1, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0];
    }
    loop {
        let total: usize = mix.w.iter().sum();
        let mut x = rng.below(total);
        let mut f = 0;
        while x >= mix.w[f] {
            x -= mix.w[f];
            f += 1;
        }
        let g = match f {
            0 => {
                let (a, b) = (rng.range(1, 4), rng.range(1, 3));
                random(rng, a, b, 3, 3, "tiny")
            }
            1 => {
                let (a, b) = (rng.range(2, 5), rng.range(2, 5));
                random(rng, a, b, 3, 4, "small")
            }
            2 => {
                let (a, b) = (rng.range(4, 8), rng.range(3, 7));
                random(rng, a, b, 3, 3, "medium")
            }
            3 => delimited(rng),
            4 => ladder(rng),
            5 => ring(rng),
            6 => wide(rng),
            7 => contexts(rng),
            8 => parse_dsl(rng.pick(CURATED), "curated"),
            9 => mutated(rng),
            10 => composed(rng),
            _ => large(rng),
        };
        let g = if mix.untrimmed && rng.chance(2, 3) {
            Some(g)
        } else {
            g.trimmed()
        };
        let Some(mut g) = g else { continue };
        if !g.in_domain() {
            continue;
        }
        g.permute_keys(rng);
        return g;
    }
}
