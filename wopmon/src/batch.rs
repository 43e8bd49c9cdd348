//! Programs made of generated code: grammars with a meaning are written in the grammar language,
//! what the tool makes of them is compiled and run, and what that prints is judged.
use crate::expand::{self, Prod, Val};
use crate::gen;
use crate::gram::{Sym, G};
use crate::lex;
use crate::par::{self, What};
use crate::refm::{Act, Auto, Ref};
use crate::rng::{fnv, Rng};
use crate::Ctx;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::Command;

/// One grammar: what is written, and what it means.
pub struct Lang {
    pub text: String,
    /// symbols are string slices, not an enum
    pub strings: bool,
    pub names: Vec<String>,
    pub nrules: usize,
    /// the plain grammar; its rules and terminals are numbered as in `names`
    pub g: G,
    /// per rule and production, in the order of `g`
    pub prods: Vec<Vec<(String, Prod)>>,
}

struct Gen<'a> {
    r: &'a mut Rng,
    nrules: usize,
    nterms: usize,
    /// how each terminal may be written
    forms: Vec<Vec<String>>,
    out: Vec<String>,
    names: usize,
    ruleforms: Vec<Vec<String>>,
    depth: usize,
    /// names given in the alternative being written
    given: Vec<String>,
    /// terminals are never written twice
    fresh: bool,
}

impl Gen<'_> {
    fn term(&mut self) -> String {
        if self.nterms == 0 || self.fresh || self.r.chance(4, 5) {
            if self.nterms < self.forms.len() {
                self.nterms += 1;
                return self.r.pick(&self.forms[self.nterms - 1]).clone();
            }
        }
        let k = self.r.below(self.nterms);
        self.r.pick(&self.forms[k]).clone()
    }
    fn word(&mut self, w: String) {
        // what is inside a path is copied as it is; comments there could mean something in Rust
        let w = if self.r.chance(1, 6) { w.replace("::", self.r.pick(&[" :: ", "::\n", " ::"])) } else { w };
        self.out.push(w);
    }
    fn alias(&mut self, shared: Option<&(String, bool)>) {
        let (n, c) = match shared {
            Some(s) => s.clone(),
            None => {
                self.names += 1;
                let n = self.names;
                let name = match self.r.below(5) {
                    0 => format!("x{n}"),
                    1 => format!("a_{n}_é"),
                    2 => format!("toks_{n}"),
                    3 => format!("alias{n}"),
                    _ => format!("z{n}"),
                };
                (name, self.r.chance(1, 2))
            }
        };
        self.out.push(":".into());
        if c {
            self.out.push("&".into());
        }
        if !self.given.contains(&n) {
            self.given.push(n.clone());
        }
        self.out.push(n);
    }
    fn nodes(&mut self, nodes: &[Node]) {
        for n in nodes {
            if n.group.is_empty() {
                let k = n.sym as usize;
                let forms = if k < self.nrules { &self.ruleforms[k] } else { &self.forms[k - self.nrules] };
                let w = self.r.pick(forms).clone();
                self.word(w);
            } else {
                self.out.push("(".into());
                for (i, v) in n.group.iter().enumerate() {
                    if i > 0 {
                        self.out.push("|".into());
                    }
                    self.nodes(v);
                }
                self.out.push(")".into());
            }
            if n.opt {
                self.out.push("?".into());
            }
            if self.r.chance(1, 3) {
                self.alias(None);
            }
        }
    }
    fn items(&mut self, depth: usize, shared: Option<&(String, bool)>) {
        let n = if self.r.chance(1, 4) { 1 } else { self.r.range(1, if depth == 0 { 4 } else { 3 }) };
        let at = self.r.below(n);
        for k in 0..n {
            let shared = shared.filter(|_| k == at);
            if shared.is_none() && depth < self.depth && self.r.chance(2, 7) {
                self.out.push("(".into());
                let alts = self.r.range(1, 3);
                let common = if alts > 1 && self.r.chance(1, 2) {
                    self.names += 1;
                    Some((format!("s{}", self.names), self.r.chance(1, 2)))
                } else {
                    None
                };
                for a in 0..alts {
                    if a > 0 {
                        self.out.push("|".into());
                    }
                    self.items(depth + 1, common.as_ref());
                }
                self.out.push(")".into());
            } else if self.r.chance(1, 4) {
                let k = self.r.range(1, self.nrules - 1);
                let w = self.r.pick(&self.ruleforms[k]).clone();
                self.word(w);
            } else {
                let w = self.term();
                self.word(w);
            }
            if self.r.chance(1, 4) {
                self.out.push("?".into());
            }
            if shared.is_some() || self.r.chance(1, 2) {
                self.alias(shared);
            }
        }
    }
}

/// Part of an alternative: a symbol or a group, and whether it may be absent.
#[derive(Clone, PartialEq)]
struct Node {
    sym: Sym,
    group: Vec<Vec<Node>>,
    opt: bool,
}

/// Alternatives written with groups and optional items where they have much in common.
fn fold(r: &mut Rng, prods: &[Vec<Sym>]) -> Vec<Vec<Node>> {
    let mut alts: Vec<Vec<Node>> =
        prods.iter().map(|p| p.iter().map(|s| Node { sym: *s, group: vec![], opt: false }).collect()).collect();
    for _ in 0..r.below(2 * alts.len() + 1) {
        if alts.len() < 2 {
            break;
        }
        let a = alts.swap_remove(r.below(alts.len()));
        let b = alts.swap_remove(r.below(alts.len()));
        let most = a.len().min(b.len());
        let pre = (0..most).take_while(|i| a[*i] == b[*i]).count();
        let suf = (0..most - pre).take_while(|i| a[a.len() - 1 - i] == b[b.len() - 1 - i]).count();
        let (x, y) = (&a[pre..a.len() - suf], &b[pre..b.len() - suf]);
        if (pre + suf == 0 && r.chance(2, 3)) || x == y || (x.is_empty() && suf + pre == 0) {
            alts.push(a);
            alts.push(b);
            continue;
        }
        let node = if x.is_empty() || y.is_empty() {
            let z = if x.is_empty() { y } else { x };
            match z {
                [one] if !one.opt => Node { opt: true, ..one.clone() },
                _ => Node { sym: 0, group: vec![z.to_vec()], opt: true },
            }
        } else {
            Node { sym: 0, group: vec![x.to_vec(), y.to_vec()], opt: false }
        };
        let mut all = a[..pre].to_vec();
        all.push(node);
        all.extend_from_slice(&a[a.len() - suf..]);
        alts.push(all);
    }
    alts
}

fn draw(r: &mut Rng, module: usize, given: Option<&G>) -> Option<Lang> {
    let strings = r.chance(1, 3);
    let nrules = given.map_or_else(|| r.range(2, 5), |g| g.nn);
    let maxt = given.map_or(40, |g| g.nt);
    let mut names: Vec<String> = (0..nrules).map(|k| format!("R{k}{}", ["", "_a", "é"][k % 3])).collect();
    let mut meaning: BTreeMap<String, usize> = BTreeMap::new();
    let mut decls: Vec<Vec<String>> = vec![];
    let at = if strings { "names" } else { "Sy" };
    decls.push(vec!["use".into(), format!("crate::m{module}::{at}::*")]);
    decls.push(vec!["use".into(), format!("crate::m{module}::{at}")]);
    let mut ruleforms: Vec<Vec<String>> = vec![];
    for (k, n) in names.iter().enumerate() {
        let mut f = vec![n.clone(), format!("{at}::{n}")];
        meaning.insert(f[0].clone(), k);
        meaning.insert(f[1].clone(), k);
        if r.chance(1, 4) {
            let a = format!("rule{k}");
            decls.push(vec!["alias".into(), a.clone(), n.clone()]);
            f.push(a);
        }
        ruleforms.push(f);
    }
    let mut forms: Vec<Vec<String>> = vec![];
    for k in 0..maxt {
        let id = names.len();
        let mut f = vec![];
        let path = |d: &mut Vec<String>, r: &mut Rng, n: &str| {
            d.push(if r.chance(1, 3) { format!("{at}::{n}") } else { n.into() });
        };
        if strings {
            let text = format!("{}{k}", r.pick(&["+", "(", "->", "é", "a b", "//", "'", "{}", "%", ";"]));
            let esc = if r.chance(1, 4) { format!("\"\\\"{text}\\\\\"") } else { format!("\"{text}\"") };
            let raw = if esc.starts_with("\"\\\"") { format!("\"{text}\\") } else { text };
            meaning.insert(esc.clone(), id);
            meaning.insert(format!("C{k}"), id);
            meaning.insert(format!("{at}::C{k}"), id);
            f.push(esc);
            f.push(format!("C{k}"));
            if r.chance(1, 4) {
                let mut d = vec!["alias".into(), format!("\"alias {k}\"")];
                path(&mut d, r, &format!("C{k}"));
                decls.push(d);
                f.push(format!("\"alias {k}\""));
            }
            names.push(raw);
        } else {
            let n = format!("T{k}");
            meaning.insert(n.clone(), id);
            meaning.insert(format!("{at}::{n}"), id);
            f.push(n.clone());
            f.push(format!("{at}::{n}"));
            if r.chance(1, 2) {
                let key = if r.chance(1, 2) { format!("\"{k}\\\"\"") } else { format!("tok{k}") };
                let mut d = vec!["alias".into(), key.clone()];
                path(&mut d, r, &n);
                decls.push(d);
                f = vec![key];
                if r.chance(1, 3) {
                    f.push(n.clone());
                }
            }
            names.push(n);
        }
        forms.push(f);
    }
    // declarations of names may be anywhere before their use
    let fresh = r.chance(2, 3);
    let depth = r.range(1, 3);
    let nterms = given.map_or(0, |g| g.nt);
    let mut x = Gen { r, nrules, nterms, forms, out: vec![], names: 0, ruleforms, depth, given: vec![], fresh };
    let mut tags: Vec<Vec<String>> = vec![];
    let mut order: Vec<usize> = (0..nrules).collect();
    x.r.shuffle(&mut order);
    let mut rules: Vec<Vec<String>> = vec![];
    for k in order {
        let ty = x.r.pick(&["String", "std::string::String", "super::Out"]).to_string();
        x.out = vec![];
        let n = if x.r.chance(1, 4) { format!("{at}::{}", names[k]) } else { names[k].clone() };
        x.word(n);
        x.out.push(":".into());
        x.word(ty);
        x.out.push("=".into());
        let nodes = given.map_or_else(Vec::new, |g| fold(x.r, &g.prods[k]));
        let alts = if given.is_some() { nodes.len() } else if k == 0 { 1 } else { x.r.range(1, 3) };
        for a in 0..alts {
            if a > 0 {
                x.out.push("|".into());
            }
            x.given = vec![];
            if given.is_some() {
                x.nodes(&nodes[a]);
            } else if k == 0 {
                let w = x.r.pick(&x.ruleforms[1]).clone();
                x.word(w);
            } else {
                x.items(0, None);
            }
            let tag = format!("{k}.{a}");
            let mut code = String::from("-> { ");
            if x.r.chance(1, 3) {
                code.push_str("/* } % ; | */ ");
            }
            let list: Vec<String> = x.given.iter().map(|n| format!("(\"{n}\", crate::sh(&{n}))")).collect();
            let _ = write!(code, "crate::vv(\"{tag}\", &[{}], toks.len())", list.join(", "));
            code.push_str(if x.r.chance(1, 4) { " }%" } else { "}%" });
            x.out.push(code);
            tags.push(vec![tag]);
        }
        rules.push(std::mem::take(&mut x.out));
    }
    let nterms = x.nterms;
    let mut toks = vec![];
    for d in decls.into_iter().chain(rules) {
        toks.extend(d);
        toks.push(";".into());
    }
    let loose = r.below(5);
    let text = gen::layout(r, &toks, loose);
    // what it means
    let l = lex::lex(&text);
    let p = par::parse(&l.toks).ok()?;
    let mut aliases = BTreeMap::new();
    // terminals that are not written have no number; eof is the last
    let known = nrules + nterms;
    let mut g = G { nn: nrules, nt: nterms, prods: vec![vec![]; nrules], key: vec![], family: "wop" };
    let mut prods: Vec<Vec<(String, Prod)>> = vec![vec![]; nrules];
    for d in &p.decls {
        match &d.what {
            What::Use(_) => {}
            What::Alias(k, v) => {
                aliases.insert(text[k.0..k.1].to_string(), *v);
            }
            What::Rule { name, pipes, .. } => {
                if expand::count_rule(pipes) > 40 {
                    return None;
                }
                let k = meaning[&expand::plain(&text[name.0..name.1])];
                for (a, pipe) in pipes.iter().enumerate() {
                    for x in expand::productions(&text, &aliases, pipe) {
                        let syms: Vec<Sym> = x.toks.iter().map(|t| meaning[&expand::plain(t)] as Sym).collect();
                        if syms.is_empty() || syms.iter().any(|s| *s as usize >= known) {
                            return None;
                        }
                        g.prods[k].push(syms);
                        prods[k].push((format!("{k}.{a}"), x));
                    }
                }
            }
        }
    }
    names.truncate(known);
    g.key = (0..=known as u16).collect();
    if !g.in_domain() || !g.reduced() || nterms == 0 {
        return None;
    }
    Some(Lang { text, strings, names, nrules, g, prods })
}

impl Lang {
    /// A language, possibly with conflicts in its tables.
    pub fn any(r: &mut Rng, module: usize) -> Lang {
        loop {
            if let Some(l) = draw(r, module, None) {
                return l;
            }
        }
    }

    /// One whose every table is free of conflicts up to the given kind (0 canonical, 1 LALR, 2 SLR).
    pub fn parseable(r: &mut Rng, module: usize) -> (Lang, Auto, usize) {
        // most grammars are SLR; some of these are passed over, so that others get their turn
        let spare = r.below(6);
        for n in 0.. {
            let l = if r.chance(1, 3) {
                Lang::any(r, module)
            } else {
                let g = crate::gram::generate(r, crate::gram::MIX_LR);
                if g.nn > 24 || g.nt > 40 || g.n_prods() > 60 {
                    continue;
                }
                let Some(l) = draw(r, module, Some(&g)) else { continue };
                l
            };
            let f = Ref::new(&l.g);
            let Some(a) = f.lr1(150) else { continue };
            if a.conflicts() > 0 {
                continue;
            }
            let mut kind = 0;
            if f.lalr().conflicts() == 0 {
                kind = 1;
                if f.slr().conflicts() == 0 {
                    kind = 2;
                }
            }
            if kind < 2 || n >= 20 * spare {
                return (l, a, kind);
            }
        }
        unreachable!()
    }
}

// ------------------------------------------------------------- rendering, as the program does it

/// A token as the generated code sees it: its value, and where it is.
#[derive(Clone)]
pub struct Tk {
    pub item: String,
    pub s: usize,
    pub e: usize,
}

fn body(t: &Tk) -> String {
    format!("{}@{}-{}", t.item, t.s, t.e)
}

/// The value of a production over tokens.
pub fn value(tag: &str, p: &Prod, toks: &[Tk], code_order: &[String]) -> String {
    let mut s = format!("{tag}<{}>[", toks.len());
    for n in code_order {
        let b = &p.binds[n];
        let (kind, ty) = match (b.group, b.clone) {
            (false, false) => ("R", "&T"),
            (false, true) => ("T", "T"),
            (true, false) => ("S", "&[T]"),
            (true, true) => ("V", "Vec"),
        };
        let v = match &b.val {
            Val::Tok(i) => format!("{kind}{}", body(&toks[*i])),
            Val::Slice(i, j) => format!("{kind}[{}]", toks[*i..*j].iter().map(body).collect::<Vec<_>>().join(",")),
            Val::Absent => String::new(),
        };
        let v = match (b.maybe, &b.val) {
            (true, Val::Absent) => format!("None:{ty}"),
            (true, _) => format!("Some({v})"),
            (false, Val::Absent) => unreachable!("absent though not optional"),
            (false, _) => v,
        };
        let _ = write!(s, "{n}={v};");
    }
    s.push(']');
    if s.len() > 300 {
        format!("#{:x}", fnv(s.as_bytes()))
    } else {
        s
    }
}

impl Lang {
    /// Names in the order the code block lists them.
    pub fn listed(&self, k: usize, p: usize) -> Vec<String> {
        let tag = &self.prods[k][p].0;
        let at = self.text.find(&format!("crate::vv(\"{tag}\"")).expect("code block");
        let end = self.text[at..].find("toks.len()").expect("code block") + at;
        self.text[at..end].split("(\"").skip(2).filter_map(|x| x.split('"').next()).map(String::from).collect()
    }

    /// What parsing a word gives: the values of the entry production, or the place where it stops.
    pub fn eval(&self, a: &Auto, w: &[Sym], toks: &[Tk]) -> Result<String, usize> {
        let flat = self.g.flat();
        let mut st = vec![0usize];
        let mut vals: Vec<Tk> = vec![];
        let mut i = 0;
        loop {
            let t = w.get(i).copied().unwrap_or(self.g.eof());
            let Some(acts) = a.acts[st[st.len() - 1]].get(&t) else { return Err(i) };
            match acts.iter().next().expect("an action") {
                Act::Shift => {
                    st.push(a.trans[st[st.len() - 1]][&t]);
                    vals.push(toks[i].clone());
                    i += 1;
                }
                Act::Acc => return if i == w.len() { Ok(vals.iter().map(body).collect::<Vec<_>>().join(" ")) } else { Err(i) },
                Act::Reduce(p) => {
                    let (l, k, rhs) = &flat[*p as usize];
                    let n = rhs.len();
                    let args = vals.split_off(vals.len() - n);
                    let (tag, prod) = &self.prods[*l][*k];
                    let item = value(tag, prod, &args, &self.listed(*l, *k));
                    vals.push(Tk { item, s: args[0].s, e: args[n - 1].e });
                    st.truncate(st.len() - n);
                    st.push(a.trans[st[st.len() - 1]][&(*l as Sym)]);
                }
            }
        }
    }

    /// The module of the generated program with what the tool makes of the text.
    pub fn module(&self, k: usize, grammar: &str, reductor: &str) -> String {
        let mut m = format!("pub mod m{k} {{\nuse super::lrp;\n");
        let all: Vec<String>;
        if self.strings {
            m.push_str("pub mod names {\n");
            for (i, n) in self.names.iter().enumerate() {
                let id = if i < self.nrules { n.clone() } else { format!("C{}", i - self.nrules) };
                let _ = writeln!(m, "pub const {id}: &str = {n:?};");
            }
            m.push_str("}\npub type Sy = &'static str;\n");
            all = self.names.iter().map(|n| format!("{n:?}")).chain(["\"<end>\"".into()]).collect();
        } else {
            // one type for all, so that the parsers are compiled once
            m.push_str("pub use super::Sy;\n");
            all = self.names.iter().map(|n| format!("Sy::{n}")).chain(["Sy::End".into()]).collect();
        }
        let _ = write!(
            m,
            "pub type Tk = lrp::Token<lrp::Meta<String>, Sy>;
pub fn all() -> Vec<Sy> {{ vec![{}] }}
pub fn grammar() -> lrp::Grammar<Sy> {{ lrp::Grammar::new({}, {grammar}, {}) }}
pub fn reductors() -> lrp::ReductMap<lrp::Meta<String>, Sy> {reductor}
}}
",
            all.join(", "),
            all[0],
            all[all.len() - 1]
        );
        m
    }
}

pub const PRELUDE: &str = r##"#![allow(warnings)]
extern crate wopmon_rt as rt;
use rt::lrp_here as lrp;
use lrp::Parser;
pub type Out = String;
pub trait Show { fn ty() -> &'static str; fn show(&self) -> String; }
type T<S> = lrp::Token<lrp::Meta<String>, S>;
fn body<S>(t: &T<S>) -> String { format!("{}@{}-{}", t.item.item, t.item.span.start, t.item.span.end) }
fn list<S>(t: &[T<S>]) -> String { t.iter().map(body).collect::<Vec<_>>().join(",") }
impl<S> Show for T<S> { fn ty() -> &'static str { "T" } fn show(&self) -> String { format!("T{}", body(self)) } }
impl<S> Show for &T<S> { fn ty() -> &'static str { "&T" } fn show(&self) -> String { format!("R{}", body(self)) } }
impl<S> Show for &[T<S>] { fn ty() -> &'static str { "&[T]" } fn show(&self) -> String { format!("S[{}]", list(self)) } }
impl<S> Show for Vec<T<S>> { fn ty() -> &'static str { "Vec" } fn show(&self) -> String { format!("V[{}]", list(self)) } }
impl<X: Show> Show for Option<X> {
    fn ty() -> &'static str { "Option" }
    fn show(&self) -> String { match self { Some(x) => format!("Some({})", x.show()), None => format!("None:{}", X::ty()) } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sy { R0, R1_a, R2é, R3, R4_a, R5é, R6, R7_a, R8é, R9, R10_a, R11é, R12, R13_a, R14é, R15, R16_a, R17é, R18, R19_a, R20é, R21, R22_a, R23é, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, T16, T17, T18, T19, T20, T21, T22, T23, T24, T25, T26, T27, T28, T29, T30, T31, T32, T33, T34, T35, T36, T37, T38, T39, End }
pub fn sh<X: Show>(x: &X) -> String { x.show() }
pub fn vv(tag: &str, names: &[(&str, String)], n: usize) -> String {
    let mut s = format!("{tag}<{n}>[");
    for (n, v) in names { s.push_str(&format!("{n}={v};")); }
    s.push(']');
    if s.len() > 300 { format!("#{:x}", fnv(s.as_bytes())) } else { s }
}
fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b { h ^= u64::from(*x); h = h.wrapping_mul(0x0000_0100_0000_01b3); }
    h
}
/// Every reductor on made-up tokens.
pub fn reductors<S: Clone + Ord + std::fmt::Debug>(m: usize, all: &[S], g: lrp::Grammar<S>, r: lrp::ReductMap<lrp::Meta<String>, S>) {
    for rule in g.rules() {
        let k = all.iter().position(|s| *s == rule.name).unwrap();
        for p in rule.prods() {
            let toks: Vec<T<S>> = p.0.iter().enumerate().map(|(j, s)| {
                let id = all.iter().position(|t| t == s).unwrap();
                lrp::Token::new(lrp::Meta::new(format!("{j}~{id}"), lrp::Span::new(10 * j + 1, 10 * j + 7)), s.clone())
            }).collect();
            let ids: Vec<String> = p.0.iter().map(|s| all.iter().position(|t| t == s).unwrap().to_string()).collect();
            let v = r[&rule.name][p.1](&toks);
            println!("{m} {k} {} {} {}-{}", ids.join(","), v.item, v.span.start, v.span.end);
        }
    }
}
/// Words through a parser.
pub fn words<S: Clone + Ord + std::fmt::Debug>(m: usize, kind: usize, p: &impl lrp::Parser<S>, all: &[S], r: lrp::ReductMap<lrp::Meta<String>, S>, words: &[&[(usize, usize, usize)]]) {
    for (n, w) in words.iter().enumerate() {
        let toks: Vec<T<S>> = w.iter().map(|(id, s, e)| lrp::Token::new(lrp::Meta::new(format!("t{id}"), lrp::Span::new(*s, *e)), all[*id].clone())).collect();
        let mut d = p.dfa(toks.into_iter(), r.clone());
        match d.start() {
            Ok(()) => println!("{m} {kind} {n} ok {}", d.items.iter().map(body).collect::<Vec<_>>().join(" ")),
            Err(e) => println!("{m} {kind} {n} err {}", w.len() - d.buffer.len()),
        }
    }
}
"##;

// ------------------------------------------------------------------------------------- compiling

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(ctx: &Ctx, what: &str) -> Scratch {
        let exe = std::env::current_exe().expect("own path");
        let base = exe.parent().expect("target/<profile>").join("scratch");
        let p = base.join(format!("{what}-{}-{}", std::process::id(), ctx.index));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Compiles a program against what `rt.rs` gives it: its path, or what the compiler says.
pub fn compile(dir: &Path, source: &str) -> Result<PathBuf, String> {
    let exe = std::env::current_exe().expect("own path");
    let target = exe.parent().expect("target/<profile>");
    let src = dir.join("program.rs");
    let bin = dir.join("program");
    std::fs::write(&src, source).expect("writing a program");
    let o = Command::new("rustc")
        .args(["--edition", "2021", "--crate-name", "program", "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=4"])
        .arg("-Cdebug-assertions=yes")
        .arg("--extern")
        .arg(format!("wopmon_rt={}", target.join("libwopmon_rt.rlib").display()))
        .arg("-L")
        .arg(format!("dependency={}", target.join("deps").display()))
        .arg("-o")
        .arg(&bin)
        .arg(&src)
        .env_remove("RUSTFLAGS")
        .output()
        .expect("running rustc");
    if o.status.success() {
        return Ok(bin);
    }
    let text = String::from_utf8_lossy(&o.stderr);
    let errors: Vec<&str> = text.split("\n\n").filter(|b| b.contains("error")).take(3).collect();
    Err(errors.join("\n\n").chars().take(2500).collect())
}

pub fn run(bin: &Path, dir: &Path, args: &[&str]) -> Result<String, String> {
    let o = Command::new(bin).args(args).current_dir(dir).output().expect("running a program");
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    if o.status.success() {
        Ok(out)
    } else {
        Err(format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(1500).collect::<String>()))
    }
}
