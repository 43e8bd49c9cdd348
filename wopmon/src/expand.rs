//! Reference meaning of rules: the plain productions an EBNF body stands for, and what every
//! name given to a part of it is bound to in each of them.
use crate::par::{Item, Kind, Pipe, Sp};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Tok(usize),
    Slice(usize, usize),
    Absent,
}

#[derive(Clone, Debug)]
pub struct Bind {
    pub val: Val,
    /// it may be absent in some production
    pub maybe: bool,
    pub group: bool,
    pub clone: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Prod {
    pub toks: Vec<String>,
    pub binds: BTreeMap<String, Bind>,
}

/// How many productions a body stands for.
pub fn count(items: &[Item]) -> usize {
    items.iter().fold(1usize, |n, i| {
        let k = match &i.kind {
            Kind::Group(p) => p.iter().map(|p| count(&p.items)).fold(0, usize::saturating_add),
            _ => 1,
        } + usize::from(i.opt);
        n.saturating_mul(k)
    })
}

pub fn count_rule(pipes: &[Pipe]) -> usize {
    pipes.iter().map(|p| count(&p.items)).fold(0, usize::saturating_add)
}

/// Text without what the lexer skips.
pub fn plain(s: &str) -> String {
    crate::lex::lex(s).toks.iter().map(|t| &s[t.s..t.e]).collect()
}

struct X<'a> {
    src: &'a str,
    aliases: &'a BTreeMap<String, Sp>,
}

impl X<'_> {
    fn name(&self, s: Sp) -> String {
        self.src[s.0..s.1].to_string()
    }
    /// every name in a body, as it is where it stands for nothing
    fn names(&self, items: &[Item], inside: bool, out: &mut BTreeMap<String, Bind>) {
        for i in items {
            if let Some(a) = i.alias {
                out.entry(self.name(a)).or_insert(Bind {
                    val: Val::Absent,
                    maybe: inside || i.opt,
                    group: matches!(i.kind, Kind::Group(_)),
                    clone: i.clone,
                });
            }
            if let Kind::Group(pipes) = &i.kind {
                for p in pipes {
                    self.names(&p.items, true, out);
                }
            }
        }
    }
    fn body(&self, items: &[Item], bases: Vec<Prod>) -> Vec<Prod> {
        let mut cur = bases;
        for i in items {
            let mut next = vec![];
            for base in cur {
                let start = base.toks.len();
                let with: Vec<Prod> = match &i.kind {
                    Kind::Group(pipes) => pipes.iter().flat_map(|p| self.body(&p.items, vec![base.clone()])).collect(),
                    _ => {
                        let t = &self.src[i.span.0..i.span.1];
                        let t = self.aliases.get(t).map_or(t, |d| &self.src[d.0..d.1]);
                        let mut b = base.clone();
                        b.toks.push(t.to_string());
                        vec![b]
                    }
                };
                for mut p in with {
                    if let Some(a) = i.alias {
                        let val = if matches!(i.kind, Kind::Group(_)) {
                            Val::Slice(start, p.toks.len())
                        } else {
                            Val::Tok(start)
                        };
                        p.binds.insert(
                            self.name(a),
                            Bind { val, maybe: false, group: matches!(i.kind, Kind::Group(_)), clone: i.clone },
                        );
                    }
                    next.push(p);
                }
                if i.opt {
                    next.push(base);
                }
            }
            cur = next;
        }
        cur
    }
}

/// The productions of one alternative.
pub fn productions(src: &str, aliases: &BTreeMap<String, Sp>, pipe: &Pipe) -> Vec<Prod> {
    let x = X { src, aliases };
    let mut all = BTreeMap::new();
    x.names(&pipe.items, false, &mut all);
    let mut v = x.body(&pipe.items, vec![Prod::default()]);
    for p in &mut v {
        for (n, b) in &all {
            match p.binds.get_mut(n) {
                Some(have) => have.maybe = b.maybe,
                None => {
                    p.binds.insert(n.clone(), b.clone());
                }
            }
        }
    }
    v
}
