//! Reference parser of the grammar language: recursive descent over the reference tokens.
use crate::lex::Tok;
use wop::Sym;

pub type Sp = (usize, usize);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    Path,
    Lit,
    Group(Vec<Pipe>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Item {
    pub kind: Kind,
    /// of what it names; of a group, what is between the parentheses
    pub span: Sp,
    /// with its parentheses, mark and alias
    pub full: Sp,
    pub opt: bool,
    pub alias: Option<Sp>,
    pub clone: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pipe {
    pub items: Vec<Item>,
    pub code: Option<Sp>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    Rule { name: Sp, ty: Sp, pipes: Vec<Pipe> },
    Use(Sp),
    Alias(Sp, Sp),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Decl {
    pub what: What,
    pub span: Sp,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Prog {
    pub decls: Vec<Decl>,
    pub span: Sp,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
}

type R<T> = Result<T, usize>;

impl P<'_> {
    fn at(&self, s: Sym) -> bool {
        self.t.get(self.i).is_some_and(|t| t.t == s)
    }
    fn end(&self) -> usize {
        self.t[self.i - 1].e
    }
    fn need(&mut self, s: Sym) -> R<Sp> {
        if self.at(s) {
            self.i += 1;
            let t = &self.t[self.i - 1];
            Ok((t.s, t.e))
        } else {
            Err(self.i)
        }
    }
    fn path(&mut self) -> R<Sp> {
        let mut sp = self.need(Sym::Ident)?;
        while self.at(Sym::PathAccess) {
            self.i += 1;
            sp.1 = self.need(Sym::Ident)?.1;
        }
        Ok(sp)
    }
    fn decl(&mut self) -> R<Decl> {
        if self.at(Sym::UseWord) {
            let (s, _) = self.need(Sym::UseWord)?;
            let mut sp = self.need(Sym::Ident)?;
            while self.at(Sym::PathAccess) {
                self.i += 1;
                if self.at(Sym::Glob) {
                    sp.1 = self.need(Sym::Glob)?.1;
                    break;
                }
                sp.1 = self.need(Sym::Ident)?.1;
            }
            return Ok(Decl { what: What::Use(sp), span: (s, sp.1) });
        }
        if self.at(Sym::AliasWord) {
            let (s, _) = self.need(Sym::AliasWord)?;
            let k = if self.at(Sym::StrLit) { self.need(Sym::StrLit)? } else { self.need(Sym::Ident)? };
            let d = self.path()?;
            return Ok(Decl { what: What::Alias(k, d), span: (s, d.1) });
        }
        let name = self.path()?;
        self.need(Sym::TwoDots)?;
        let ty = self.path()?;
        self.need(Sym::Assign)?;
        let pipes = self.rule()?;
        Ok(Decl { span: (name.0, self.end()), what: What::Rule { name, ty, pipes } })
    }
    fn rule(&mut self) -> R<Vec<Pipe>> {
        let mut v = vec![self.pipe()?];
        while self.at(Sym::Pipe) {
            self.i += 1;
            v.push(self.pipe()?);
        }
        Ok(v)
    }
    fn pipe(&mut self) -> R<Pipe> {
        let mut items = vec![self.item()?];
        while self.at(Sym::Ident) || self.at(Sym::StrLit) || self.at(Sym::OpenParen) {
            items.push(self.item()?);
        }
        let code = if self.at(Sym::CodeBlock) { Some(self.need(Sym::CodeBlock)?) } else { None };
        Ok(Pipe { items, code })
    }
    fn item(&mut self) -> R<Item> {
        let start = self.t.get(self.i).map_or(0, |t| t.s);
        let (kind, span) = if self.at(Sym::OpenParen) {
            self.i += 1;
            let s = self.t.get(self.i).map_or(0, |t| t.s);
            let g = self.rule()?;
            let e = self.end();
            self.need(Sym::CloseParen)?;
            (Kind::Group(g), (s, e))
        } else if self.at(Sym::StrLit) {
            (Kind::Lit, self.need(Sym::StrLit)?)
        } else {
            (Kind::Path, self.path()?)
        };
        let opt = self.at(Sym::Optional);
        self.i += usize::from(opt);
        let (mut alias, mut clone) = (None, false);
        if self.at(Sym::TwoDots) {
            self.i += 1;
            clone = self.at(Sym::Clone);
            self.i += usize::from(clone);
            alias = Some(self.need(Sym::Ident)?);
        }
        Ok(Item { kind, span, full: (start, self.end()), opt, alias, clone })
    }
}

/// The program, or the index of the first token no program can have there.
pub fn parse(t: &[Tok]) -> R<Prog> {
    let mut p = P { t, i: 0 };
    let mut decls = vec![];
    while p.i < t.len() || decls.is_empty() {
        decls.push(p.decl()?);
        p.need(Sym::Sc)?;
    }
    Ok(Prog { span: (t[0].s, p.end()), decls })
}

/// What makes a program that can be read impossible to build.
pub fn objections(p: &Prog, src: &str) -> Vec<&'static str> {
    fn groups(items: &[Item], bad: &mut Vec<&'static str>) {
        for i in items {
            if let Kind::Group(pipes) = &i.kind {
                for p in pipes {
                    if p.code.is_some() {
                        bad.push("code block inside a group");
                    }
                    groups(&p.items, bad);
                }
            }
        }
    }
    let mut bad = vec![];
    let mut names = vec![];
    let mut aliases = vec![];
    for d in &p.decls {
        match &d.what {
            What::Rule { name, pipes, .. } => {
                let n = &src[name.0..name.1];
                if names.contains(&n) {
                    bad.push("rule defined twice");
                }
                names.push(n);
                for p in pipes {
                    if p.code.is_none() {
                        bad.push("missing code block");
                    }
                    groups(&p.items, &mut bad);
                }
            }
            What::Alias(k, _) => {
                let n = &src[k.0..k.1];
                if aliases.contains(&n) {
                    bad.push("alias defined twice");
                }
                aliases.push(n);
            }
            What::Use(_) => {}
        }
    }
    bad
}
