//! One function per property: builds a workload case, runs the code under test and judges it.
use crate::batch::{self, Lang, Scratch};
use crate::expand;
use crate::gen;
use std::collections::BTreeMap;
use crate::harness::CaseFn;
use crate::lex::{self, Lexed};
use crate::more;
use crate::par::{self, Decl, Item, Kind, Pipe, Prog, Sp, What};
use crate::rng::fnv;
use crate::{fail, Ctx, Res};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wop::builder::Builder;
use wop::{Ast, Gramem, Sym};

pub const OWN: &str = include_str!("/repo/wop/src/wop.grammar");

pub const ALL: &[(&str, CaseFn)] = &[("C22", c22), ("C23", c23), ("C24", c24), ("C25", c25), ("C26", c26), ("C27", c27), ("C28", c28), ("C29", c29), ("C30", more::memory), ("C31", more::kept), ("C34", more::printed), ("C35", more::lazy)];

pub fn short(s: &str) -> String {
    s.chars().take(1200).collect()
}

fn sp(s: &lrp::Span) -> Sp {
    (s.start, s.end)
}

fn text(ctx: &mut Ctx) -> (String, Lexed) {
    let (s, kind) = gen::any_text(&mut ctx.rng, OWN);
    ctx.count(kind, 1);
    ctx.on("text", format!("{:?}", short(&s)));
    let l = lex::lex(&s);
    (s, l)
}

/// Whether the last token is a keyword with a character outside ASCII right after it that no
/// token has. Whether it is a keyword or an identifier is left open: the lexer generator looks
/// at the first byte of the character only. Nothing that holds one is a program either way.
pub fn touches(s: &str, l: &Lexed) -> bool {
    matches!((l.toks.last(), l.err), (Some(t), Some(p)) if t.e == p
        && matches!(t.t, Sym::AliasWord | Sym::UseWord)
        && !s.as_bytes()[p].is_ascii())
}

thread_local! {
    static MACHINE: (lrp::ActTable<Sym>, lrp::ReductMap<lrp::Meta<Ast>, Sym>, Sym) = {
        let m = wop::build_parser(std::iter::empty());
        (m.table, m.reductors, m.eof)
    };
}

/// The parser of the tool on a text. Building its table takes longer than most texts, so only
/// some are made anew.
fn machine<'a>(ctx: &mut Ctx, s: &'a str) -> lrp::Dfa<lrp::Meta<Ast>, Sym, Box<dyn Iterator<Item = Gramem> + 'a>> {
    let lexer: Box<dyn Iterator<Item = Gramem> + 'a> = Box::new(wop::lexer(s));
    if ctx.rng.chance(1, 16) {
        ctx.count("parsers_built", 1);
        return wop::build_parser(lexer);
    }
    MACHINE.with(|(t, r, e)| lrp::Dfa::new(lexer, t.clone(), r.clone(), *e))
}

// ---------------------------------------------------------------- C22

/// The tokens of a text, up to the first place where none starts, are the longest ones there.
fn c22(ctx: &mut Ctx) -> Res {
    let (s, l) = text(ctx);
    let limit = s.len() + 2;
    let got: Vec<Gramem> = wop::lexer(&s).take(limit).collect();
    if got.len() == limit {
        return fail("the lexer gives more tokens than there are characters");
    }
    ctx.count("comments_skipped", l.comments as u64);
    for (i, g) in got.iter().enumerate() {
        if g.item.item != Ast::Token(g.ty) {
            return fail(format!("token {i} of type {:?} carries {:?}", g.ty, g.item.item));
        }
    }
    for (i, w) in l.toks.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return fail(format!("token {i} is missing: {:?} {:?}", w.t, &s[w.s..w.e]));
        };
        let loose = i + 1 == l.toks.len() && touches(&s, &l);
        if loose {
            ctx.count("keywords_touching_what_is_no_token", 1);
        }
        if (g.ty, sp(&g.item.span)) != (w.t, (w.s, w.e)) && !(loose && (g.ty, sp(&g.item.span)) == (Sym::Ident, (w.s, w.e))) {
            return fail(format!(
                "token {i} should be {:?} at {:?} ({:?}), is {:?} at {:?}",
                w.t,
                (w.s, w.e),
                &s[w.s..w.e],
                g.ty,
                sp(&g.item.span)
            ));
        }
    }
    let n = l.toks.len();
    match l.err {
        None => {
            ctx.count("texts_without_errors", 1);
            if let Some(g) = got.get(n) {
                return fail(format!("a token too many: {:?} at {:?}", g.ty, sp(&g.item.span)));
            }
        }
        Some(p) => {
            ctx.count("texts_with_errors", 1);
            let Some(g) = got.get(n) else {
                return fail(format!("no token starts at {p}, and no error is given"));
            };
            if g.ty != Sym::Error || g.item.span.start != p {
                return fail(format!("no token starts at {p}, but there is {:?} at {:?}", g.ty, sp(&g.item.span)));
            }
            // what follows an error is not specified, but has to be parts of the text in order
            let mut at = p;
            for g in &got[n..] {
                let (a, b) = sp(&g.item.span);
                if a < at || b <= a || s.get(a..b).is_none() {
                    return fail(format!("{:?} at {:?} is no part of what is left after {at}", g.ty, (a, b)));
                }
                at = b;
            }
        }
    }
    ctx.count("tokens_compared", n as u64);
    ctx.judged(fnv(s.as_bytes()), !l.toks.is_empty());
    ctx.sample(|| format!("{:?}: {n} tokens, error {:?}", short(&s), l.err));
    Ok(())
}

// ---------------------------------------------------------------- C23

/// What the parser of the tool is given and has to say about it: the tokens and, if they are no
/// program, the first one that cannot follow those before it.
fn c23(ctx: &mut Ctx) -> Res {
    let (s, l) = text(ctx);
    if touches(&s, &l) {
        ctx.count("texts_left_out", 1);
        return Ok(());
    }
    let want = match par::parse(&l.toks) {
        Err(i) => Err(i),
        // the tokens before the lexical error are a whole program, or the beginning of one
        Ok(_) if l.err.is_some() => Err(l.toks.len()),
        Ok(p) => Ok(p),
    };
    let mut dfa = machine(ctx, &s);
    let got = dfa.start();
    match &want {
        Ok(p) => {
            ctx.count("programs_accepted", 1);
            if let Err(e) = got {
                return fail(format!("a program of {} declarations is rejected: {e}", p.decls.len()));
            }
            if dfa.buffer.peek().is_some() {
                return fail("a program is accepted before its end");
            }
        }
        Err(i) => {
            let bad = l.toks.get(*i).map_or(if l.err.is_some() { Sym::Error } else { Sym::Eof }, |t| t.t);
            let place = l.toks.get(*i).map(|t| t.s).or(l.err);
            ctx.count(
                match (place.is_some(), bad) {
                    (false, _) => "errors_at_end",
                    (_, Sym::Error) => "errors_at_what_is_no_token",
                    _ => "errors_inside",
                },
                1,
            );
            match got {
                Ok(()) => return fail(format!("accepted, but {bad:?} at {place:?} cannot stand there")),
                Err(lrp::Error::UnexpectedToken(t, e)) => {
                    if t != bad {
                        return fail(format!("reports {t:?}, but {bad:?} at {place:?} is the first wrong token"));
                    }
                    if e.is_empty() || e.contains(&t) {
                        return fail(format!("reports {t:?} at {place:?} and expected {e:?}"));
                    }
                    ctx.count("expected_lists_read", 1);
                }
                Err(e) => return fail(format!("{bad:?} at {place:?} cannot stand there, but the error is {e:?}")),
            }
            let left = dfa.buffer.peek().map(|t| t.item.span.start);
            if left != place {
                return fail(format!("stops at {left:?}, but {bad:?} at {place:?} is the first wrong token"));
            }
        }
    }
    ctx.judged(fnv(s.as_bytes()), l.toks.len() > 1);
    ctx.sample(|| format!("{:?}: {}", short(&s), want.as_ref().map_or_else(|i| format!("wrong at token {i}"), |_| "program".into())));
    // the same through the builder
    if !ctx.rng.chance(1, 5) {
        return Ok(());
    }
    let built = catch_unwind(AssertUnwindSafe(|| s.parse::<Builder>()));
    match (&want, built) {
        (Err(_), Ok(Err(_))) => {}
        (Err(_), Ok(Ok(_))) => return fail("the builder takes what is no program"),
        (Err(_), Err(_)) => return fail("the builder panics on what is no program, where the parser gives an error"),
        (Ok(p), b) => {
            let bad = par::objections(p, &s);
            match b {
                Ok(Ok(_)) if bad.is_empty() => ctx.count("programs_built", 1),
                Ok(Ok(_)) => return fail(format!("the builder takes a program with {bad:?}")),
                _ if !bad.is_empty() => ctx.count("unsound_programs_refused", 1),
                Ok(Err(e)) => return fail(format!("the builder rejects a program: {e}")),
                Err(_) => return fail("the builder panics on a sound program"),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C24

fn same(ctx: &mut Ctx, what: &str, got: Sp, want: Sp) -> Res {
    ctx.count("spans_compared", 1);
    if got == want {
        Ok(())
    } else {
        fail(format!("{what} is at {got:?}, should be at {want:?}"))
    }
}

fn ast_items(ctx: &mut Ctx, got: &[Gramem], want: &[Item]) -> Res {
    if got.len() != want.len() {
        return fail(format!("{} items instead of {} at {:?}", got.len(), want.len(), want[0].full));
    }
    for (g, w) in got.iter().zip(want) {
        if g.ty != Sym::RuleItem {
            return fail(format!("a {:?} where an item should be, at {:?}", g.ty, w.full));
        }
        same(ctx, "an item", sp(&g.item.span), w.full)?;
        let Ast::RuleItem(inner, opt, alias, clone) = &g.item.item else {
            return fail(format!("not an item at {:?}: {:?}", w.full, g.item.item));
        };
        if (*opt, *clone) != (w.opt, w.clone) {
            return fail(format!("the item at {:?} is read as optional={opt} clone={clone}", w.full));
        }
        if alias.as_ref().map(sp) != w.alias {
            return fail(format!("the item at {:?} is read with the alias at {:?}, not {:?}", w.full, alias, w.alias));
        }
        same(ctx, "what an item names", sp(&inner.item.span), w.span)?;
        match (&w.kind, inner.ty, &inner.item.item) {
            (Kind::Path, Sym::IdentPath, Ast::IdentPath(p)) => same(ctx, "a path", sp(p), w.span)?,
            (Kind::Lit, Sym::StrLit, Ast::Token(Sym::StrLit)) => {}
            (Kind::Group(pipes), Sym::Rule, Ast::Rule(v)) => {
                ctx.count("groups_compared", 1);
                ast_pipes(ctx, v, pipes)?;
            }
            (k, t, _) => return fail(format!("the item at {:?} is read as {t:?}, not as {k:?}", w.full)),
        }
        ctx.count("items_compared", 1);
    }
    Ok(())
}

fn ast_pipes(ctx: &mut Ctx, got: &[wop::RulePipe], want: &[Pipe]) -> Res {
    if got.len() != want.len() {
        return fail(format!("{} alternatives instead of {}", got.len(), want.len()));
    }
    for ((items, code), w) in got.iter().zip(want) {
        same(ctx, "a code block", sp(code), w.code.unwrap_or((0, 0)))?;
        ast_items(ctx, items, &w.items)?;
    }
    Ok(())
}

fn ast_decl(ctx: &mut Ctx, g: &Gramem, w: &Decl) -> Res {
    same(ctx, "a declaration", sp(&g.item.span), w.span)?;
    match (&w.what, g.ty, &g.item.item) {
        (What::Rule { name, ty, pipes }, Sym::RuleDecl, Ast::RuleDecl((n, t, v))) => {
            same(ctx, "a rule's name", sp(n), *name)?;
            same(ctx, "a rule's type", sp(t), *ty)?;
            ast_pipes(ctx, v, pipes)
        }
        (What::Use(p), Sym::Import, Ast::Import(s)) => same(ctx, "an import", sp(s), *p),
        (What::Alias(k, d), Sym::Alias, Ast::Alias(a, b)) => {
            same(ctx, "an alias", sp(a), *k)?;
            same(ctx, "an alias's meaning", sp(b), *d)
        }
        (w, t, _) => fail(format!("{w:?} is read as {t:?}")),
    }
}

fn ast_program(ctx: &mut Ctx, g: &Gramem, w: &Prog) -> Res {
    let Ast::Program(v) = &g.item.item else {
        return fail(format!("the result is no program but {:?}", g.ty));
    };
    same(ctx, "the program", sp(&g.item.span), w.span)?;
    if v.len() != w.decls.len() {
        return fail(format!("{} declarations instead of {}", v.len(), w.decls.len()));
    }
    for (g, w) in v.iter().zip(&w.decls) {
        ast_decl(ctx, g, w)?;
    }
    Ok(())
}

/// The tree of a program says what is written, and where.
fn c24(ctx: &mut Ctx) -> Res {
    let toks = if ctx.index < 8 {
        vec![OWN.to_string()]
    } else {
        let sound = ctx.rng.chance(9, 10);
        let depth = ctx.rng.range(0, 5);
        gen::program(&mut ctx.rng, gen::Cfg { sound, depth })
    };
    // the same tokens, laid out in two ways
    for k in 0..2 {
        let loose = if k == 0 { 0 } else { ctx.rng.below(9) };
        let s = gen::layout(&mut ctx.rng, &toks, loose);
        ctx.on("text", format!("{:?}", short(&s)));
        let l = lex::lex(&s);
        ctx.count("comments_skipped", l.comments as u64);
        assert!(l.err.is_none(), "the generator made what is no token");
        let p = par::parse(&l.toks).unwrap_or_else(|i| panic!("the generator made no program, wrong at token {i}"));
        let mut dfa = machine(ctx, &s);
        if let Err(e) = dfa.start() {
            return fail(format!("a program is rejected: {e}"));
        }
        if dfa.items.len() != 1 {
            return fail(format!("{} trees are left of one program", dfa.items.len()));
        }
        ast_program(ctx, &dfa.items[0], &p)?;
        // a machine that is given the text again gives the same tree
        if k == 1 && ctx.rng.chance(1, 8) {
            let mut again = machine(ctx, &s);
            if again.start().is_err() || again.items != dfa.items {
                return fail("a second reading of the same text gives another tree");
            }
            ctx.count("read_twice", 1);
        }
        ctx.judged(fnv(s.as_bytes()), p.decls.len() > 1);
        ctx.sample(|| format!("{:?}: {} declarations", short(&s), p.decls.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

/// The productions a dumped grammar builds: rule name and texts. None if it is not written the
/// way this reads it.
fn read_dump(d: &str) -> Option<Vec<(String, Vec<Vec<String>>)>> {
    // atoms: strings, punctuation, words; comments and blanks are left out
    let mut atoms: Vec<String> = vec![];
    let mut rest = d;
    while let Some(c) = rest.chars().next() {
        let n = if c.is_whitespace() {
            c.len_utf8()
        } else if rest.starts_with("/*") {
            rest[2..].find("*/")? + 4
        } else if rest.starts_with("//") {
            rest.find('\n').unwrap_or(rest.len())
        } else if c == '"' {
            let l = lex::lex(rest);
            let t = l.toks.first()?;
            atoms.push(rest[..t.e].to_string());
            t.e
        } else if "()[],;!{}".contains(c) {
            atoms.push(c.to_string());
            1
        } else {
            let n = rest.find(|c: char| c.is_whitespace() || "()[],;!{}\"/".contains(c)).unwrap_or(rest.len()).max(1);
            atoms.push(rest.get(..n)?.to_string());
            n
        };
        rest = &rest[n..];
    }
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| atoms.get(i).map_or("", String::as_str);
    while i < atoms.len() {
        if !(at(i).ends_with("Rule::new") && at(i + 1) == "(") {
            i += 1;
            continue;
        }
        i += 2;
        let mut name = String::new();
        while at(i) != "," {
            name.push_str(at(i));
            i += 1;
            if i >= atoms.len() {
                return None;
            }
        }
        i += 1;
        if (at(i), at(i + 1), at(i + 2)) != ("vec", "!", "[") {
            return None;
        }
        i += 3;
        let mut prods = vec![];
        while at(i) == "vec" {
            i += 1;
            if (at(i), at(i + 1)) != ("!", "[") {
                return None;
            }
            i += 2;
            let mut v = vec![];
            let mut cur = String::new();
            loop {
                match at(i) {
                    "" => return None,
                    "]" => break,
                    "," => v.push(std::mem::take(&mut cur)),
                    a => cur.push_str(a),
                }
                i += 1;
            }
            if !cur.is_empty() {
                v.push(cur);
            }
            i += 1;
            prods.push(v);
            if at(i) == "," {
                i += 1;
            }
        }
        if at(i) != "]" {
            return None;
        }
        out.push((name, prods));
    }
    Some(out)
}

/// What is built of a program are the productions its rules stand for.
fn c25(ctx: &mut Ctx) -> Res {
    let own = ctx.index < 8;
    let s = if own {
        OWN.to_string()
    } else {
        let depth = ctx.rng.range(0, 4);
        let mut t = gen::program(&mut ctx.rng, gen::Cfg { sound: true, depth });
        gen::use_aliases(&mut ctx.rng, &mut t);
        let loose = ctx.rng.below(7);
        gen::layout(&mut ctx.rng, &t, loose)
    };
    ctx.on("text", format!("{:?}", short(&s)));
    let l = lex::lex(&s);
    let Ok(p) = par::parse(&l.toks) else { panic!("the generator made no program") };
    assert!(l.err.is_none() && par::objections(&p, &s).is_empty(), "the generator made what cannot be built");
    let cut = |x: Sp| s[x.0..x.1].to_string();
    let size: usize = p.decls.iter().map(|d| if let What::Rule { pipes, .. } = &d.what { expand::count_rule(pipes) } else { 0 }).fold(0, usize::saturating_add);
    if size > 600 {
        ctx.count("programs_too_large", 1);
        return Ok(());
    }
    let mut b: Builder = match s.parse() {
        Ok(b) => b,
        Err(e) => return fail(format!("a sound program is rejected: {e}")),
    };
    let mut aliases: BTreeMap<String, Sp> = BTreeMap::new();
    let mut imports = vec![];
    let mut rules = 0;
    let dump = read_dump(&b.dump_grammar(&s));
    ctx.count(if dump.is_some() { "dumps_read" } else { "dumps_not_read" }, 1);
    for d in &p.decls {
        match &d.what {
            What::Use(x) => imports.push(*x),
            What::Alias(k, d) => {
                aliases.insert(cut(*k), *d);
            }
            What::Rule { name, ty, pipes } => {
                rules += 1;
                let n = cut(*name);
                let mut want: Vec<(Vec<String>, Sp, Sp)> = vec![];
                for pipe in pipes {
                    for x in expand::productions(&s, &aliases, pipe) {
                        want.push((x.toks.clone(), pipe.code.expect("checked"), *ty));
                        ctx.count("names_bound", x.binds.len() as u64);
                    }
                }
                let Some(have) = b.rules.get(&n) else {
                    return fail(format!("rule {n:?} is not built"));
                };
                let mut got: Vec<(Vec<String>, Sp, Sp)> = have
                    .iter()
                    .map(|x| (x.production.iter().map(|t| cut(sp(t))).collect(), sp(&x.codeblock), sp(&x.ty)))
                    .collect();
                ctx.count("productions_compared", got.len() as u64);
                // what is written out
                if let Some(dump) = &dump {
                    let found: Vec<_> = dump.iter().filter(|x| x.0 == expand::plain(&n)).collect();
                    if found.len() != 1 {
                        return fail(format!("rule {n:?} is written out {} times", found.len()));
                    }
                    let mut a = found[0].1.clone();
                    let mut b: Vec<Vec<String>> = want.iter().map(|w| w.0.iter().map(|t| expand::plain(t)).collect()).collect();
                    a.sort();
                    b.sort();
                    if a != b {
                        return fail(format!("rule {n:?} is written out as {a:?}, stands for {b:?}"));
                    }
                }
                want.sort();
                got.sort();
                if want != got {
                    return fail(format!("rule {n:?} stands for {want:?}, is built as {got:?}"));
                }
            }
        }
    }
    if b.rules.len() != rules {
        return fail(format!("{} rules are built of {rules}", b.rules.len()));
    }
    let got: Vec<Sp> = b.imports.iter().map(sp).collect();
    if got != imports {
        return fail(format!("imports {got:?} instead of {imports:?}"));
    }
    if !imports.is_empty() {
        // and they are written out, into both parts
        b.entry_type = "Tk".to_string();
        for (part, d) in [("grammar", b.dump_grammar(&s)), ("reductors", b.dump_reductor(&s))] {
            let mut at = 0;
            for i in &imports {
                let text = cut(*i);
                let found = d[at..].match_indices(&text).map(|m| at + m.0).find(|p| d[..*p].trim_end().ends_with("use"));
                let Some(p) = found else {
                    return fail(format!("the import {text:?} is not written out in its place of the {part}"));
                };
                at = p + text.len();
                ctx.count("imports_written", 1);
            }
        }
    }
    let got: BTreeMap<String, Sp> = b.aliases.iter().map(|(k, v)| (k.clone(), sp(v))).collect();
    if got != aliases {
        return fail(format!("aliases {got:?} instead of {aliases:?}"));
    }
    ctx.count("rules_compared", rules as u64);
    ctx.count("imports_compared", imports.len() as u64);
    ctx.count("aliases_compared", aliases.len() as u64);
    ctx.judged(fnv(s.as_bytes()), size > 1);
    ctx.sample(|| format!("{:?}: {size} productions", short(&s)));
    Ok(())
}

// ---------------------------------------------------------------- C26, C27

/// How many grammars one generated program holds.
const BATCH: usize = 24;

/// What the tool makes of a text, as the module of a program.
fn built(ctx: &mut Ctx, k: usize, l: &Lang) -> Result<String, crate::harness::Fail> {
    ctx.on("text", short(&l.text));
    let mut b: Builder = match l.text.parse() {
        Ok(b) => b,
        Err(e) => return fail(format!("a sound program is rejected: {e}")),
    };
    b.entry_type = "Tk".to_string();
    Ok(l.module(k, &b.dump_grammar(&l.text), &b.dump_reductor(&l.text)))
}

/// Finds the grammars that spoil a program: compiles them one by one.
fn blame(ctx: &mut Ctx, dir: &std::path::Path, langs: &[(&Lang, String)], all: &str) -> Res {
    for (l, m) in langs {
        if let Err(e) = batch::compile(dir, &format!("{}\n{m}\nfn main() {{}}\n", batch::PRELUDE)) {
            ctx.on("text", short(&l.text));
            ctx.on("written", m.chars().take(4000).collect());
            return fail(format!("the generated code does not compile: {e}"));
        }
    }
    panic!("a program of modules that compile does not compile: {all}")
}

/// The reductors of a rule bind the names of each production to what they stand for.
fn c26(ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(ctx, "c26");
    let mut langs = vec![];
    let mut source = batch::PRELUDE.to_string();
    let mut mods = vec![];
    let mut main = String::from("fn main() {\n");
    for k in 0..BATCH {
        let l = Lang::any(&mut ctx.rng, k);
        let m = built(ctx, k, &l)?;
        source.push_str(&m);
        mods.push(m);
        main.push_str(&format!("reductors({k}, &m{k}::all(), m{k}::grammar(), m{k}::reductors());\n"));
        langs.push(l);
    }
    source.push_str(&main);
    source.push_str("}\n");
    let bin = match batch::compile(&dir.0, &source) {
        Ok(b) => b,
        Err(e) => return blame(ctx, &dir.0, &langs.iter().zip(mods).collect::<Vec<_>>(), &e),
    };
    let out = match batch::run(&bin, &dir.0, &[]) {
        Ok(o) => o,
        Err(e) => return fail(format!("the generated code fails: {e}")),
    };
    ctx.count("programs_compiled", 1);
    let mut got: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
    for line in out.lines() {
        let mut w = line.splitn(3, ' ');
        let m: usize = w.next().and_then(|x| x.parse().ok()).expect("a module");
        let k: usize = w.next().and_then(|x| x.parse().ok()).expect("a rule");
        got.entry((m, k)).or_default().push(w.next().unwrap_or("").to_string());
    }
    for (m, l) in langs.iter().enumerate() {
        ctx.on("text", short(&l.text));
        for k in 0..l.nrules {
            let mut want: Vec<String> = vec![];
            for (i, (tag, p)) in l.prods[k].iter().enumerate() {
                let syms = &l.g.prods[k][i];
                let toks: Vec<batch::Tk> = syms
                    .iter()
                    .enumerate()
                    .map(|(j, s)| batch::Tk { item: format!("{j}~{s}"), s: 10 * j + 1, e: 10 * j + 7 })
                    .collect();
                let ids: Vec<String> = syms.iter().map(|s| s.to_string()).collect();
                let listed = l.listed(k, i);
                let v = batch::value(tag, p, &toks, &listed);
                want.push(format!("{} {v} {}-{}", ids.join(","), toks[0].s, toks[toks.len() - 1].e));
                ctx.count("reductors_run", 1);
                ctx.count("names_bound", listed.len() as u64);
                for n in &listed {
                    let b = &p.binds[n];
                    ctx.count(
                        match (&b.val, b.group, b.clone) {
                            (expand::Val::Absent, false, _) => "absent_items",
                            (expand::Val::Absent, true, _) => "absent_groups",
                            (_, false, false) => "items",
                            (_, false, true) => "cloned_items",
                            (_, true, false) => "groups",
                            (_, true, true) => "cloned_groups",
                        },
                        1,
                    );
                }
            }
            let mut have = got.remove(&(m, k)).unwrap_or_default();
            want.sort();
            have.sort();
            if want != have {
                let w: Vec<_> = want.iter().filter(|x| !have.contains(x)).collect();
                let h: Vec<_> = have.iter().filter(|x| !want.contains(x)).collect();
                return fail(format!("rule {k} (symbols, value and span per production): should give {w:?}, gives {h:?}"));
            }
        }
        let many = l.prods.iter().any(|p| p.len() > 1);
        ctx.judged(fnv(l.text.as_bytes()), many);
        ctx.sample(|| format!("{}: {} productions", short(&l.text), l.prods.iter().map(Vec::len).sum::<usize>()));
    }
    Ok(())
}

/// A grammar written in the language gives a parser that reads its sentences and computes what
/// the code blocks say.
fn c27(ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(ctx, "c27");
    let mut langs = vec![];
    let mut source = batch::PRELUDE.to_string();
    let mut mods = vec![];
    let mut main = String::from("fn main() {\n");
    for k in 0..BATCH {
        let (l, auto, kind) = Lang::parseable(&mut ctx.rng, k);
        let m = built(ctx, k, &l)?;
        source.push_str(&m);
        mods.push(m);
        let words = l.g.words(&mut ctx.rng, 12, 14);
        let words: Vec<Vec<(u16, usize, usize)>> = words
            .into_iter()
            .map(|w| {
                let mut at = ctx.rng.below(3);
                w.into_iter()
                    .map(|s| {
                        let a = at;
                        let b = a + ctx.rng.range(1, 4);
                        at = b + ctx.rng.below(2);
                        (s, a, b)
                    })
                    .collect()
            })
            .collect();
        let ws: Vec<String> = words
            .iter()
            .map(|w| format!("&[{}]", w.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(", ")))
            .collect();
        main.push_str(&format!("let ws: &[&[(usize, usize, usize)]] = &[{}];\n", ws.join(", ")));
        for (i, p) in ["Clr", "Lalr", "Slr"].iter().enumerate().take(kind + 1) {
            main.push_str(&format!("words({k}, {i}, &lrp::{p}::new(m{k}::grammar()), &m{k}::all(), m{k}::reductors(), ws);\n"));
        }
        langs.push((l, auto, kind, words));
    }
    source.push_str(&main);
    source.push_str("}\n");
    let bin = match batch::compile(&dir.0, &source) {
        Ok(b) => b,
        Err(e) => return blame(ctx, &dir.0, &langs.iter().map(|l| &l.0).zip(mods).collect::<Vec<_>>(), &e),
    };
    let out = match batch::run(&bin, &dir.0, &[]) {
        Ok(o) => o,
        Err(e) => return fail(format!("the generated code fails: {e}")),
    };
    ctx.count("programs_compiled", 1);
    let got: std::collections::BTreeSet<&str> = out.lines().collect();
    for (m, (l, auto, kind, words)) in langs.iter().enumerate() {
        ctx.on("text", short(&l.text));
        for (n, w) in words.iter().enumerate() {
            let syms: Vec<u16> = w.iter().map(|x| x.0).collect();
            let toks: Vec<batch::Tk> = w.iter().map(|x| batch::Tk { item: format!("t{}", x.0), s: x.1, e: x.2 }).collect();
            let v = l.eval(auto, &syms, &toks);
            for k in 0..=*kind {
                let want = match &v {
                    Ok(t) => format!("{m} {k} {n} ok {t}"),
                    Err(i) => format!("{m} {k} {n} err {i}"),
                };
                if !got.contains(want.as_str()) {
                    let head = format!("{m} {k} {n} ");
                    let have = got.iter().find(|x| x.starts_with(&head)).copied().unwrap_or("nothing");
                    ctx.on("word", format!("{:?}", w.iter().map(|x| &l.names[x.0 as usize]).collect::<Vec<_>>()));
                    return fail(format!("{} should give {want:?}, gives {have:?}", ["Clr", "Lalr", "Slr"][k]));
                }
                ctx.count(if v.is_ok() { "sentences_evaluated" } else { "words_rejected" }, 1);
            }
            ctx.judged(fnv(format!("{} {w:?}", l.text).as_bytes()), v.is_ok());
        }
        ctx.count(["grammars_lr1", "grammars_lalr", "grammars_slr"][*kind], 1);
        ctx.sample(|| short(&l.text));
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

/// The tool's command on a file in a directory of its own.
fn tool(dir: &std::path::Path, args: &[impl AsRef<std::ffi::OsStr>]) -> (bool, String) {
    let (ok, _, said) = tool_out(dir, args);
    (ok, said)
}

/// And what it prints.
pub fn tool_out(dir: &std::path::Path, args: &[impl AsRef<std::ffi::OsStr>]) -> (bool, String, String) {
    tool_in(dir, args, None)
}

/// The command, with a pipe at its input.
fn tool_in(dir: &std::path::Path, args: &[impl AsRef<std::ffi::OsStr>], input: Option<Vec<u8>>) -> (bool, String, String) {
    use std::process::Stdio;
    let exe = std::env::current_exe().expect("own path");
    let bin = exe.parent().expect("target/<profile>").join("wopcli");
    let mut c = std::process::Command::new(bin)
        .args(args)
        .current_dir(dir)
        .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .expect("running the tool");
    let feed = input.map(|b| {
        let mut to = c.stdin.take().expect("a pipe");
        std::thread::spawn(move || {
            let _ = std::io::Write::write_all(&mut to, &b);
        })
    });
    let o = c.wait_with_output().expect("its output");
    if let Some(f) = feed {
        let _ = f.join();
    }
    let err = String::from_utf8_lossy(&o.stderr);
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned(), format!("{}: {err}", o.status))
}

const BOOT: &str = r##"#![allow(warnings)]
extern crate wopmon_rt as rt;
pub use rt::lrp_published as lrp;
pub use rt::wop::{Ast, Gramem, Sym};
pub use lrp::Meta;
use lrp::Parser;
mod out { use crate::lrp; include!("out.rs"); }
fn rules(g: lrp::Grammar<Sym>) -> Vec<String> {
    let mut v: Vec<String> = g.rules().flat_map(|r| r.prods().map(|p| format!("{:?}: {:?}", r.name, p.0)).collect::<Vec<_>>()).collect();
    v.sort();
    v
}
fn main() {
    let (a, b) = (rules(rt::wop::out::grammar()), rules(out::grammar()));
    if a != b {
        let x: Vec<_> = a.iter().filter(|x| !b.contains(x)).collect();
        let y: Vec<_> = b.iter().filter(|x| !a.contains(x)).collect();
        println!("grammar shipped alone {x:?}, generated alone {y:?}");
    }
    let texts = std::fs::read_to_string("texts").unwrap();
    let ours = rt::wop::build_parser(std::iter::empty());
    let theirs = lrp::Slr::new(out::grammar());
    let reductors = out::reduct_map();
    let (mut ok, mut err) = (0, 0);
    for (i, t) in texts.split('\u{1}').enumerate() {
        let mut p = lrp::Dfa::new(rt::wop::lexer(t), ours.table.clone(), ours.reductors.clone(), ours.eof);
        let mut q = theirs.dfa(rt::wop::lexer(t), reductors.clone());
        let (x, y) = (p.start(), q.start());
        if x != y {
            println!("text {i} shipped {x:?} generated {y:?}");
        } else if p.items != q.items {
            println!("text {i} gives another tree");
        }
        if x.is_ok() { ok += 1 } else { err += 1 }
    }
    println!("done {ok} {err}");
}
"##;

/// The tool, given its own grammar, writes a parser that does what the one it is made of does.
fn c28(ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(ctx, "c28");
    let text = if ctx.index < 2 {
        OWN.to_string()
    } else {
        // the same grammar, declared in another order and laid out otherwise
        let l = lex::lex(OWN);
        let p = par::parse(&l.toks).unwrap_or_else(|i| panic!("the tool's grammar is wrong at token {i}"));
        let mut first: Vec<&Decl> = p.decls.iter().filter(|d| !matches!(d.what, What::Rule { .. })).collect();
        let mut then: Vec<&Decl> = p.decls.iter().filter(|d| matches!(d.what, What::Rule { .. })).collect();
        ctx.rng.shuffle(&mut first);
        ctx.rng.shuffle(&mut then);
        let mut toks: Vec<String> = vec![];
        for d in first.iter().chain(&then) {
            let mut path = String::new();
            for t in l.toks.iter().filter(|t| t.s >= d.span.0 && t.e <= d.span.1) {
                let s = &OWN[t.s..t.e];
                // paths stay in one piece: what is inside them is copied
                if t.t == Sym::PathAccess || path.ends_with("::") || (t.t == Sym::Ident && path.is_empty()) {
                    path.push_str(s);
                } else {
                    if !path.is_empty() {
                        toks.push(std::mem::take(&mut path));
                    }
                    if t.t == Sym::Ident {
                        path.push_str(s);
                    } else {
                        toks.push(s.to_string());
                    }
                }
            }
            if !path.is_empty() {
                toks.push(path);
            }
            toks.push(";".into());
        }
        let loose = ctx.rng.below(6);
        gen::layout(&mut ctx.rng, &toks, loose)
    };
    ctx.on("grammar", short(&text));
    std::fs::write(dir.0.join("own.grammar"), &text).expect("writing the grammar");
    let (ok, status) = tool(&dir.0, &["own.grammar"]);
    if !ok {
        return fail(format!("the tool fails on its own grammar: {status}"));
    }
    let bin = match batch::compile(&dir.0, BOOT) {
        Ok(b) => b,
        Err(e) => return fail(format!("the parser the tool writes for its own grammar does not compile: {e}")),
    };
    let mut texts = vec![OWN.to_string()];
    for _ in 0..400 {
        let (t, _) = gen::any_text(&mut ctx.rng, OWN);
        if !t.contains('\u{1}') {
            texts.push(t);
        }
    }
    std::fs::write(dir.0.join("texts"), texts.join("\u{1}")).expect("writing the texts");
    let out = match batch::run(&bin, &dir.0, &[]) {
        Ok(o) => o,
        Err(e) => return fail(format!("the parser the tool writes for its own grammar fails: {e}")),
    };
    for line in out.lines() {
        if let Some(d) = line.strip_prefix("done ") {
            let n: Vec<u64> = d.split(' ').filter_map(|x| x.parse().ok()).collect();
            ctx.count("texts_accepted_by_both", n[0]);
            ctx.count("texts_rejected_by_both", n[1]);
            ctx.count("parsers_generated", 1);
            for t in &texts {
                ctx.judged(fnv(t.as_bytes()), !t.is_empty());
            }
            ctx.sample(|| format!("parser of {:?}; texts such as {:?}", short(&text).chars().take(200).collect::<String>(), texts.last()));
            return Ok(());
        }
        if let Some(i) = line.strip_prefix("text ").and_then(|l| l.split(' ').next()).and_then(|i| i.parse::<usize>().ok()) {
            ctx.on("text", format!("{:?}", short(&texts[i])));
        }
        return fail(format!("the shipped parser and the one it generates of its grammar differ: {line}"));
    }
    fail("the generated parser ended early")
}

// ---------------------------------------------------------------- C29

fn words(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split_whitespace().collect();
    v.sort_unstable();
    v
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
}

/// The command on a grammar, where out.rs cannot take all that has to be written.
fn no_room(ctx: &mut Ctx, dir: &Scratch, s: &str, arg: &std::ffi::OsStr) -> Res {
    use std::os::unix::process::CommandExt;
    let out = dir.0.join("out.rs");
    let _ = std::fs::remove_file(&out);
    // how much there is to write
    let (ok, status) = tool(&dir.0, &[arg]);
    if !ok {
        return fail(format!("the command fails on a grammar: {status}"));
    }
    let whole = std::fs::read(&out).map_err(|_| crate::Fail { msg: "the command writes no out.rs".into() })?;
    let _ = std::fs::remove_file(&out);
    let exe = std::env::current_exe().expect("own path").parent().expect("target/<profile>").join("wopcli");
    let mut c = std::process::Command::new(exe);
    c.args([arg]).current_dir(&dir.0).stdin(std::process::Stdio::null()).env("RUST_BACKTRACE", "0");
    let mut most = 0;
    let how = match ctx.rng.below(4) {
        0 => {
            std::fs::create_dir(&out).expect("creating");
            "a directory".to_string()
        }
        1 => {
            std::os::unix::fs::symlink("/dev/full", &out).expect("linking");
            "a device that is full".to_string()
        }
        _ => {
            let n = ctx.rng.below(whole.len()) as u64;
            most = n;
            let f = move || {
                // SIGXFSZ is ignored, so that writing fails
                if unsafe { signal(25, 1) } == usize::MAX || unsafe { setrlimit(1, &[n, n]) } != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            };
            unsafe { c.pre_exec(f) };
            format!("a file of at most {n} of {} bytes", whole.len())
        }
    };
    let o = c.output().expect("running the tool");
    ctx.count("faults_of_the_disk", 1);
    ctx.judged(fnv(format!("{how} {s}").as_bytes()), true);
    ctx.sample(|| format!("{:?}: out.rs is {how}, the command fails", short(s)));
    // it might write a little less this time
    let small = std::fs::metadata(&out).is_ok_and(|m| m.is_file() && m.len() < most);
    if o.status.success() && !small {
        return fail(format!("the command succeeds, though out.rs is {how}"));
    }
    Ok(())
}

/// The command writes the parser of a file that is a grammar, and nothing for any other.
fn c29(ctx: &mut Ctx) -> Res {
    use std::os::unix::ffi::OsStrExt;
    let dir = Scratch::new(ctx, "c29");
    // where the file is, as the command is told
    let name: &[u8] = match ctx.rng.below(8) {
        0 => *ctx.rng.pick(&[&b"g"[..], b"--help", b"-", b".g", b"out.rs.grammar", b"in.rs", b"g.grammar~", b"g\ng", b"*", b"g=h;i"]),
        1 => *ctx.rng.pick(&["gramática".as_bytes(), "文法".as_bytes(), b"\xff.grammar", b"g\xc3", b"g\xed\xa0\x80h"]),
        _ => b"g.grammar",
    };
    if name != b"g.grammar" {
        ctx.count("files_of_other_names", 1);
    }
    let name = std::ffi::OsStr::from_bytes(name);
    let (at, before_name) = match ctx.rng.below(6) {
        0 => ("sub", "sub/".into()),
        1 => ("sub", dir.0.join("sub/").into_os_string()),
        2 => (".", "./".into()),
        3 => ("a b", "a b/../a b/".into()),
        _ => (".", std::ffi::OsString::new()),
    };
    let mut arg = before_name;
    arg.push(name);
    let home = dir.0.join(at);
    std::fs::create_dir_all(&home).expect("creating");
    let file = home.join(name);
    let lang = ctx.rng.chance(1, 3);
    let (s, kind) = if lang {
        (Lang::any(&mut ctx.rng, 0).text, "languages")
    } else {
        gen::any_text(&mut ctx.rng, OWN)
    };
    ctx.count(kind, 1);
    ctx.on("text", format!("{:?}", short(&s)));
    let l = lex::lex(&s);
    let sound = match par::parse(&l.toks) {
        Ok(p) if l.err.is_none() => par::objections(&p, &s).is_empty(),
        _ => false,
    };
    let out = dir.0.join("out.rs");
    let before = if ctx.rng.chance(1, 2) { Some("// what was there before\n".repeat(ctx.rng.range(1, 2000))) } else { None };
    if let Some(b) = &before {
        std::fs::write(&out, b).expect("writing");
    }
    // a file that is missing, no file or no text, or a place where not all can be written
    let wrong = if ctx.rng.chance(1, 20) { ctx.rng.below(3) + 1 } else { 0 };
    let missing = wrong != 0;
    match wrong {
        1 => ctx.count("missing_files", 1),
        2 => {
            std::fs::create_dir(&file).expect("creating");
            ctx.count("directories_read", 1);
        }
        3 => {
            let mut b = s.clone().into_bytes();
            let at = ctx.rng.below(b.len() + 1);
            let bad: &[u8] = *ctx.rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"]);
            // a byte more might continue it
            let mut tail = b.split_off(at);
            b.extend_from_slice(bad);
            b.push(b'\n');
            b.append(&mut tail);
            std::fs::write(&file, &b).expect("writing");
            ctx.count("files_of_no_text", 1);
        }
        _ => std::fs::write(&file, &s).expect("writing"),
    }
    if sound && !missing && ctx.rng.chance(1, 4) {
        return no_room(ctx, &dir, &s, &arg);
    }
    let mut before = before;
    // what is read is what is written, or it comes through a pipe
    let mut piped = None;
    match ctx.rng.below(16) {
        0 if !missing => {
            std::fs::write(&out, &s).expect("writing");
            before = Some(s.clone());
            arg = "out.rs".into();
            ctx.count("files_written_over", 1);
        }
        1 if !missing => {
            piped = Some(s.clone().into_bytes());
            arg = "/dev/stdin".into();
            ctx.count("files_through_a_pipe", 1);
        }
        2..=5 if sound && !missing => {
            // the older one is exactly as long as the new one, and younger than the grammar
            let _ = tool(&dir.0, &[&arg]);
            let n = std::fs::metadata(&out).map_or(0, |m| m.len() as usize);
            let old = format!("// what was there before{}", "\n".repeat(n.saturating_sub(24)));
            std::fs::write(&out, &old).expect("writing");
            before = Some(old);
            ctx.count("files_of_the_same_length", 1);
        }
        _ => {}
    }
    let (ok, _, status) = tool_in(&dir.0, &[&arg], piped);
    let after = std::fs::read_to_string(&out).ok();
    if at != "." {
        ctx.count("files_elsewhere", 1);
        if home.join("out.rs").exists() {
            return fail("out.rs is written beside the file, not where the command runs");
        }
    }
    if !sound || missing {
        if ok {
            return fail(format!("the command succeeds on {}", ["what is no grammar", "a file that is not there", "a directory", "what is no text"][wrong]));
        }
        if after != before {
            return fail("the command fails, and has written out.rs");
        }
        ctx.count("files_refused", 1);
    } else {
        if !ok {
            return fail(format!("the command fails on a grammar: {status}"));
        }
        let Some(after) = after else { return fail("the command writes no out.rs") };
        if before.is_some() {
            // what stood there before has no part in what is written
            if after.contains("what was there before") {
                return fail("a part of the older out.rs is left in what the command writes");
            }
            ctx.count("files_replaced", 1);
        }
        let Ok(mut b) = s.parse::<Builder>() else { return fail("the library rejects what the command takes") };
        b.entry_type = "Gramem".to_string();
        ctx.count("files_written", 1);
        if lang {
            // the order of rules and names is open, so the words are compared
            let (g, r) = (b.dump_grammar(&s), b.dump_reductor(&s));
            let got = words(&after);
            let mut want = words(&g);
            want.extend(words(&r));
            let mut i = 0;
            want.sort_unstable();
            for w in &got {
                if i < want.len() && want[i] == *w {
                    i += 1;
                }
            }
            // all but the ends, which touch what is written around them
            if i + 4 < want.len() {
                let lost: Vec<_> = want.iter().filter(|w| !got.contains(w)).take(5).collect();
                return fail(format!("out.rs has {i} of the {} words of what the library writes; not {lost:?}", want.len()));
            }
            ctx.count("files_compared", 1);
        }
    }
    ctx.judged(fnv(s.as_bytes()), l.toks.len() > 1);
    ctx.sample(|| format!("{:?}: {}", short(&s), if sound { "written" } else { "refused" }));
    Ok(())
}
