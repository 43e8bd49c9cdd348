//! C30, C31 and C34: memory and threads, what is kept, and what the command prints.
use crate::alloc::held;
use crate::batch::Scratch;
use crate::gen;
use crate::harness::CaseFn;
use crate::lex::{self, Lexed};
use crate::par::{self, Decl, Item, Kind, Pipe, Prog, Sp, What};
use crate::props::{short, tool_out, touches, OWN};
use crate::rng::fnv;
use crate::{fail, Ctx, Res};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wop::builder::Builder;
use wop::{Gramem, Sym};

// ---------------------------------------------------------------- C30

/// What a text gives, as far as it does not depend on the order of hash maps.
fn all_of(s: &str) -> Vec<String> {
    let mut o: Vec<String> = wop::lexer(s).take(s.len() + 2).map(|g| format!("{:?} {:?}", g.ty, g.item.span)).collect();
    let mut d = wop::build_parser(wop::lexer(s));
    let r = d.start();
    o.push(format!("{r:?} {:?}", d.states));
    o.push(format!("{:?}", d.items));
    o.push(d.stack_fmt());
    if r.is_ok() {
        match catch_unwind(|| s.parse::<Builder>().map_err(|e| e.to_string())) {
            Ok(Ok(mut b)) => {
                b.entry_type = "Gramem".into();
                let mut g: Vec<String> = b.rules.iter().map(|(k, v)| format!("{k} {}", v.len())).collect();
                g.sort();
                o.extend(g);
                let (g, r) = (b.dump_grammar(s), b.dump_reductor(s));
                o.push(format!("{} {}", words(&g), words(&r)));
            }
            Ok(Err(e)) => o.push(e),
            Err(_) => o.push("not built".into()),
        }
    }
    o
}

/// The number of words, so that the order in which names are bound has no part in it.
fn words(s: &str) -> usize {
    s.split_whitespace().count()
}

pub fn memory(ctx: &mut Ctx) -> Res {
    let loads: &[(&str, CaseFn)] = &crate::props::ALL[..4];
    let n = if cfg!(miri) { 1 } else { 12 };
    for _ in 0..n {
        // reading the tool's whole grammar takes an hour when it is interpreted
        let (name, f) = if cfg!(miri) { loads[0] } else { loads[ctx.rng.below(loads.len())] };
        ctx.on("workload", name.into());
        let mut counters = std::mem::take(&mut ctx.n);
        let distinct = std::mem::take(&mut ctx.distinct);
        let samples = std::mem::take(&mut ctx.samples);
        let _ = catch_unwind(AssertUnwindSafe(|| f(ctx).is_ok()));
        let judged = ctx.n.get("evaluations").copied().unwrap_or(0);
        *counters.entry("workload_evaluations").or_insert(0) += judged;
        *counters.entry("workloads_run").or_insert(0) += 1;
        ctx.n = counters;
        ctx.distinct = distinct;
        ctx.samples = samples;
    }
    if cfg!(miri) {
        ctx.judged(fnv(format!("{}", ctx.index).as_bytes()), true);
        return Ok(());
    }
    let depth = ctx.rng.range(0, 3);
    let t = gen::program(&mut ctx.rng, gen::Cfg { sound: true, depth });
    let s = gen::layout(&mut ctx.rng, &t, 3);
    ctx.on("text", format!("{:?}", short(&s)));
    let l = lex::lex(&s);
    if size_of(&l) > 120 {
        ctx.count("skipped_large_or_cyclic", 1);
        return Ok(());
    }
    let alone = all_of(&s);
    let threads = 4;
    let got: Vec<std::thread::Result<Vec<String>>> = std::thread::scope(|x| {
        let hs: Vec<_> = (0..threads).map(|_| x.spawn(|| all_of(&s))).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for (i, r) in got.into_iter().enumerate() {
        match r {
            Ok(l) if l == alone => {}
            Ok(l) => {
                let d = l.iter().zip(&alone).find(|(a, b)| a != b);
                return fail(format!("thread {i} of {threads} gets {:?}, alone it is {:?}", d.map(|d| d.0), d.map(|d| d.1)));
            }
            Err(_) => return fail(format!("thread {i} of {threads} panics, alone it does not")),
        }
        ctx.count("threads_compared", 1);
    }
    ctx.judged(fnv(s.as_bytes()), true);
    ctx.sample(|| format!("{:?} in {threads} threads", short(&s)));
    Ok(())
}

/// Productions a program stands for; groups and optional items multiply them.
fn size_of(l: &Lexed) -> usize {
    match par::parse(&l.toks) {
        Ok(p) if l.err.is_none() => p
            .decls
            .iter()
            .map(|d| if let What::Rule { pipes, .. } = &d.what { crate::expand::count_rule(pipes) } else { 0 })
            .fold(0, usize::saturating_add),
        _ => 0,
    }
}

// ---------------------------------------------------------------- C31

/// Reading a text and dropping what it gave leaves no memory behind, whatever the text.
pub fn kept(ctx: &mut Ctx) -> Res {
    let mut texts = vec![];
    for _ in 0..3 {
        let s = if ctx.rng.chance(1, 2) {
            let depth = ctx.rng.range(0, 3);
            let t = gen::program(&mut ctx.rng, gen::Cfg { sound: true, depth });
            gen::layout(&mut ctx.rng, &t, 3)
        } else {
            gen::any_text(&mut ctx.rng, OWN).0
        };
        let l = lex::lex(&s);
        if size_of(&l) > 120 {
            continue;
        }
        // a builder that panics is dropped half-way; what it leaves is the panic's own
        let sound = match par::parse(&l.toks) {
            Ok(p) if l.err.is_none() => par::objections(&p, &s).is_empty(),
            _ => true,
        };
        if sound {
            texts.push(s);
        }
    }
    ctx.on("texts", format!("{:?}", texts.iter().map(|s| short(s)).collect::<Vec<_>>()));
    let mut built = 0;
    let mut reads = || {
        built = 0;
        for s in &texts {
            let n = wop::lexer(s).take(s.len() + 2).count();
            let mut d = wop::build_parser(wop::lexer(s));
            let ok = d.start().is_ok();
            let c = d.clone_items();
            drop(d);
            if n > s.len() || ok == c.is_empty() {
                continue;
            }
            drop(c);
            if let Ok(mut b) = s.parse::<Builder>() {
                b.entry_type = "Gramem".into();
                let _ = (b.dump_grammar(s), b.dump_reductor(s));
                built += 1;
            }
        }
    };
    reads();
    let mut seen = Vec::with_capacity(4);
    for _ in 0..3 {
        reads();
        seen.push(held());
    }
    if seen[1] != seen[0] || seen[2] != seen[0] {
        return fail(format!("reading the same texts again leaves memory behind: bytes and blocks {seen:?}"));
    }
    ctx.count("texts_read_again", 4 * texts.len() as u64);
    ctx.count("programs_built", built);
    for s in &texts {
        ctx.judged(fnv(s.as_bytes()), s.len() > 8);
    }
    ctx.sample(|| format!("{:?}, nothing left", texts.first().map(|s| short(s))));
    Ok(())
}

trait Items {
    fn clone_items(&self) -> Vec<Gramem>;
}

impl<I: Iterator<Item = Gramem>> Items for lrp::Dfa<lrp::Meta<wop::Ast>, Sym, I> {
    fn clone_items(&self) -> Vec<Gramem> {
        self.items.clone()
    }
}

// ---------------------------------------------------------------- C34

/// The lines of a text's tree. Written from the language, not from the tool.
struct Tree<'a> {
    s: &'a str,
    o: Vec<String>,
}

impl Tree<'_> {
    fn cut(&self, x: Sp) -> &str {
        &self.s[x.0..x.1]
    }
    fn put(&mut self, lvl: usize, l: String) {
        self.o.push(format!("{}{l}", "  ".repeat(lvl)));
    }
    fn head(&mut self, lvl: usize, prefix: &str, kind: &str, x: Sp) {
        let t = format!("{prefix}{kind}: \x1b[1;33m\"{}\"\x1b[0;m", self.cut(x));
        self.put(lvl, t);
    }
    fn named(&mut self, lvl: usize, what: &str, x: Sp) {
        let t = format!("|> {what}: \x1b[1;33m\"{}\"\x1b[0;m", self.cut(x));
        self.put(lvl, t);
    }
    fn pipes(&mut self, lvl: usize, ps: &[Pipe]) {
        for (i, p) in ps.iter().enumerate() {
            self.put(lvl, format!("|> production {i}:"));
            for it in &p.items {
                self.item(lvl + 1, it);
            }
            let code = p.code.map_or("(null)", |c| self.cut(c).strip_prefix("->").unwrap_or("(null)")).to_string();
            self.put(lvl, format!("|> reductor {i}: \x1b[1;33m\"{code}\"\x1b[0;m"));
        }
    }
    fn item(&mut self, lvl: usize, it: &Item) {
        self.head(lvl, "- ", "RuleItem", it.full);
        let lvl = lvl + 1;
        match &it.kind {
            Kind::Path => {
                self.head(lvl, "", "IdentPath", it.span);
                let t = format!(" {}", self.cut(it.span));
                self.put(lvl + 1, t);
            }
            Kind::Lit => {
                self.head(lvl, "", "StrLit", it.span);
                self.put(lvl + 1, "|> sym: StrLit".into());
            }
            Kind::Group(ps) => {
                self.head(lvl, "", "Rule", it.span);
                self.pipes(lvl + 1, ps);
            }
        }
        self.put(lvl, format!("|> optional: {}", it.opt));
        self.put(lvl, format!("|> clone: {}", it.clone));
        let a = it.alias.map_or("(null)".to_string(), |a| format!("{:?}", self.cut(a)));
        self.put(lvl, format!("|> alias: {a}"));
    }
    fn decl(&mut self, d: &Decl) {
        let kind = match d.what {
            What::Rule { .. } => "RuleDecl",
            What::Use(_) => "Import",
            What::Alias(..) => "Alias",
        };
        self.head(1, "- ", kind, d.span);
        match &d.what {
            What::Rule { name, ty, pipes } => {
                self.named(2, "rule_name", *name);
                self.named(2, "rule_type", *ty);
                self.pipes(2, pipes);
            }
            What::Use(p) => {
                let t = format!("|> path: {}", self.cut(*p));
                self.put(2, t);
            }
            What::Alias(k, v) => {
                let (a, b) = (format!("|> alias: {}", self.cut(*k)), format!("|> definition: {}", self.cut(*v)));
                self.put(2, a);
                self.put(2, b);
            }
        }
    }
    fn of(s: &str, p: &Prog) -> Vec<String> {
        let mut t = Tree { s, o: vec![] };
        t.head(0, "", "Program", p.span);
        for d in &p.decls {
            t.decl(d);
        }
        t.o
    }
}

/// What is printed, without colours and with its blanks made one, so that only what it says and
/// in which order counts.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\x1b' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// The depth of a line in the tree.
fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

pub fn printed(ctx: &mut Ctx) -> Res {
    let dir = Scratch::new(ctx, "c34");
    let (s, kind) = if ctx.rng.chance(1, 2) {
        let depth = ctx.rng.range(0, 4);
        let sound = ctx.rng.chance(9, 10);
        let t = gen::program(&mut ctx.rng, gen::Cfg { sound, depth });
        let loose = ctx.rng.below(9);
        (gen::layout(&mut ctx.rng, &t, loose), "programs")
    } else {
        gen::any_text(&mut ctx.rng, OWN)
    };
    ctx.count(kind, 1);
    ctx.on("text", format!("{:?}", short(&s)));
    let l = lex::lex(&s);
    if touches(&s, &l) || s.len() > 6000 {
        ctx.count("texts_left_out", 1);
        return Ok(());
    }
    std::fs::write(dir.0.join("g.grammar"), &s).expect("writing");
    let (_, out, said) = tool_out(&dir.0, &["g.grammar"]);
    let prog = match par::parse(&l.toks) {
        Ok(p) if l.err.is_none() => Ok(p),
        Ok(_) => Err(l.toks.len()),
        Err(i) => Err(i),
    };
    // the tokens, as they are read: one after the other, none left out
    let upto = match &prog {
        Ok(_) => l.toks.len(),
        Err(i) => (*i + 1).min(l.toks.len()),
    };
    let mut at = 0;
    for (i, t) in l.toks[..upto].iter().enumerate() {
        let line = format!("\"{}\" ({:?}) [{}..{}]\n", &s[t.s..t.e], t.t, t.s, t.e);
        let Some(k) = out[at..].find(&line) else {
            return fail(format!("token {i} is not printed, or not in its place: {line:?}"));
        };
        // between two tokens there are only lines of the parser's stack
        for between in out[at..at + k].lines() {
            if !between.starts_with("\"0") {
                return fail(format!("between token {} and token {i} stands {between:?}", i as i64 - 1));
            }
            ctx.count("stacks_printed", 1);
        }
        at += k + line.len();
        ctx.count("tokens_printed", 1);
    }
    let rest = &out[at..];
    match &prog {
        Err(i) => {
            let bad = l.toks.get(*i).map_or(if l.err.is_some() { Sym::Error } else { Sym::Eof }, |t| t.t);
            let Some(k) = rest.find("FATAL: ") else {
                return fail(format!("the first wrong token is number {i}, {bad:?}, and no error is printed"));
            };
            let said = rest[k..].lines().next().unwrap_or("").to_string();
            let words: Vec<&str> = said.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect();
            let Some(first) = words.iter().position(|w| *w == format!("{bad:?}")) else {
                return fail(format!("the first wrong token is number {i}, {bad:?}; the error printed is {said:?}"));
            };
            // no other symbol is named before it: the rest are the expected ones
            if let Some(w) = words[..first].iter().find(|w| KINDS.contains(w)) {
                return fail(format!("the first wrong token is number {i}, {bad:?}; the error printed names {w}: {said:?}"));
            }
            if rest.contains("PARSING OUTPUT") {
                return fail("a tree is printed of what is no program");
            }
            ctx.count("errors_printed", 1);
        }
        Ok(p) => {
            if rest.contains("FATAL") && !s.contains("FATAL") {
                return fail("an error is printed for a program");
            }
            let Some(k) = rest.find("PARSING OUTPUT:\n") else { return fail("no tree is printed for a program") };
            let tree = &rest[k + "PARSING OUTPUT:\n".len()..];
            let want = Tree::of(&s, p).join("\n") + "\nBUILDING OUTPUT\n";
            let (a, b) = (plain(&want), plain(&tree[..tree.rfind("BUILDING OUTPUT\n").map_or(tree.len(), |k| k + 16)]));
            if a != b {
                let n = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
                let around = |x: &str| x.chars().skip(n.saturating_sub(60)).take(140).collect::<String>();
                return fail(format!("the tree should read {:?}, is printed as {:?}", around(&a), around(&b)));
            }
            // what stands inside something is written further to the right than it
            if !s.contains('\n') {
                let mut open: Vec<(usize, usize)> = vec![];
                for (w, g) in want.lines().zip(tree.lines()) {
                    let (d, x) = (indent(w), indent(g));
                    while open.last().is_some_and(|o| o.0 >= d) {
                        open.pop();
                    }
                    if open.last().is_some_and(|o| o.1 >= x) {
                        return fail(format!("a line of the tree is not further to the right than what it is part of: {g:?}"));
                    }
                    open.push((d, x));
                }
                ctx.count("trees_indented", 1);
            }
            ctx.count("trees_printed", 1);
            if par::objections(p, &s).is_empty() {
                warned(ctx, &s, p, &said)?;
            }
        }
    }
    ctx.judged(fnv(s.as_bytes()), l.toks.len() > 1);
    ctx.sample(|| format!("{:?}: {}", short(&s), prog.as_ref().map_or_else(|i| format!("wrong at token {i}"), |_| "tree".into())));
    Ok(())
}

/// Literals that no alias declared before them explains are named, others are not.
fn warned(ctx: &mut Ctx, s: &str, p: &par::Prog, said: &str) -> Res {
    fn lits<'a>(s: &'a str, items: &[par::Item], out: &mut Vec<&'a str>) {
        for i in items {
            match &i.kind {
                par::Kind::Group(ps) => ps.iter().for_each(|p| lits(s, &p.items, out)),
                par::Kind::Lit => out.push(&s[i.span.0..i.span.1]),
                par::Kind::Path => {}
            }
        }
    }
    let (mut aliases, mut named, mut other) = (vec![], vec![], vec![]);
    for d in &p.decls {
        match &d.what {
            par::What::Alias(k, _) => aliases.push(&s[k.0..k.1]),
            par::What::Rule { pipes, .. } => {
                let mut all = vec![];
                pipes.iter().for_each(|p| lits(s, &p.items, &mut all));
                for l in all {
                    if aliases.contains(&l) { &mut other } else { &mut named }.push(l);
                }
            }
            par::What::Use(_) => {}
        }
    }
    for l in &named {
        if !said.contains(*l) {
            return fail(format!("the literal {l} has no alias, and is not named: {:?}", short(said)));
        }
        ctx.count("literals_without_alias", 1);
    }
    for l in &other {
        if named.iter().all(|n| !n.contains(*l)) {
            if said.contains(*l) {
                return fail(format!("the literal {l} has an alias, and is named: {:?}", short(said)));
            }
            ctx.count("literals_with_alias", 1);
        }
    }
    Ok(())
}

/// Names of the language's symbols, as they are printed.
const KINDS: &[&str] = &[
    "AliasWord", "UseWord", "Assign", "Pipe", "OpenParen", "CloseParen", "Sc", "Glob", "Optional", "Clone", "PathAccess", "TwoDots",
    "CodeBlock", "StrLit", "Ident", "Error", "Eof",
];

// ---------------------------------------------------------------- C35

/// The lexer's tokens; counts those taken, and how often more are asked for after the last.
struct Taken<'a, I> {
    from: I,
    /// tokens taken, asked after the end
    n: &'a std::cell::Cell<(usize, usize)>,
}

impl<I: Iterator<Item = Gramem>> Iterator for Taken<'_, I> {
    type Item = Gramem;
    fn next(&mut self) -> Option<Gramem> {
        let t = self.from.next();
        let (a, b) = self.n.get();
        self.n.set(if t.is_some() { (a + 1, b) } else { (a, b + 1) });
        t
    }
}

/// How far a text is read: to its first wrong token, or to its end.
pub fn lazy(ctx: &mut Ctx) -> Res {
    for _ in 0..8 {
        let (s, _) = gen::any_text(&mut ctx.rng, OWN);
        let l = lex::lex(&s);
        if touches(&s, &l) {
            ctx.count("texts_left_out", 1);
            continue;
        }
        ctx.on("text", format!("{:?}", short(&s)));
        let all = l.toks.len() + usize::from(l.err.is_some());
        let (want, ok) = match par::parse(&l.toks) {
            Err(i) => (i, false),
            Ok(_) => (l.toks.len(), l.err.is_none()),
        };
        // the token that is wrong is seen, if it is not the end that is
        let want = if ok || want == all { want } else { want + 1 };
        let n = std::cell::Cell::new((0, 0));
        let mut d = wop::build_parser(Taken { from: wop::lexer(&s), n: &n });
        if n.get() != (0, 0) {
            return fail(format!("{} tokens are read before the parser is started", n.get().0));
        }
        // a step shifts at most one token, and looks at one more
        let mut steps = 0;
        let mut bad = None;
        let r = d.trace(|_| {
            if n.get().0 > steps + 1 && bad.is_none() {
                bad = Some(n.get().0);
            }
            steps += 1;
        });
        if let Some(b) = bad {
            return fail(format!("after so few steps that no more than one token each is shifted, {b} are read"));
        }
        if r.is_ok() != ok {
            return fail(format!("the text is {}a program, the parser says {}", if ok { "" } else { "not " }, r.is_ok()));
        }
        let (got, ends) = n.get();
        if got != want || ends > 1 {
            return fail(format!("{got} of {all} tokens are read and the end is asked for {ends} times; {want} tokens settle it"));
        }
        ctx.count("tokens_taken", got as u64);
        ctx.count(if ok { "programs_accepted" } else if got < all { "texts_not_read_to_the_end" } else { "texts_read_to_the_end" }, 1);
        ctx.judged(fnv(s.as_bytes()), all > 3);
        ctx.sample(|| format!("{got} of {all} tokens of {:?}", short(&s)));
    }
    Ok(())
}
