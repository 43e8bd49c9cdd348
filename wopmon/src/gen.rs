//! Workloads: texts of the grammar language.
use crate::lex::{UNWORDY, WORDY};
use crate::rng::Rng;

const HEADS: &[&str] = &["A", "Expr", "x", "_", "alias_", "useful", "use1", "aliased", "r9", "T_T", "_7", "Aé", "q日", "e\u{301}", "U", "al"];
const LITS: &[&str] = &["\"+\"", "\"\"", "\"if\"", "\"\\\"\"", "\"\\\\\"", "\"// no\"", "\"/*\"", "\"é→\"", "\"a b\"", "\"\\n\"", "\"->\"", "\"}%\"", "\";\"", "\"\n\"", "\"\\é\""];
const CODES: &[&str] = &[
    "-> { x }%",
    "->}%",
    "-> { { y } }%",
    "-> { 7 % 2 }%",
    "->{}}%",
    "-> { \"}\" }}%",
    "-> { a %b }%",
    "-> {\n  // ; |\n /* }  % */ z\n}%",
    "-> { é→😀 }%",
    "-> { -> { }%",
    "->%}%",
    "->}}}%",
    "-> { % } % }}%",
];

pub fn ident(r: &mut Rng) -> String {
    let mut s = (*r.pick(HEADS)).to_string();
    while r.chance(1, 3) {
        if r.chance(1, 5) {
            s.push(*r.pick(WORDY));
        } else {
            s.push(*r.pick(&['a', 'Z', '0', '_', 'u']));
        }
    }
    if s == "alias" || s == "use" {
        s.push('_');
    }
    s
}

pub fn lit(r: &mut Rng) -> String {
    if r.chance(2, 3) {
        return (*r.pick(LITS)).to_string();
    }
    let mut s = String::from("\"");
    for _ in 0..r.below(6) {
        match r.below(8) {
            0 => {
                s.push('\\');
                s.push(*r.pick(&['"', '\\', 'n', 'é', '😀', '\r', '\t', '/']));
            }
            1 => s.push(*r.pick(UNWORDY)),
            2 => s.push(*r.pick(WORDY)),
            3 => s.push_str(r.pick(&["//", "/*", "*/", "->", "}%", "::", ";", "\n"])),
            _ => s.push(*r.pick(&['a', '+', ' ', '|', '%', '}'])),
        }
    }
    s.push('"');
    s
}

pub fn code(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return (*r.pick(CODES)).to_string();
    }
    let mut s = String::from("->");
    for _ in 0..r.below(12) {
        s.push_str(r.pick(&["{", "}", "%", " ", "x", "toks[0]", "}}", "} %", "% }", "\n", "é", "😀", "\"", ";", "|", "//", "/*", "*/", "->", "&", "{}"]));
        while s.contains("}%") {
            s.pop();
        }
    }
    s.push_str("}%");
    s
}

fn path(r: &mut Rng, out: &mut Vec<String>) {
    out.push(ident(r));
    while r.chance(1, 4) {
        out.push("::".into());
        out.push(ident(r));
    }
}

/// How a program is drawn.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// nothing in it may stand in the way of building it
    pub sound: bool,
    pub depth: usize,
}

fn rule(r: &mut Rng, c: Cfg, depth: usize, out: &mut Vec<String>, top: bool) {
    if r.chance(1, if top { 40 } else { 100 }) {
        return long(r, out, top);
    }
    let n = if r.chance(1, 2) { 1 } else { r.range(1, 3) };
    for k in 0..n {
        if k > 0 {
            out.push("|".into());
        }
        let m = if r.chance(1, 3) { 1 } else { r.range(1, if depth == 0 { 5 } else { 3 }) };
        for _ in 0..m {
            item(r, c, depth, out);
        }
        let odd = !c.sound && r.chance(1, 40);
        if top != odd {
            out.push(code(r));
        }
    }
}

/// Many alternatives, or many items in one.
fn long(r: &mut Rng, out: &mut Vec<String>, top: bool) {
    let wide = r.chance(1, 2);
    for k in 0..if wide { r.range(6, 40) } else { 1 } {
        if k > 0 {
            out.push("|".into());
        }
        let mut spare = 3;
        for _ in 0..if wide { r.range(1, 2) } else { r.range(6, 40) } {
            if r.chance(1, 3) {
                out.push(lit(r));
            } else {
                path(r, out);
            }
            if spare > 0 && r.chance(1, 12) {
                out.push("?".into());
                spare -= 1;
            }
            if r.chance(1, 8) {
                out.push(":".into());
                if r.chance(1, 3) {
                    out.push("&".into());
                }
                out.push(ident(r));
            }
        }
        if top {
            out.push(code(r));
        }
    }
}

/// Groups within groups, far deeper than anyone writes them.
fn deep(r: &mut Rng, out: &mut Vec<String>) {
    let n = r.range(5, 40);
    let mut ends = vec![];
    for _ in 0..n {
        if r.chance(1, 6) {
            out.push(ident(r));
        }
        out.push("(".into());
        let mut end = vec![];
        if r.chance(1, 12) {
            end.push("|".to_string());
            end.push(lit(r));
        }
        end.push(")".to_string());
        if r.chance(1, 5) {
            end.push("?".into());
        }
        if r.chance(1, 5) {
            end.push(":".into());
            end.push(ident(r));
        }
        ends.push(end);
    }
    out.push(ident(r));
    out.extend(ends.into_iter().rev().flatten());
    out.push(ident(r));
    out.push(code(r));
}

fn item(r: &mut Rng, c: Cfg, depth: usize, out: &mut Vec<String>) {
    let group = depth < c.depth && r.chance(1, 4);
    if group {
        out.push("(".into());
        rule(r, c, depth + 1, out, false);
        out.push(")".into());
    } else if r.chance(1, 3) {
        out.push(lit(r));
    } else {
        path(r, out);
    }
    if r.chance(1, if group { 3 } else { 6 }) {
        out.push("?".into());
    }
    if r.chance(1, 4) {
        out.push(":".into());
        if r.chance(1, 3) {
            out.push("&".into());
        }
        out.push(ident(r));
    }
}

/// The tokens of a program.
pub fn program(r: &mut Rng, c: Cfg) -> Vec<String> {
    let mut out = vec![];
    let mut used: Vec<String> = vec![];
    // many declarations, of one kind or of all
    let (n, kind) = if r.chance(1, 50) { (r.range(8, 60), r.below(8)) } else { (r.range(1, 7), 9) };
    for k in 0..n {
        match if kind < 3 { kind } else { r.below(6) } {
            0 => {
                out.push("use".into());
                path(r, &mut out);
                if r.chance(1, 2) {
                    out.push("::".into());
                    out.push("*".into());
                }
            }
            1 | 2 => {
                out.push("alias".into());
                let mut a = if r.chance(1, 2) { lit(r) } else { ident(r) };
                if used.contains(&a) && (c.sound || r.chance(5, 6)) {
                    a = format!("k{k}");
                }
                used.push(a.clone());
                out.push(a);
                path(r, &mut out);
            }
            _ => {
                // a path with layout inside it is another text, so only plain names are told apart
                let mut n = ident(r);
                let nn = format!("rule {n}");
                if used.contains(&nn) && (c.sound || r.chance(9, 10)) {
                    n = format!("{n}_{k}");
                }
                used.push(format!("rule {n}"));
                out.push(n);
                if !c.sound && r.chance(1, 12) {
                    out.push("::".into());
                    out.push(ident(r));
                }
                out.push(":".into());
                path(r, &mut out);
                out.push("=".into());
                if c.depth > 2 && r.chance(1, 100) {
                    deep(r, &mut out);
                } else {
                    rule(r, c, 0, &mut out, true);
                }
            }
        }
        out.push(";".into());
    }
    if !c.sound && r.chance(1, 8) {
        // a declaration that is there twice, word for word
        let mut decls: Vec<Vec<String>> = out.split_inclusive(|t| t == ";").map(<[String]>::to_vec).collect();
        let again = r.pick(&decls).clone();
        decls.insert(r.below(decls.len() + 1), again);
        out = decls.concat();
    }
    out
}

fn wordish(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_alphanumeric() || c == '_' || WORDY.contains(&c))
}

/// Something the lexer skips; never empty.
pub fn blank(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "\n".into(),
        1 => "\t".into(),
        2 => "\r\n".into(),
        3 => "  \n\n ".into(),
        4 => "/**/".into(),
        5 => "/* a ; } % */".into(),
        6 => "/***/".into(),
        7 => "/** x **/".into(),
        8 => "// rest |é\n".into(),
        9 => "/*/ 😀 \" -> */".into(),
        10 => format!("/*{}*/\r", "*".repeat(r.below(4))),
        _ => " ".into(),
    }
}

/// Joins tokens with layout between them; `loose` in 0..=10 is how much of it.
pub fn layout(r: &mut Rng, toks: &[String], loose: usize) -> String {
    let mut s = String::new();
    for t in toks {
        let a = s.chars().last();
        let b = t.chars().next();
        let must = (wordish(a) && (wordish(b) || b.is_some_and(|c| !c.is_ascii()))) || (a == Some(':') && b == Some(':'))
            // keeps what a mutation put together from reading as something else
            || (a == Some('-') && b == Some('>')) || a == Some('/');
        if must {
            s.push_str(&if loose == 0 || a == Some('/') { " ".to_string() } else { blank(r) });
        }
        while r.chance(loose, 12) {
            s.push_str(&blank(r));
        }
        s.push_str(t);
    }
    if r.chance(loose, 12) {
        s.push_str(&blank(r));
    }
    if r.chance(loose, 40) {
        s.push_str("// no newline at the end");
    }
    s
}

pub fn any_token(r: &mut Rng) -> String {
    match r.below(18) {
        0 => "alias".into(),
        1 => "use".into(),
        2 => "=".into(),
        3 => "|".into(),
        4 => "(".into(),
        5 => ")".into(),
        6 => ";".into(),
        7 => "::".into(),
        8 => ":".into(),
        9 => "*".into(),
        10 => "?".into(),
        11 => "&".into(),
        12 => lit(r),
        13 => code(r),
        _ => ident(r),
    }
}

/// One to three changes of a token list.
pub fn mutate(r: &mut Rng, toks: &mut Vec<String>) {
    for _ in 0..r.range(1, 3) {
        let n = toks.len();
        if n == 0 {
            toks.push(any_token(r));
            continue;
        }
        let i = r.below(n);
        match r.below(7) {
            0 => {
                toks.remove(i);
            }
            1 => toks.insert(i, any_token(r)),
            2 => toks[i] = any_token(r),
            3 => {
                let j = r.below(n);
                toks.swap(i, j);
            }
            4 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            5 => toks.truncate(i),
            _ => {
                let j = r.range(i, n - 1);
                toks.drain(i..=j.min(i + 4));
            }
        }
    }
}

/// One to four changes of characters, at character boundaries.
pub fn scratch(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    const ODD: &[char] = &['"', '\\', '/', '*', '-', '>', '}', '%', ':', '\n', '\r', ' ', '=', '|', '(', ')', ';', '?', '&', '#', '\'', '0', 'a', '_', '{', '!', '<', '.', ',', '\u{b}', '\u{c}'];
    for _ in 0..r.range(1, 4) {
        let c = match r.below(8) {
            0 => *r.pick(WORDY),
            1 => *r.pick(UNWORDY),
            _ => *r.pick(ODD),
        };
        let i = r.below(v.len() + 1);
        match r.below(4) {
            0 => v.insert(i, c),
            1 if i < v.len() => {
                v.remove(i);
            }
            2 => v.truncate(i),
            _ if i < v.len() => v[i] = c,
            _ => v.push(c),
        }
    }
    v.into_iter().collect()
}

/// Text made of pieces that are nearly tokens.
pub fn soup(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(14) {
        match r.below(12) {
            0..=3 => s.push_str(&any_token(r)),
            4 => s.push_str(r.pick(&["/", "/*", "*/", "/**", "**/", "//", "/*/", "/***", "/*x", "//\r"])),
            5 => s.push_str(r.pick(&["->", "-", "->}", "}%", "}", "%", "-> {", "}}%", "} %", "->%", "-->", "->>"])),
            6 => s.push_str(r.pick(&["\"", "\\", "\"\\\"", "\"a", "\"\\", "\\\"", "\"\\\n\""])),
            7 => s.push_str(r.pick(&[":::", "::::", ": :", ":", "a::b", "::*", "?:", ":&", "&:"])),
            8 => s.push_str(r.pick(&["alias", "use", "alias1", "us", "aliasuse", "use use", "alia s", "useé", "alias€"])),
            9 => s.push(*r.pick(WORDY)),
            10 => s.push(*r.pick(UNWORDY)),
            _ => s.push_str(&blank(r)),
        }
        if r.chance(1, 3) {
            s.push(*r.pick(&[' ', '\n', '\t']));
        }
    }
    s
}

/// A text of any kind, with the kind's name.
pub fn any_text(r: &mut Rng, grammar: &str) -> (String, &'static str) {
    match r.below(12) {
        0..=3 => {
            let t = program(r, Cfg { sound: true, depth: 3 });
            let l = r.below(8);
            (layout(r, &t, l), "programs")
        }
        4 => {
            let t = program(r, Cfg { sound: false, depth: 3 });
            let l = r.below(8);
            (layout(r, &t, l), "programs_maybe_unsound")
        }
        5..=7 => {
            let mut t = program(r, Cfg { sound: true, depth: 2 });
            mutate(r, &mut t);
            let l = r.below(5);
            (layout(r, &t, l), "mutated_programs")
        }
        8 => {
            let t = program(r, Cfg { sound: true, depth: 2 });
            let l = r.below(5);
            let s = layout(r, &t, l);
            (scratch(r, &s), "scratched_programs")
        }
        9 => (scratch(r, grammar), "scratched_own_grammar"),
        _ => (soup(r), "soups"),
    }
}

/// Makes some items of a program stand for what an alias of it says.
pub fn use_aliases(r: &mut Rng, toks: &mut [String]) {
    let keys: Vec<String> = toks.windows(2).filter(|w| w[0] == "alias").map(|w| w[1].clone()).collect();
    if keys.is_empty() {
        return;
    }
    let mut depth_rule = false;
    for i in 0..toks.len() {
        match toks[i].as_str() {
            "=" => depth_rule = true,
            ";" => depth_rule = false,
            _ => {}
        }
        let c = toks[i].chars().next().unwrap_or(' ');
        let single = i > 0
            && !matches!(toks[i - 1].as_str(), "::" | ":" | "&")
            && toks.get(i + 1).is_some_and(|t| t != "::");
        if depth_rule && single && (c == '"' || c == '_' || c.is_alphabetic()) && r.chance(1, 3) {
            toks[i] = r.pick(&keys).clone();
        }
    }
}
