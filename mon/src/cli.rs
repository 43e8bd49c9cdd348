//! C21: the command-line tool, run as a process on lines of input, judged by what it prints.
use crate::rng::{fnv, Rng};
use crate::{fail, Ctx, Res};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};

const KNOWN: &[char] = &['[', ']', '(', ')', '{', '}', 'd', 'c'];

fn closing(c: char) -> Option<char> {
    match c {
        '(' => Some(')'),
        '[' => Some(']'),
        '{' => Some('}'),
        _ => None,
    }
}

/// Brackets nested in one another and nothing else; or the place of the first wrong token.
fn nested(w: &[char]) -> Result<usize, usize> {
    let mut open = vec![];
    let mut i = 0;
    while let Some(c) = w.get(i).copied().and_then(closing) {
        open.push(c);
        i += 1;
    }
    let depth = open.len();
    if depth == 0 {
        return Err(0);
    }
    while let Some(c) = open.pop() {
        if w.get(i) != Some(&c) {
            return Err(i);
        }
        i += 1;
    }
    if i == w.len() {
        Ok(depth)
    } else {
        Err(i)
    }
}

/// The printed tables: rows of cells.
fn tables(s: &str) -> Vec<Vec<Vec<String>>> {
    let mut out: Vec<Vec<Vec<String>>> = vec![];
    let mut open = false;
    for l in s.lines() {
        if l.starts_with('|') {
            let cells = l.trim_matches('|').split('|').map(|c| c.trim().to_string()).collect();
            if !open {
                out.push(vec![]);
                open = true;
            }
            out.last_mut().expect("a table").push(cells);
        } else if !l.starts_with('+') {
            open = false;
        } else if open && out.last().is_some_and(|t| t.len() > 1) && l.contains('=') {
            // a rule under a title starts another table right below
            let head = out.last_mut().expect("a table").pop().expect("a row");
            out.push(vec![head]);
        }
    }
    out
}

fn quoted(s: &str) -> Vec<String> {
    s.split('"').skip(1).step_by(2).map(String::from).collect()
}

fn line(r: &mut Rng) -> Vec<char> {
    let d = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(10, 60),
        _ => r.range(1, 8),
    };
    let open: Vec<char> = (0..d).map(|_| *r.pick(&['(', '[', '{'])).collect();
    let mut w = open.clone();
    w.extend(open.iter().rev().map(|c| closing(*c).expect("opens")));
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(w.len() + 1);
            match r.below(5) {
                0 if i < w.len() => {
                    w.remove(i);
                }
                1 => w.insert(i, *r.pick(KNOWN)),
                2 if i < w.len() => w[i] = *r.pick(KNOWN),
                3 => w.truncate(i),
                _ => {}
            }
        }
    }
    if r.chance(1, 8) {
        let i = r.below(w.len() + 1);
        w.insert(i, *r.pick(&['x', '$', 'S', '\'', '"', ' ', 'é', '😀', '<', '\t', '0', 'D', 'C', '\\', '|', ',']));
    }
    // the tool trims its lines
    let s: String = w.into_iter().collect();
    s.trim().chars().collect()
}

fn read_tables(ctx: &mut Ctx, text: &str) -> Result<(Vec<BTreeMap<String, String>>,), crate::Fail> {
    let t = tables(text);
    if t.len() != 3 {
        return fail(format!("{} tables are printed instead of 3", t.len()));
    }
    // FIRST and FOLLOW
    let opens = BTreeSet::from(["(", "[", "{"].map(String::from));
    for (name, follow) in [("'S", vec!["$"]), ("S", vec!["$", ")", "]", "}"])] {
        let Some(row) = t[0].iter().find(|r| r[0] == name) else {
            return fail(format!("no row for {name} in the table of sets"));
        };
        let follow: BTreeSet<String> = follow.into_iter().map(String::from).collect();
        let got: Vec<BTreeSet<String>> = row[1..].iter().map(|c| quoted(c).into_iter().collect()).collect();
        if got != [opens.clone(), follow] {
            return fail(format!("the sets of {name} are printed as {row:?}"));
        }
    }
    // the actions, each under the symbol it is for
    let titles = &t[2][0];
    let mut acts: Vec<BTreeMap<String, String>> = vec![];
    for row in &t[2][1..] {
        let mut m = BTreeMap::new();
        for (h, c) in titles.iter().zip(row) {
            if let ([s], false) = (&quoted(h)[..], c.is_empty()) {
                m.insert(s.clone(), c.clone());
            }
        }
        acts.push(m);
    }
    // the states: every transition of the actions is one of theirs, and the other way round
    let mut edges = BTreeSet::new();
    for row in &t[1][1..] {
        if let Some(g) = row[0].strip_prefix("goto(").and_then(|g| g.strip_suffix(')')) {
            let Some((i, s)) = g.split_once(", ") else { return fail(format!("a state is printed as {row:?}")) };
            edges.insert((i.to_string(), s.to_string(), row[2].clone()));
        }
    }
    let mut moves = BTreeSet::new();
    for (i, m) in acts.iter().enumerate() {
        for (s, c) in m {
            if let Some(n) = c.strip_prefix("Shift(").or_else(|| c.strip_prefix("Goto(")) {
                moves.insert((i.to_string(), s.clone(), n.trim_end_matches(')').to_string()));
            }
        }
    }
    if edges != moves {
        let a: Vec<_> = edges.difference(&moves).take(4).collect();
        let b: Vec<_> = moves.difference(&edges).take(4).collect();
        return fail(format!("the printed states go {a:?}, which the printed actions do not; these go {b:?} instead"));
    }
    ctx.count("transitions_compared", edges.len() as u64);
    states(ctx, &t[1][1..], acts.len())?;
    Ok((acts,))
}

/// The items of a printed set: rule, symbols with a dot among them, lookaheads.
type Items = BTreeMap<(String, Vec<String>), BTreeSet<String>>;

fn items(cell: &str) -> Option<Items> {
    // words: symbols keep a quote in front of them
    let mut words: Vec<String> = vec![];
    for (k, part) in cell.split('"').enumerate() {
        if k % 2 == 1 {
            words.push(format!("\"{part}"));
        } else {
            words.extend(part.chars().filter(|c| !c.is_whitespace()).map(String::from));
        }
    }
    if words.first().is_some_and(|w| w == "{") {
        words.pop();
        words.remove(0);
    }
    let mut out = Items::new();
    let mut w = words.into_iter().peekable();
    while let Some(rule) = w.next() {
        if !rule.starts_with('"') || w.next()? != "=" {
            return None;
        }
        let mut syms = vec![];
        loop {
            let x = w.next()?;
            if x == "{" {
                break;
            }
            syms.push(x);
        }
        let mut look = BTreeSet::new();
        loop {
            match w.next()?.as_str() {
                "}" => break,
                "," => {}
                l => {
                    look.insert(l.to_string());
                }
            }
        }
        if syms.iter().filter(|x| *x == ".").count() != 1 || out.insert((rule, syms), look).is_some() {
            return None;
        }
        if w.peek().is_some() && w.next()? != "," {
            return None;
        }
    }
    Some(out)
}

/// The closure of a set of items of nested brackets.
fn close(set: &Items) -> Items {
    let mut all = set.clone();
    loop {
        let mut more = all.clone();
        for ((_, syms), look) in &all {
            let at = syms.iter().position(|x| x == ".").expect("a dot");
            if syms.get(at + 1).is_some_and(|x| x == "\"S") {
                let look = syms.get(at + 2).map_or_else(|| look.clone(), |x| BTreeSet::from([x.clone()]));
                for b in ["()", "(S)", "[]", "[S]", "{}", "{S}"] {
                    let mut p = vec![".".to_string()];
                    p.extend(b.chars().map(|c| format!("\"{c}")));
                    more.entry(("\"S".to_string(), p)).or_default().extend(look.iter().cloned());
                }
            }
        }
        if more == all {
            return all;
        }
        all = more;
    }
}

/// The printed states are those of the grammar: each the closure of its kernel, which is what its neighbours lead to.
fn states(ctx: &mut Ctx, rows: &[Vec<String>], n: usize) -> Res {
    let bad = |r: &[String], why: &str| fail(format!("{why}: {r:?}"));
    let mut sets: BTreeMap<String, (Items, Items)> = BTreeMap::new();
    let Some(first) = rows.first() else { return fail("no states are printed") };
    let number: String = first[0].chars().filter(char::is_ascii_digit).collect();
    if !number.is_empty() && number != (n - 1).to_string() {
        return bad(first, &format!("there are {n} states"));
    }
    for r in rows {
        let (Some(k), Some(c)) = (items(&r[1]), items(&r[3])) else { return bad(r, "a state is not printed as sets of items") };
        if let Some(old) = sets.insert(r[2].clone(), (k.clone(), c.clone())) {
            if old != (k, c) {
                return bad(r, "a state is printed in two ways");
            }
        }
    }
    let start = Items::from([(("\"'S".to_string(), vec![".".to_string(), "\"S".to_string()]), BTreeSet::from(["\"$".to_string()]))]);
    if first[2] != "0" || sets["0"].0 != start {
        return bad(first, "the first state does not begin the grammar");
    }
    let mut led: BTreeMap<String, Items> = BTreeMap::from([("0".to_string(), start)]);
    for r in &rows[1..] {
        let Some((i, s)) = r[0].strip_prefix("goto(").and_then(|g| g.strip_suffix(')')).and_then(|g| g.split_once(", ")) else {
            return bad(r, "no move");
        };
        let Some((_, c)) = sets.get(i) else { return bad(r, "a move from what is no state") };
        for ((rule, syms), look) in c {
            let at = syms.iter().position(|x| x == ".").expect("a dot");
            if syms.get(at + 1).is_some_and(|x| x[1..] == *s) {
                let mut next = syms.clone();
                next.swap(at, at + 1);
                led.entry(r[2].clone()).or_default().entry((rule.clone(), next)).or_default().extend(look.iter().cloned());
            }
        }
    }
    for (i, (k, c)) in &sets {
        if led.get(i) != Some(k) {
            return fail(format!("the kernel of state {i} is printed as {k:?}, the moves there lead to {:?}", led.get(i)));
        }
        if close(k) != *c {
            return fail(format!("state {i} is printed as {c:?}, its kernel closed is {:?}", close(k)));
        }
        ctx.count("states_compared", 1);
    }
    if sets.len() != n {
        return fail(format!("{} states are printed, there are {n}", sets.len()));
    }
    Ok(())
}

/// What the printed actions do with a word.
fn simulate(acts: &[BTreeMap<String, String>], w: &[char]) -> Result<bool, String> {
    let num = |s: &str| s.trim_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().map_err(|e| format!("{s}: {e}"));
    let mut st = vec![0usize];
    let mut i = 0;
    for _ in 0..10_000 {
        let sym = w.get(i).map_or("$".to_string(), |c| c.to_string());
        let top = *st.last().ok_or("an empty stack")?;
        let Some(a) = acts.get(top).ok_or(format!("no state {top}"))?.get(&sym) else { return Ok(false) };
        if a == "Acc" {
            return Ok(i == w.len());
        } else if a.starts_with("Shift") {
            st.push(num(a)?);
            i += 1;
        } else if a.starts_with("Reduce") {
            let q = quoted(a);
            if q.is_empty() || st.len() <= q.len() - 1 {
                return Err(format!("{a} in state {top}"));
            }
            st.truncate(st.len() - (q.len() - 1));
            let top = *st.last().ok_or("an empty stack")?;
            let g = acts[top].get(&q[0]).ok_or(format!("no goto from {top} on {}", q[0]))?;
            st.push(num(g)?);
        } else {
            return Err(format!("{a} in state {top} on {sym}"));
        }
    }
    Err("no end".into())
}

pub fn check(ctx: &mut Ctx) -> Res {
    let n = if ctx.index == 0 { 0 } else { ctx.rng.range(1, 40) };
    let lines: Vec<Vec<char>> = (0..n).map(|_| line(&mut ctx.rng)).collect();
    let mut input: Vec<u8> = vec![];
    let mut garbled = vec![];
    for (i, l) in lines.iter().enumerate() {
        let s: String = l.iter().collect();
        let pad = ctx.rng.chance(1, 6);
        if pad {
            input.extend(b"  ");
        }
        let start = input.len();
        input.extend(s.as_bytes());
        // bytes that are no text
        garbled.push(ctx.rng.chance(1, 24));
        if garbled[i] {
            let bad: &[u8] = *ctx.rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xe2\x82"]);
            let at = *ctx.rng.pick(&[start, input.len()]);
            input.splice(at..at, bad.iter().copied());
        }
        if pad {
            input.extend(b" \t\r");
        }
        // the last line may have no end; an empty one needs it to be a line
        if i + 1 < n || s.is_empty() || ctx.rng.chance(1, 2) {
            input.push(b'\n');
        }
    }
    ctx.on("input", format!("{:?}", input.escape_ascii().to_string()));
    let exe = std::env::current_exe().expect("own path");
    let mut child = Command::new(exe.parent().expect("target/<profile>").join("lrpcli"))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env("RUST_BACKTRACE", "0")
        .spawn()
        .expect("running the tool");
    let mut stdin = child.stdin.take().expect("its input");
    let feed = std::thread::spawn(move || {
        let _ = stdin.write_all(&input);
    });
    let o = child.wait_with_output().expect("its output");
    let _ = feed.join();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    if !o.status.success() {
        let e: String = String::from_utf8_lossy(&o.stderr).chars().take(400).collect();
        return fail(format!("the tool ends with {} on its input: {e}", o.status));
    }
    let parts: Vec<&str> = text.split("input: ").collect();
    if parts.len() != n + 2 {
        return fail(format!("the tool asks for {} lines, there are {n}", parts.len() - 1));
    }
    let (acts,) = read_tables(ctx, parts[0])?;
    for ((l, garbled), part) in lines.iter().zip(garbled).zip(&parts[1..]) {
        let s: String = l.iter().collect();
        let t = tables(part);
        let rows = t.first().cloned().unwrap_or_default();
        let verdict = rows.iter().find(|r| r[0] == "state").map(|r| r[1].clone());
        if garbled {
            ctx.count("lines_of_no_text", 1);
            if verdict.is_some() || !part.contains("unknown symbol") {
                return fail(format!("{s:?} with bytes that are no text: the tool says {part:?}"));
            }
            continue;
        }
        if let Some(bad) = l.iter().find(|c| !KNOWN.contains(c)) {
            ctx.count("lines_with_unknown_symbols", 1);
            if verdict.is_some() || !part.contains(&format!("{:?}", bad.to_string())) {
                return fail(format!("{s:?}: the symbol {bad:?} is unknown, but the tool says {part:?}"));
            }
            continue;
        }
        let Some(verdict) = verdict else { return fail(format!("{s:?}: no verdict: {part:?}")) };
        let steps: Vec<&Vec<String>> = rows.iter().filter(|r| r[0].parse::<usize>().is_ok()).collect();
        // every step is shown, with what was left of the input before it
        let mut left = l.len();
        for (i, r) in steps.iter().enumerate() {
            let mut rest = quoted(&r[2]);
            if r[0] != (i + 1).to_string() || rest.pop().as_deref() != Some("$") {
                return fail(format!("{s:?}: step {} is shown as {r:?}", i + 1));
            }
            let rest: String = rest.concat();
            let k = rest.chars().count();
            if !s.ends_with(&rest) || k > left || k + 1 < left || (i == 0 && k != left) {
                return fail(format!("{s:?}: step {} shows {} symbols left after one with {left}", i + 1, k));
            }
            left = k;
        }
        match nested(l) {
            Ok(depth) => {
                ctx.count("lines_accepted", 1);
                if verdict != "ok" {
                    return fail(format!("{s:?} is nested, but the tool says {verdict:?}"));
                }
                if steps.len() != 3 * depth + 1 {
                    return fail(format!("{s:?}: {} steps are shown of {}", steps.len(), 3 * depth + 1));
                }
            }
            Err(i) => {
                ctx.count("lines_rejected", 1);
                let bad = l.get(i).copied().unwrap_or('$');
                if verdict == "ok" || !verdict.contains(&format!("unexpected token {:?}", bad.to_string())) {
                    return fail(format!("{s:?}: {bad:?} at {i} cannot stand there, but the tool says {verdict:?}"));
                }
                if left != l.len() - i {
                    return fail(format!("{s:?}: the steps end with {left} symbols left, the wrong one is at {i}"));
                }
            }
        }
        match simulate(&acts, l) {
            Ok(v) if v == nested(l).is_ok() => ctx.count("words_through_the_printed_table", 1),
            Ok(v) => return fail(format!("{s:?}: the printed actions say {v}")),
            Err(e) => return fail(format!("{s:?}: the printed actions make no parser: {e}")),
        }
        ctx.judged(fnv(s.as_bytes()), l.len() > 1);
        ctx.sample(|| format!("{s:?}: {verdict}"));
    }
    ctx.count("tool_runs", 1);
    if n == 0 {
        ctx.judged(0, false);
    }
    Ok(())
}
