//! Reference lexer of the grammar language, by hand: longest match at each place, no tables.
use wop::Sym;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub t: Sym,
    pub s: usize,
    pub e: usize,
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// where the first thing that is no token starts
    pub err: Option<usize>,
    /// comments skipped
    pub comments: usize,
}

/// Characters of the workloads outside ASCII: whether they continue a word.
pub const WORDY: &[char] = &['é', 'ß', 'λ', '日', 'ñ', 'Ω', '٣', '\u{0301}', 'ﬁ', '𝒳'];
pub const UNWORDY: &[char] = &['€', '→', '😀', '\u{00A0}', '\u{2028}', '“', '±', '\u{FEFF}', '\0', '\u{7f}'];

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || WORDY.contains(&c)
}

pub fn lex(src: &str) -> Lexed {
    let mut toks = vec![];
    let mut comments = 0;
    let mut p = 0;
    let b = src.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0xff);
    while p < b.len() {
        let rest = &src[p..];
        let c = rest.chars().next().expect("a character");
        let mut put = |t: Sym, n: usize| {
            toks.push(Tok { t, s: p, e: p + n });
            n
        };
        let n = match c {
            ' ' | '\t' | '\n' | '\r' => 1,
            '=' => put(Sym::Assign, 1),
            '|' => put(Sym::Pipe, 1),
            '(' => put(Sym::OpenParen, 1),
            ')' => put(Sym::CloseParen, 1),
            ';' => put(Sym::Sc, 1),
            '*' => put(Sym::Glob, 1),
            '?' => put(Sym::Optional, 1),
            '&' => put(Sym::Clone, 1),
            ':' if at(p + 1) == b':' => put(Sym::PathAccess, 2),
            ':' => put(Sym::TwoDots, 1),
            '/' if at(p + 1) == b'*' => match rest[2..].find("*/") {
                Some(k) => {
                    comments += 1;
                    k + 4
                }
                None => 0,
            },
            '/' if at(p + 1) == b'/' => {
                comments += 1;
                rest.find('\n').unwrap_or(rest.len())
            }
            '-' if at(p + 1) == b'>' => match rest[2..].find("}%") {
                Some(k) => put(Sym::CodeBlock, k + 4),
                None => 0,
            },
            '"' => {
                let mut it = rest.char_indices().skip(1);
                loop {
                    match it.next() {
                        None => break 0,
                        Some((i, '"')) => break put(Sym::StrLit, i + 1),
                        Some((_, '\\')) => match it.next() {
                            None | Some((_, '\n')) => break 0,
                            Some(_) => {}
                        },
                        Some(_) => {}
                    }
                }
            }
            c if c.is_ascii_alphabetic() || c == '_' => {
                let n = rest.find(|c| !word(c)).unwrap_or(rest.len());
                put(
                    match &rest[..n] {
                        "alias" => Sym::AliasWord,
                        "use" => Sym::UseWord,
                        _ => Sym::Ident,
                    },
                    n,
                )
            }
            _ => 0,
        };
        if n == 0 {
            return Lexed { toks, err: Some(p), comments };
        }
        p += n;
    }
    Lexed { toks, err: None, comments }
}
