//! Witnesses of the listed findings. Each prints one line and succeeds if the code still fails in
//! exactly the listed way.
use lrp::grammar::{Rule, RuleMap};
use lrp::{to_tokens, Clr, Grammar, Lalr, Parser, Slr};

/// S -> A; A -> a | ( S ): the entry rule is used inside a right-hand side.
fn nested() -> Grammar<&'static str> {
    let mut m = RuleMap::new();
    m.insert("S", Rule::new("S", vec![vec!["A"]]));
    m.insert("A", Rule::new("A", vec![vec!["a"], vec!["(", "S", ")"]]));
    Grammar::new("S", m, "$")
}

fn answers<P: Parser<&'static str>>() -> [bool; 3] {
    let p = P::new(nested());
    [vec!["a"], vec!["(", "a", ")"], vec!["(", "a"]].map(|w| p.validate(to_tokens(w)))
}

pub fn show(prop: &str, name: &str) -> Option<String> {
    let g = "grammar S -> A; A -> a | ( S ), whose entry rule S is used in a right-hand side:";
    match (prop, name) {
        ("C01", "entry-in-rhs-clr") if answers::<Clr<_>>() == [true, false, false] => {
            Some(format!("{g} the CLR parser rejects the sentence `( a )`"))
        }
        ("C02", "entry-in-rhs-lalr") if answers::<Lalr<_>>() == [true, false, true] => {
            Some(format!("{g} the LALR parser rejects the sentence `( a )` and accepts `( a`"))
        }
        ("C03", "entry-in-rhs-slr") if answers::<Slr<_>>() == [true, false, true] => {
            Some(format!("{g} the SLR parser rejects the sentence `( a )` and accepts `( a`"))
        }
        _ => None,
    }
}
