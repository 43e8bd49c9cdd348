From 8f4fbbaafc5d05dbce408d5323ab9ef5f365d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 01/15] fix: Dfa::reset restores the initial state on the state
 stack

reset() emptied the state stack instead of bringing it back to [0], so
every reduction of a following parse looked below the stack and panicked.
---
 src/dfa.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index 5b5a853..aaebeb4 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -214,6 +214,7 @@ where
     pub fn reset(&mut self) {
         self.finished = false;
         self.states.clear();
+        self.states.push(0);
         self.items.clear();
         self.top = 0;
     }
-- 
2.43.0


From 0a89b27b536fd0ec02a7cfb76011e32a2869e823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:42 +0000
Subject: [PATCH 02/15] fix: FIRST and FOLLOW reach their fixed point on
 mutually recursive rules

Each step replaced a set by the sets of the symbols in it, so on a cycle of
rules the sets moved around the cycle for ever and Tabler::new did not
return (or kept nonterminals). The steps now only add to the sets, and
nonterminals are taken out once nothing changes any more.
---
 src/tabler.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/tabler.rs b/src/tabler.rs
index 8af2215..846682f 100644
--- a/src/tabler.rs
+++ b/src/tabler.rs
@@ -102,6 +102,9 @@ where
 
     pub fn proc_first(&mut self) {
         self.first = transitive(self.first.clone(), |t| self.first_step(&t));
+        for firsts in self.first.values_mut() {
+            firsts.retain(|t| self.grammar.is_terminal(t));
+        }
         // FIRST must be a subset of TERMINALS
         debug_assert!(self
             .first
@@ -112,6 +115,9 @@ where
 
     pub fn proc_follow(&mut self) {
         self.follow = transitive(self.follow.clone(), |t| self.follow_step(&t));
+        for follows in self.follow.values_mut() {
+            follows.retain(|t| self.grammar.is_terminal(t));
+        }
         // FOLLOW must be a subset of TERMINALS
         debug_assert!(self
             .follow
@@ -124,14 +130,12 @@ where
     /// Never.
     #[must_use]
     pub fn first_step(&self, input: &Table<T>) -> Table<T> {
-        let mut table = Table::new();
+        let mut table = input.clone();
         for (name, firsts) in input {
-            table.insert(name.clone(), Set::new());
+            let entry = table.get_mut(name).unwrap();
             for first in firsts {
-                if self.grammar.is_terminal(first) {
-                    table.get_mut(name).unwrap().insert(first.clone());
-                } else {
-                    table.get_mut(name).unwrap().extend(
+                if !self.grammar.is_terminal(first) {
+                    entry.extend(
                         input
                             .get(first)
                             .unwrap_or_else(|| {
@@ -141,9 +145,6 @@ where
                     );
                 }
             }
-            if table[name].contains(name) {
-                table.get_mut(name).unwrap().remove(name);
-            }
         }
         table
     }
@@ -152,20 +153,14 @@ where
     /// Never.
     #[must_use]
     pub fn follow_step(&self, input: &Table<T>) -> Table<T> {
-        let mut table = Table::new();
+        let mut table = input.clone();
         for (noterm, terms) in input {
-            table.insert(noterm.clone(), Set::new());
+            let entry = table.get_mut(noterm).unwrap();
             for term in terms {
-                let entry = table.get_mut(noterm).unwrap();
-                if self.grammar.is_terminal(term) {
-                    entry.insert(term.clone());
-                } else if let Some(set) = input.get(term) {
+                if let Some(set) = input.get(term) {
                     entry.extend(set.clone());
                 }
             }
-            if table[noterm].contains(noterm) {
-                table.get_mut(noterm).unwrap().remove(noterm);
-            }
         }
         table
     }
-- 
2.43.0


From be89d3dcfe97e7696df8bab0bd4bc7fb013fff37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 03/15] fix: LALR lookaheads propagate through the whole state,
 to its fixed point

Lookaheads that grew were passed on from the kernel items only, not from
the items its closure adds, and a state that grew while its own symbols
were being walked kept passing on what it held before. Reductions were
missing from the table, so sentences were rejected. Propagation now uses
the full state and goes on until no state grows.
---
 src/lalr.rs | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/lalr.rs b/src/lalr.rs
index ea8daad..38c26a5 100644
--- a/src/lalr.rs
+++ b/src/lalr.rs
@@ -118,20 +118,14 @@ where
         self.proc_closures_first_row();
         let mut idx = 0;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        'gen: while idx < self.table.states.len() {
-            let row = self.table.states[idx].clone();
+        while idx < self.table.states.len() {
             for s in &syms {
-                let Some((kernel, closures)) = self.goto(&row, s) else {
+                let Some((kernel, closures)) = self.goto(&self.table.states[idx], s) else {
                     continue;
                 };
                 let raw_kernel = Self::without_look(&kernel);
                 if let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() {
-                    let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
-                        continue;
-                    };
-                    if self.table.kernels[&nk] == idx && nk != row {
-                        continue 'gen;
-                    }
+                    let _ = self.update_closures(&main_kernel, kernel, closures);
                 } else {
                     self.raws.insert(raw_kernel, kernel.clone());
                     self.table.states.push(closures);
@@ -153,32 +147,29 @@ where
         inc: State<T>,
         closures: State<T>,
     ) -> Option<State<T>> {
-        let mut new_kernel = self.update_state(main, inc, closures)?;
+        let new_kernel = self.update_state(main, inc, closures)?;
         let syms: Vec<_> = self.table.grammar.symbols().collect();
-        let id = self.table.kernels[&new_kernel];
+        let raw = Self::without_look(&new_kernel);
 
-        'regen: loop {
+        // Every state that got new lookaheads passes them on to the states reached from its whole
+        // closure, until no state grows anymore.
+        let mut grown = vec![raw.clone()];
+        while let Some(raw_kernel) = grown.pop() {
+            let id = self.table.kernels[&self.raws[&raw_kernel]];
             for s in &syms {
-                let Some((kernel, closures)) = self.goto(&new_kernel, s) else {
+                let Some((kernel, closures)) = self.goto(&self.table.states[id], s) else {
                     continue;
                 };
                 let raw_kernel = Self::without_look(&kernel);
-                let main_kernel = self.raws.get(&raw_kernel).cloned();
-                let Some(main_kernel) = main_kernel else {
-                    continue;
-                };
-                let Some(nk) = self.update_closures(&main_kernel, kernel, closures) else {
+                let Some(main_kernel) = self.raws.get(&raw_kernel).cloned() else {
                     continue;
                 };
-                let updated_state = self.table.kernels[&nk];
-                if updated_state == id && nk != new_kernel {
-                    new_kernel = nk;
-                    continue 'regen;
+                if self.update_state(&main_kernel, kernel, closures).is_some() {
+                    grown.push(raw_kernel);
                 }
             }
-            break;
         }
-        Some(new_kernel)
+        self.raws.get(&raw).cloned()
     }
 
     #[must_use]
-- 
2.43.0


From dfcbe5e4a9f6a6f2a82d91b4ff10d1dae64bc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 04/15] fix: a rule's name in the input is an unexpected token

The Goto entry of a state was followed for an input token that is a rule's
name. It doesn't consume the token, so a parse either pushed states for
ever or ran on with a state stack that doesn't match its items.
---
 src/dfa.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dfa.rs b/src/dfa.rs
index aaebeb4..a77310e 100644
--- a/src/dfa.rs
+++ b/src/dfa.rs
@@ -152,6 +152,14 @@ where
                 .peek()
                 .map_or_else(|| &self.eof, |t| &t.ty)
                 .clone();
+            // Only reductions lead to a `Goto`. The name of a rule isn't a token, and going there
+            // wouldn't consume it.
+            if let Some(row) = self.table.get(self.top) {
+                if let Some(Action::Goto(_)) = row.get(&symbol) {
+                    let expecteds = row.keys().cloned().collect();
+                    return Err(Error::UnexpectedToken(symbol, expecteds));
+                }
+            }
             self.travel(&symbol)?;
         }
         Ok(())
-- 
2.43.0


From ccf4fc32fbd0697815ed20f63ad289186ece3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:05 +0000
Subject: [PATCH 05/15] fix: comments ending in **/ and code blocks ending in
 }}% end there

---
 wop/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wop/src/lib.rs b/wop/src/lib.rs
index 60489d5..9cf2db2 100644
--- a/wop/src/lib.rs
+++ b/wop/src/lib.rs
@@ -83,7 +83,7 @@ pub enum Sym {
     StrLit,
 
     /// Block comment
-    #[regex(r#"/\*([^\*]|\*[^//])*\*/"#, logos::skip)]
+    #[regex(r#"/\*[^\*]*\*+([^/\*][^\*]*\*+)*/"#, logos::skip)]
     BlockComment,
 
     /// Line comment
@@ -91,7 +91,7 @@ pub enum Sym {
     LineComment,
 
     /// Matches a entire function tail definition: arrow ("->"), return type and a expression
-    #[regex(r#"(->)([^\}]|\}[^%])*\}%"#)]
+    #[regex(r#"->[^\}]*\}+([^%\}][^\}]*\}+)*%"#)]
     CodeBlock,
 
     #[error]
-- 
2.43.0


From 0a8e9f216f2b63736b5b0a833d6d9302a6c5c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 06/15] fix: an alias of an absent optional item is unbound, so
 only & clones

---
 wop/src/builder.rs |  3 ++-
 wop/src/out.rs     | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index 18b1236..f8d5a40 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -276,7 +276,8 @@ impl Builder {
                     .iter_mut()
                     .find(|a| a.alias.from_source(src) == alias_name.from_source(src))
                 {
-                    prod_alias.optional = Some(true);
+                    // one that is already known to be absent stays so
+                    prod_alias.optional.get_or_insert(true);
                 } else {
                     let item_alias = ItemAlias {
                         alias: **alias_name,
diff --git a/wop/src/out.rs b/wop/src/out.rs
index 324c40b..823afde 100644
--- a/wop/src/out.rs
+++ b/wop/src/out.rs
@@ -148,7 +148,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -213,7 +215,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -276,7 +280,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let item = Some(toks[0].clone());
                 let opt = Some(toks[1].clone());
-                let cl = Some(toks[3].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[3].clone());
                 {
                     Ast::RuleItem(
@@ -341,7 +347,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[2].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[2].clone());
                 {
                     Ast::RuleItem(
@@ -404,7 +412,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
             {
                 let rule = toks[1].clone();
                 let opt = Some(toks[3].clone());
-                let cl = Some(toks[5].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[5].clone());
                 {
                     Ast::RuleItem(
@@ -469,7 +479,9 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {
                 let mut opt = Some(toks[0].clone());
                 opt = None;
                 let opt = opt;
-                let cl = Some(toks[4].clone());
+                let mut cl = Some(&toks[0]);
+                cl = None;
+                let cl = cl;
                 let id = Some(toks[4].clone());
                 {
                     Ast::RuleItem(
-- 
2.43.0


From 317c1c3a6e8c0a228fbe54cd2253fc6fda8ec985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:44 +0000
Subject: [PATCH 07/15] fix: aliases of groups and of absent items keep their
 extent and type

---
 wop/src/builder.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index f8d5a40..f942d84 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -74,9 +74,10 @@ impl ItemAlias {
             // aren't a real type declaration inside this struct, we bind the type from `toks[0]`
             // and set to `None`. Also, it needs to be shadowed to prevent mutations.
             Some(false) => {
+                let index = self.final_index.map_or("0", |_| "0..0");
                 writeln!(
                     out,
-                    "let mut {alias} = Some({prefix}0{suffix}); {alias} = None; let {alias} = {alias};"
+                    "let mut {alias} = Some({prefix}{index}{suffix}); {alias} = None; let {alias} = {alias};"
                 )
             }
             None => writeln!(out, "let {alias} = {prefix}{index}{suffix};"),
@@ -209,7 +210,14 @@ impl Builder {
                                 prod.aliases.last_mut().unwrap().final_index =
                                     Some(prod.production.len() + variant.len());
                             }
-                            let news = self.get_from_single_production(&prod, variant, src);
+                            let mut news = self.get_from_single_production(&prod, variant, src);
+                            if alias.is_some() {
+                                // sub-rules and optionals inside may take more or less than an item
+                                for new in &mut news {
+                                    new.aliases[prod.aliases.len() - 1].final_index =
+                                        Some(new.production.len());
+                                }
+                            }
                             prods.extend(news);
                         }
                         self.set_sub_aliases(&prod, &mut prods, src);
@@ -223,11 +231,8 @@ impl Builder {
                             for alias in &prods[0].aliases {
                                 if !ignored_prod.aliases.iter().any(|a| a.alias == alias.alias) {
                                     let item_alias = ItemAlias {
-                                        alias: alias.alias,
                                         optional: Some(false),
-                                        index: 0,
-                                        final_index: None,
-                                        clone,
+                                        ..alias.clone()
                                     };
                                     ignored_prod.aliases.push(item_alias);
                                 }
@@ -263,14 +268,14 @@ impl Builder {
     /// in another.
     pub fn set_sub_aliases(&self, base: &ProductionBuild, productions: &mut RuleBuild, src: &str) {
         let base_aliases: HashSet<_> = base.aliases.iter().map(|a| a.alias).collect();
-        let prods_aliases: HashSet<_> = productions
+        let prods_aliases: HashMap<_, _> = productions
             .iter()
             .flat_map(|a| a.aliases.iter())
-            .map(|a| a.alias)
+            .filter(|a| !base_aliases.contains(&a.alias))
+            .map(|a| (a.alias, a.clone()))
             .collect();
-        let prods_aliases: HashSet<_> = prods_aliases.difference(&base_aliases).collect();
         for prod in productions.iter_mut() {
-            for alias_name in &prods_aliases {
+            for (alias_name, item_alias) in &prods_aliases {
                 if let Some(prod_alias) = prod
                     .aliases
                     .iter_mut()
@@ -279,15 +284,11 @@ impl Builder {
                     // one that is already known to be absent stays so
                     prod_alias.optional.get_or_insert(true);
                 } else {
-                    let item_alias = ItemAlias {
-                        alias: **alias_name,
+                    // it stands for nothing, but has the type of the others
+                    prod.aliases.push(ItemAlias {
                         optional: Some(false),
-                        index: 0,
-                        // FIXME: Will it ALWAYS be nothing?
-                        final_index: None,
-                        clone: false,
-                    };
-                    prod.aliases.push(item_alias);
+                        ..item_alias.clone()
+                    });
                 }
             }
         }
-- 
2.43.0


From 42ae55a887c1a54628048fded7d399c0c81c8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:44 +0000
Subject: [PATCH 08/15] fix: the command-line tool ends with its input

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ba4743a..76eaad3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,9 @@ fn main() {
         io::stdout().flush().unwrap();
 
         let mut input = String::new();
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            break;
+        }
 
         #[allow(clippy::needless_collect)]
         let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();
-- 
2.43.0


From 795c558434587cdbc0baa81d85e0edfe27dca11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 09/15] fix: the command-line tool reports unknown symbols
 instead of panicking

---
 src/main.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 76eaad3..5c26389 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,7 +44,7 @@ fn main() {
     print_states_table(tables, &parser);
     print_actions_table(tables);
 
-    loop {
+    'input: loop {
         print!("input: ");
         io::stdout().flush().unwrap();
 
@@ -53,13 +53,15 @@ fn main() {
             break;
         }
 
-        #[allow(clippy::needless_collect)]
-        let input: Vec<_> = input.trim().chars().map(|c| c.to_string()).collect();
-        let mut dfa = parser.simple_dfa(
-            input
-                .into_iter()
-                .map(|t| Token::new((), *terminals.get(t.as_str()).unwrap())),
-        );
+        let mut tokens = Vec::new();
+        for t in input.trim().chars().map(|c| c.to_string()) {
+            let Some(t) = terminals.get(t.as_str()) else {
+                println!("unknown symbol {t:?}");
+                continue 'input;
+            };
+            tokens.push(Token::new((), *t));
+        }
+        let mut dfa = parser.simple_dfa(tokens);
         print_proc_dfa(&mut dfa);
     }
 }
-- 
2.43.0


From 182a11f9f258f4394144d265f7158e37875738e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 10/15] fix: wop writes no output for an input that is not a
 grammar

---
 wop/src/main.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 0d58c0c..4dcc486 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -18,17 +18,16 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 
     let mut dfa = wop::build_parser(lexer);
 
-    let res = match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
+    match dfa.trace(|st| println!("{:?}", st.stack_fmt())) {
         Err(e) => {
             println!("FATAL: {e}");
-            println!("source:");
-            Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "impossible to parse").into())
-        }
-        Ok(p) => {
-            println!("OUTPUT: {p:?}");
-            Ok(())
+            // there is no program to build, or only the beginning of one
+            return Err(
+                std::io::Error::new(std::io::ErrorKind::InvalidInput, "impossible to parse").into(),
+            );
         }
-    };
+        Ok(p) => println!("OUTPUT: {p:?}"),
+    }
     println!("PARSING OUTPUT:");
     print_nested(&dfa.items[0], "", 0, &file);
 
@@ -66,7 +65,7 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         builder.dump_reductor(&file),
     )?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
-    res
+    Ok(())
 }
 
 const TAB_C: &str = "  ";
-- 
2.43.0


From 92f0bcdc88b2a5486994218a5c15e606b163e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:30 +0000
Subject: [PATCH 11/15] fix: the printed action table has its titles over their
 columns

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5c26389..e42bd2b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -139,10 +139,12 @@ where
                 (ts, nts)
             });
 
+    let title = |t| Cell::new(&format!("{t:?}"));
     let rows: Vec<_> = terminals
         .iter()
-        .chain(nonterminals.iter())
-        .map(|t| Cell::new(&format!("{t:?}")))
+        .map(title)
+        .chain([Cell::new("state")])
+        .chain(nonterminals.iter().map(title))
         .collect();
 
     out.set_titles(Row::new(rows));
-- 
2.43.0


From 32647eb827b47f4e11cbede4923918f99146861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:36 +0000
Subject: [PATCH 12/15] fix: functions of rules named by a path get names that
 are identifiers

---
 wop/src/builder.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wop/src/builder.rs b/wop/src/builder.rs
index f942d84..0fa8c01 100644
--- a/wop/src/builder.rs
+++ b/wop/src/builder.rs
@@ -372,6 +372,9 @@ impl Builder {
         src: &str,
     ) {
         let ty = prods[0].ty.from_source(src);
+        // the name may be a path, so it's made an identifier, which is unique in the block of the rule
+        let fn_name = name.replace(|c: char| !c.is_alphanumeric(), "_");
+        writeln!(out, "\tmap.insert({name}, {{").unwrap();
         for (i, prod) in prods.iter().enumerate() {
             let mut item_aliases = String::new();
             for alias in &prod.aliases {
@@ -379,16 +382,16 @@ impl Builder {
             }
             writeln!(
                     out,
-                    "\tfn lrp_wop_{name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
+                    "\tfn lrp_wop_{fn_name}_{i}(toks: &[{entry_type}]) -> lrp::Meta<{ty}> {{\n\t\tlrp::Meta::new({{ {item_aliases} {}}}, lrp::Span::new(toks[0].item.span.start, toks.last().unwrap().item.span.end))\n\t}}",
                     prod.codeblock.from_source(src).strip_prefix("->").unwrap().strip_suffix('%').unwrap()
                 )
                 .unwrap();
         }
-        write!(out, "\tmap.insert({name}, vec![").unwrap();
+        out.push_str("\tvec![");
         for (i, _) in prods.iter().enumerate() {
-            write!(out, "lrp_wop_{name}_{i}, ").unwrap();
+            write!(out, "lrp_wop_{fn_name}_{i}, ").unwrap();
         }
-        out.push_str("\t]);\n\n");
+        out.push_str("\t]});\n\n");
     }
 }
 
-- 
2.43.0


From 6eb142370d572bab37ea39f175fcf0d8b6ecebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:32 +0000
Subject: [PATCH 13/15] fix: report errors in writing the end of out.rs

---
 wop/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index 4dcc486..bde3e04 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -64,6 +64,8 @@ pub fn reduct_map() -> ReductMap<Meta<Ast>, Sym> {}"#,
         wop::builder::REDUCTOR_LINTS,
         builder.dump_reductor(&file),
     )?;
+    // on drop, an error in writing what is left would be ignored
+    writer.flush()?;
     println!("ELAPSED TIME: {:?}", start.elapsed());
     Ok(())
 }
-- 
2.43.0


From a5270bdefd1f5b85ca4b2ee167befda7c33b628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 14/15] fix: the command-line tool reports what is no text
 instead of panicking

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e42bd2b..f098482 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use std::{
     fmt,
-    io::{self, Write},
+    io::{self, BufRead, Write},
     iter::Peekable,
 };
 
@@ -48,10 +48,12 @@ fn main() {
         print!("input: ");
         io::stdout().flush().unwrap();
 
-        let mut input = String::new();
-        if io::stdin().read_line(&mut input).unwrap() == 0 {
+        let mut input = Vec::new();
+        if io::stdin().lock().read_until(b'\n', &mut input).unwrap() == 0 {
             break;
         }
+        // bytes that aren't text are no symbols of the grammar
+        let input = String::from_utf8_lossy(&input);
 
         let mut tokens = Vec::new();
         for t in input.trim().chars().map(|c| c.to_string()) {
-- 
2.43.0


From b5022b8285121d9a37218db0457688afebf8c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:16 +0000
Subject: [PATCH 15/15] fix: wop reads files whose names are not valid Unicode

---
 wop/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wop/src/main.rs b/wop/src/main.rs
index bde3e04..f82caf2 100644
--- a/wop/src/main.rs
+++ b/wop/src/main.rs
@@ -8,7 +8,7 @@ use std::{
 use wop::{builder::Builder, Ast, Gramem};
 
 fn main() -> Result<(), Box<dyn std::error::Error>> {
-    let path = std::env::args().nth(1).unwrap();
+    let path = std::env::args_os().nth(1).unwrap();
     let file = fs::read_to_string(path)?;
 
     let lexer = wop::Sym::lexer(&file).spanned().map(|(m, s)| {
-- 
2.43.0

