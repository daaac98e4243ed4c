From 6272dc92d57003f5074a2de49aae3dcbc87d92dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:06 +0000
Subject: [PATCH 01/14] fix: keep lexer positions on character boundaries

A line comment ending with a non-ASCII character, or an unexpected
non-ASCII character in the code, made the lexer slice the source in the
middle of a character and panic.
---
 src/parser/lexing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index fe6a8f1..8cc15aa 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -78,7 +78,7 @@ impl<'a> Lexer<'a> {
     fn next(&mut self) -> Option<char> {
         match self.chars.next() {
             Some((i, c)) => {
-                self.current.pos = i + 1;
+                self.current.pos = i + c.len_utf8();
                 self.current.col += 1;
                 if c == '\n' {
                     self.current.line += 1;
-- 
2.43.0


From fe9855b9bf52e81c71e0951bbe1fda776feb50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:07 +0000
Subject: [PATCH 02/14] fix: do not close a block comment with its opening star

`/*/` was lexed as a complete block comment.
---
 src/parser/lexing.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexing.rs b/src/parser/lexing.rs
index 8cc15aa..05ee4f6 100644
--- a/src/parser/lexing.rs
+++ b/src/parser/lexing.rs
@@ -276,7 +276,12 @@ impl<'a> Lexer<'a> {
         if let Some(c) = self.peek() {
             match c {
                 '/' => self.lex_linecomment(),
-                '*' => self.lex_blockcomment(),
+                '*' => {
+                    // Consume the star, so that it is not taken for a part
+                    // of the closing delimiter (as in `/*/`)
+                    self.next();
+                    self.lex_blockcomment()
+                }
                 _ => self.generate_token(ModelicaToken::Slash),
             }
         } else {
-- 
2.43.0


From 2a93401704fd4c0b3eb0388cdca24ba577705ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 03/14] fix: report unexpected end of file instead of panicking

The parser panicked when the source ended where a class prefix or a class
specifier was expected, and when there was no token to point at.
---
 src/parser/parsing.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 859ac97..ff40972 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -224,18 +224,21 @@ impl<'a> Parser<'a> {
                 self.name, tok.start.line, tok.start.col, msg
             ));
         } else {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name,
-                self.tokens.last().unwrap().start.line,
-                self.tokens.last().unwrap().start.col,
-                msg
-            ));
+            let (line, col) = self
+                .tokens
+                .last()
+                .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+            self.errors
+                .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
         }
     }
 
     fn advance_with_error(&mut self, msg: String) {
         self.error(msg);
+        if self.eof() {
+            // There is nothing to skip
+            return;
+        }
         let mark = self.enter();
         self.advance();
         self.exit(mark, SyntaxKind::Error);
-- 
2.43.0


From 56f593902049f75695445c2cbec4f05390bd2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:38 +0000
Subject: [PATCH 04/14] fix: report syntax errors the parser cannot recover
 from

Instead of panicking with 'Parser stuck' (which also prevented the remaining
files from being processed) the parser abandons the rest of the source, and the
errors collected so far are reported, each of them once.
---
 src/parser/parsing.rs | 66 +++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index ff40972..1dd9428 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -26,7 +26,8 @@ struct Parser<'a> {
     errors: Vec<String>,
     /// Current position in the `TokenCollection`
     pos: usize,
-    /// Parser lifes
+    /// Parser lifes: number of lookups left until the parser is
+    /// considered stuck at the current token
     lifes: Cell<u32>,
 }
 
@@ -162,21 +163,30 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(!self.eof());
+        assert!(self.pos < self.tokens.len());
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
     }
 
-    /// Return `true` if parser reached the end of file
+    /// Return `true` if parser reached the end of file, or if it is not
+    /// able to get past the current token
     fn eof(&self) -> bool {
-        self.pos == self.tokens.len()
+        self.pos == self.tokens.len() || self.stuck()
+    }
+
+    /// Return `true` if parser is not able to get past the current token.
+    ///
+    /// That happens only inside of the erroneus code, so the error is
+    /// reported already. Remaining tokens are abandoned.
+    fn stuck(&self) -> bool {
+        self.lifes.get() == 0
     }
 
     /// Return type of the n-th token counting from the current one.
     fn nth(&self, n: usize) -> ModelicaToken {
-        if self.lifes.get() == 0 {
-            self.blowup();
+        if self.stuck() {
+            return ModelicaToken::EOF;
         }
         self.lifes.set(self.lifes.get() - 1);
         self.tokens
@@ -184,18 +194,6 @@ impl<'a> Parser<'a> {
             .map_or(ModelicaToken::EOF, |tok| tok.kind)
     }
 
-    fn blowup(&self) {
-        let tok = if !self.eof() {
-            self.tokens.get(self.pos).unwrap()
-        } else {
-            self.tokens.last().unwrap()
-        };
-        panic!(
-            "{}:{}:{}: Parser stuck",
-            self.name, tok.start.line, tok.start.col
-        );
-    }
-
     /// Return `true` if current token matches the specified type
     fn check(&self, typ: ModelicaToken) -> bool {
         self.nth(0) == typ
@@ -218,18 +216,26 @@ impl<'a> Parser<'a> {
 
     /// Mark currently parsed token as erroneus.
     fn error(&mut self, msg: String) {
-        if let Some(tok) = self.tokens.get(self.pos) {
-            self.errors.push(format!(
-                "{}:{}:{}: {}",
-                self.name, tok.start.line, tok.start.col, msg
-            ));
-        } else {
-            let (line, col) = self
-                .tokens
-                .last()
-                .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
-            self.errors
-                .push(format!("{}:{}:{}: {}", self.name, line, col, msg));
+        if self.stuck() && !self.errors.is_empty() {
+            // The actual error is reported already
+            return;
+        }
+        let (line, col) = self
+            .tokens
+            .get(self.pos)
+            .or(self.tokens.last())
+            .map_or((1, 1), |tok| (tok.start.line, tok.start.col));
+        let location = format!("{}:{}:{}: ", self.name, line, col);
+        let error = format!("{location}{msg}");
+        // Do not repeat errors when parser struggles to get past the token
+        let reported = self
+            .errors
+            .iter()
+            .rev()
+            .take_while(|e| e.starts_with(&location))
+            .any(|e| *e == error);
+        if !reported {
+            self.errors.push(error);
         }
     }
 
-- 
2.43.0


From a61b09e6a51a48cd9df1b8b8c75d12345767b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:18 +0000
Subject: [PATCH 05/14] fix: restore indentation after wrapped left-hand sides

Wrapping the left-hand side of an equation, or the outputs of a function call
in a statement increased the indentation up to the end of the file.
---
 src/formatter/formatting.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index eeb71b9..48343d9 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -1188,7 +1188,12 @@ fn equation(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
             Child::Tree(tree) => match tree.kind {
-                SyntaxKind::SimpleExpression => _ = simple_expression(f, tree, false),
+                SyntaxKind::SimpleExpression => {
+                    let wrapped = simple_expression(f, tree, false);
+                    if wrapped {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::Expression => {
                     let is_multiline_if =
                         tree.is_multiline() && tree.start().kind == ModelicaToken::If;
@@ -1249,7 +1254,12 @@ fn statement(f: &mut Formatter, tree: Tree) {
                     }
                 }
                 SyntaxKind::FunctionCallArgs => function_call_args(f, tree),
-                SyntaxKind::OutputExpressionList => _ = output_expression_list(f, tree, false),
+                SyntaxKind::OutputExpressionList => {
+                    let wrapped = output_expression_list(f, tree, false);
+                    if wrapped {
+                        f.markers.push(Marker::Dedent);
+                    }
+                }
                 SyntaxKind::IfStatement => if_statement(f, tree),
                 SyntaxKind::ForStatement => for_statement(f, tree),
                 SyntaxKind::WhileStatement => while_statement(f, tree),
-- 
2.43.0


From a5f0ff6eb9c28a85b022e25199b6e4d4245f15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:18 +0000
Subject: [PATCH 06/14] fix: wrap lists with descriptions or constraining
 clauses in a single run

Component lists and inheritance modifications that contain descriptions, and
modifications that contain constraining clauses were wrapped completely only
when mofmt was run for the second time.
---
 src/formatter/formatting.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 48343d9..3c1112c 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -215,6 +215,14 @@ impl Formatter {
     }
 }
 
+/// Return `true` if the tree contains rules that are always placed in their
+/// own lines
+fn is_always_wrapped(tree: &Tree) -> bool {
+    tree.contains(SyntaxKind::DescriptionString)
+        || tree.contains(SyntaxKind::Description)
+        || tree.contains(SyntaxKind::ConstrainingClause)
+}
+
 fn stored_definition(f: &mut Formatter, tree: Tree) {
     for child in tree.children {
         match child {
@@ -755,7 +763,7 @@ fn constraining_clause(f: &mut Formatter, tree: Tree) {
 
 fn class_or_inheritance_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline() && tree.len() > 2;
+    let is_multiline = (tree.is_multiline() || is_always_wrapped(&tree)) && tree.len() > 2;
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
@@ -847,7 +855,7 @@ fn type_prefix(f: &mut Formatter, tree: Tree) {
 }
 
 fn component_list(f: &mut Formatter, tree: Tree) {
-    let is_multiline = tree.is_multiline();
+    let is_multiline = tree.is_multiline() || is_always_wrapped(&tree);
     let children_count = tree.len();
     if is_multiline && children_count > 1 {
         f.markers.push(Marker::Indent);
@@ -950,9 +958,7 @@ fn modification_expression(f: &mut Formatter, tree: Tree) {
 
 fn class_modification(f: &mut Formatter, tree: Tree) {
     f.markers.push(Marker::Indent);
-    let is_multiline = tree.is_multiline()
-        || tree.contains(SyntaxKind::DescriptionString)
-        || tree.contains(SyntaxKind::Description);
+    let is_multiline = tree.is_multiline() || is_always_wrapped(&tree);
     let mut children = tree.children.into_iter().peekable();
     while let Some(child) = children.next() {
         match child {
-- 
2.43.0


From 41f9defa5c3b8e4ce5a517c237406c5fb4859110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:19 +0000
Subject: [PATCH 07/14] fix: do not insert blank lines after multiline comments

Lines of a block comment that starts in the line of the preceding token were
counted as blank lines in the second run of mofmt.
---
 src/formatter/formatting.rs | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 3c1112c..73a2d5b 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -142,43 +142,34 @@ impl Formatter {
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
+        let mut line = self.prev_line;
         for comment in inlines {
             if !self.markers.is_empty() {
                 self.markers.push(Marker::Space);
             }
+            line = comment.end.line;
             self.markers.push(Marker::Token(comment.text));
         }
+        let mut is_wrapped = false;
         if let Blank::Required = blanks {
             self.markers.push(Marker::Blank);
+            is_wrapped = true;
         }
-        let mut line = self.prev_line;
         for comment in comments {
-            if let Blank::Required = blanks {
-                if line > self.prev_line {
-                    if comment.start.line - line > 1 {
-                        self.markers.push(Marker::Blank);
-                    } else {
-                        self.markers.push(Marker::Break);
-                    }
+            if !is_wrapped {
+                if comment.start.line - line > 1 {
+                    self.markers.push(Marker::Blank);
+                } else {
+                    self.markers.push(Marker::Break);
                 }
-            } else if comment.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
             }
-            self.markers.push(Marker::Token(comment.text));
+            is_wrapped = false;
             line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
         }
-        if let Blank::Legal = blanks {
-            if tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
-            }
-        } else if let Blank::Illegal = blanks {
-            self.markers.push(Marker::Break);
-        } else if line > self.prev_line {
-            if tok.start.line - line > 1 {
+        if !is_wrapped {
+            let is_legal = !matches!(blanks, Blank::Illegal);
+            if is_legal && tok.start.line - line > 1 {
                 self.markers.push(Marker::Blank);
             } else {
                 self.markers.push(Marker::Break);
-- 
2.43.0


From 3171c4aae8c6822a30ffd4c24e078659d0115ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 08/14] fix: preserve comments around the first and after the
 last class

Comments placed before the first class definition (in files without `within`)
and comments that follow the last one were removed. Moreover, files that start
with `final`, or with empty lines were formatted with a leading empty line.
---
 src/formatter/formatting.rs | 62 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/formatter/formatting.rs b/src/formatter/formatting.rs
index 73a2d5b..9846d27 100644
--- a/src/formatter/formatting.rs
+++ b/src/formatter/formatting.rs
@@ -139,29 +139,28 @@ impl Formatter {
         }
     }
 
+    /// Insert linebreak marker, or blank line marker. Nothing is inserted at
+    /// the beginning of the file.
+    fn wrap(&mut self, blank: bool) {
+        if self.markers.is_empty() {
+            return;
+        }
+        self.markers
+            .push(if blank { Marker::Blank } else { Marker::Break });
+    }
+
     /// Find and insert comments, and check if blank line may be inserted
     fn handle_break(&mut self, tok: &Token, blanks: Blank) {
         let (inlines, comments) = self.comments_before(tok);
-        let mut line = self.prev_line;
-        for comment in inlines {
-            if !self.markers.is_empty() {
-                self.markers.push(Marker::Space);
-            }
-            line = comment.end.line;
-            self.markers.push(Marker::Token(comment.text));
-        }
+        let mut line = self.handle_inlines(inlines);
         let mut is_wrapped = false;
         if let Blank::Required = blanks {
-            self.markers.push(Marker::Blank);
+            self.wrap(true);
             is_wrapped = true;
         }
         for comment in comments {
             if !is_wrapped {
-                if comment.start.line - line > 1 {
-                    self.markers.push(Marker::Blank);
-                } else {
-                    self.markers.push(Marker::Break);
-                }
+                self.wrap(comment.start.line - line > 1);
             }
             is_wrapped = false;
             line = comment.end.line;
@@ -169,11 +168,35 @@ impl Formatter {
         }
         if !is_wrapped {
             let is_legal = !matches!(blanks, Blank::Illegal);
-            if is_legal && tok.start.line - line > 1 {
-                self.markers.push(Marker::Blank);
-            } else {
-                self.markers.push(Marker::Break);
+            self.wrap(is_legal && tok.start.line - line > 1);
+        }
+    }
+
+    /// Insert comments that start in the line of the previous token. Return
+    /// the line where the last of them ends.
+    fn handle_inlines(&mut self, inlines: Vec<Token>) -> usize {
+        let mut line = self.prev_line;
+        for comment in inlines {
+            if !self.markers.is_empty() {
+                self.markers.push(Marker::Space);
             }
+            line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
+        }
+        line
+    }
+
+    /// Insert comments that follow the last token
+    fn handle_trailing_comments(&mut self) {
+        let (inlines, comments) = self
+            .comments
+            .by_ref()
+            .partition(|c| c.start.line == self.prev_line);
+        let mut line = self.handle_inlines(inlines);
+        for comment in comments {
+            self.wrap(comment.start.line - line > 1);
+            line = comment.end.line;
+            self.markers.push(Marker::Token(comment.text));
         }
     }
 
@@ -220,7 +243,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             Child::Tree(tree) => match tree.kind {
                 SyntaxKind::Name => name(f, tree),
                 SyntaxKind::ClassDefinition => {
-                    if f.prev_tok == ModelicaToken::Semicolon {
+                    if f.prev_tok == ModelicaToken::Semicolon || f.markers.is_empty() {
                         f.handle_break(tree.start(), Blank::Legal);
                     }
                     class_definition(f, tree);
@@ -241,6 +264,7 @@ fn stored_definition(f: &mut Formatter, tree: Tree) {
             }
         }
     }
+    f.handle_trailing_comments();
 }
 
 fn class_definition(f: &mut Formatter, tree: Tree) {
-- 
2.43.0


From dbadea3dad20010c4cb2189cbb5d6e009ee49f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 09/14] fix: report inaccessible files and directories instead
 of panicking

A file that cannot be written, or a directory that cannot be read prevented the
remaining files from being processed.
---
 src/main.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1e08f47..3676d0c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -47,17 +47,22 @@ fn main() {
 fn format_files(args: &[String], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
+    let mut errors = Vec::new();
     let mut lock = stdout().lock();
     args.iter()
         .map(PathBuf::from)
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, &mut errors)
             } else {
                 vec![p]
             }
         })
         .for_each(|mut v| files.append(&mut v));
+    for error in errors {
+        eprintln!("{}", error);
+        code = 1;
+    }
     files.iter().for_each(|p| {
         let contents = read_file(p);
         let name = p.display();
@@ -85,8 +90,9 @@ fn format_files(args: &[String], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else {
-                        write_file(p, output);
+                    } else if let Err(e) = write_file(p, output) {
+                        eprintln!("{}: error: {}", name, e);
+                        code = 1;
                     }
                 }
             }
@@ -99,16 +105,24 @@ fn format_files(args: &[String], check: bool) {
     std::process::exit(code);
 }
 
-/// Return all Modelica files from the given directory
-fn get_files_from_dir(dir: PathBuf) -> Vec<PathBuf> {
+/// Return all Modelica files from the given directory. Directories that cannot
+/// be read are skipped, and reported in `errors`.
+fn get_files_from_dir(dir: PathBuf, errors: &mut Vec<String>) -> Vec<PathBuf> {
     let mut files = Vec::new();
-    let paths = fs::read_dir(&dir)
-        .unwrap_or_else(|_| panic!("{}: error reading from a directory", dir.display()));
-    paths
-        .map(|e| e.unwrap().path())
+    let entries: Result<Vec<_>, _> = fs::read_dir(&dir).and_then(|paths| paths.collect());
+    let entries = match entries {
+        Ok(entries) => entries,
+        Err(e) => {
+            errors.push(format!("{}: error: {}", dir.display(), e));
+            return files;
+        }
+    };
+    entries
+        .into_iter()
+        .map(|e| e.path())
         .map(|p| {
             if p.is_dir() {
-                get_files_from_dir(p)
+                get_files_from_dir(p, errors)
             } else if is_modelica(p.as_path()) {
                 vec![p]
             } else {
@@ -140,6 +154,6 @@ fn read_file(from: &Path) -> Result<String, String> {
 }
 
 /// Write formatted code to a file
-fn write_file(to: &Path, code: String) {
-    fs::write(to, code).unwrap_or_else(|_| panic!("{}: error writing a file", to.display()));
+fn write_file(to: &Path, code: String) -> Result<(), String> {
+    fs::write(to, code).map_err(|e| e.to_string())
 }
-- 
2.43.0


From 8a514ced1f6b5c3667b5fd07a1c819bd701b6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:28 +0000
Subject: [PATCH 10/14] verif hook: expose syntax tree types (feature `verif`)

---
 Cargo.toml | 4 ++++
 src/lib.rs | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/Cargo.toml b/Cargo.toml
index 1306e8b..b275a29 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -11,5 +11,9 @@ keywords = ["Modelica", "development", "formatter"]
 
 [dependencies]
 
+[features]
+# Exposes the syntax tree to the verification harness
+verif = []
+
 [profile.release]
 strip = true
diff --git a/src/lib.rs b/src/lib.rs
index 9731f01..234c685 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,6 +12,12 @@ pub fn pretty_print(tokens: Vec<Token>, comments: Vec<Token>, events: Vec<Syntax
     print(markers)
 }
 
+/// Syntax tree types, exposed to the verification harness only
+#[cfg(feature = "verif")]
+pub mod verif {
+    pub use crate::parser::{Child, SyntaxEvent, Token, Tree};
+}
+
 mod parser;
 mod formatter;
 
-- 
2.43.0


From 7098e7b207778cd55d9a5ed3d40c21d9c36a2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 11/14] fix: accept paths that are not valid Unicode

---
 src/main.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 3676d0c..5cee8bf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,4 +1,5 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
+use std::ffi::OsString;
 use std::io::{stdout, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs};
@@ -19,24 +20,26 @@ Options:
 const EOL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    // Paths do not have to be valid Unicode
+    let args: Vec<OsString> = env::args_os().collect();
+    let first = args.get(1).map_or_else(Default::default, |a| a.to_string_lossy());
     if args.len() < 2 {
         eprintln!("Missing PATHS arguments.\n{}", HELP);
         std::process::exit(1);
-    } else if ["-h", "--help"].contains(&args[1].as_str()) {
+    } else if ["-h", "--help"].contains(&first.as_ref()) {
         println!("{}", HELP);
         std::process::exit(0);
-    } else if ["-v", "--version"].contains(&args[1].as_str()) {
+    } else if ["-v", "--version"].contains(&first.as_ref()) {
         println!("mofmt, {}", VERSION);
         std::process::exit(0);
-    } else if args[1].as_str() == "--check" {
+    } else if first == "--check" {
         if args.len() < 3 {
             eprintln!("Missing PATHS arguments.\n{}", HELP);
             std::process::exit(1);
         }
         format_files(&args[2..], true);
-    } else if args[1].starts_with('-') {
-        eprintln!("Unrecognized option: '{}'.\n{}", args[1], HELP);
+    } else if first.starts_with('-') {
+        eprintln!("Unrecognized option: '{}'.\n{}", first, HELP);
         std::process::exit(1);
     } else {
         format_files(&args[1..], false);
@@ -44,7 +47,7 @@ fn main() {
 }
 
 /// Format files specified in the argument list
-fn format_files(args: &[String], check: bool) {
+fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut errors = Vec::new();
-- 
2.43.0


From 2bb5e1a15ca0b6d441cff36aeecef931a569003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 12/14] fix: report end of file where an operator is expected
 instead of panicking

---
 src/parser/parsing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/parsing.rs b/src/parser/parsing.rs
index 1dd9428..ec4b312 100644
--- a/src/parser/parsing.rs
+++ b/src/parser/parsing.rs
@@ -163,7 +163,9 @@ impl<'a> Parser<'a> {
 
     /// Advance the parser, consume the token and push it into the events vector
     fn advance(&mut self) {
-        assert!(self.pos < self.tokens.len());
+        if self.pos == self.tokens.len() {
+            return self.error(String::from("unexpected end of file"));
+        }
         self.events.push(SyntaxEvent::Advance);
         self.pos += 1;
         self.lifes.set(100);
-- 
2.43.0


From 793be40ba4b3400cddb6a118c36a18433b250da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:26 +0000
Subject: [PATCH 13/14] fix: keep the source of a file that cannot be rewritten

Writing began with a truncation: if the disk was full (or another limit was
reached) the source was lost.
---
 src/main.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5cee8bf..e7d98cc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
 use std::ffi::OsString;
-use std::io::{stdout, Write};
+use std::io::{stdout, Seek, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs};
 
@@ -93,7 +93,7 @@ fn format_files(args: &[OsString], check: bool) {
                         } else {
                             writeln!(lock, "{}: check passed", name).unwrap();
                         }
-                    } else if let Err(e) = write_file(p, output) {
+                    } else if let Err(e) = write_file(p, &output, &source) {
                         eprintln!("{}: error: {}", name, e);
                         code = 1;
                     }
@@ -156,7 +156,19 @@ fn read_file(from: &Path) -> Result<String, String> {
     }
 }
 
-/// Write formatted code to a file
-fn write_file(to: &Path, code: String) -> Result<(), String> {
-    fs::write(to, code).map_err(|e| e.to_string())
+/// Write formatted code to a file. If that fails (e.g. the disk is full), the
+/// file keeps its `source`.
+fn write_file(to: &Path, code: &str, source: &str) -> Result<(), String> {
+    // Not truncated: what is not overwritten does not have to be restored
+    let mut file = fs::OpenOptions::new().write(true).open(to).map_err(|e| e.to_string())?;
+    let mut replace = |text: &str| {
+        file.rewind()?;
+        let written = file.write_all(text.as_bytes());
+        // Never cuts off more than the text needs
+        written.and_then(|_| file.set_len(text.len() as u64))
+    };
+    replace(code).map_err(|e| {
+        let _ = replace(source);
+        e.to_string()
+    })
 }
-- 
2.43.0


From aaa51fbc2b0f893e1e3478ab17adc2df1bdb4fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 14/14] fix: process all files even if the reports cannot be
 written

A closed pipe or a full disk behind the standard output ended the program
before the remaining files were read.
---
 src/main.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e7d98cc..fc5d608 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use mofmt::{parse, SyntaxKind, pretty_print};
 use std::ffi::OsString;
-use std::io::{stdout, Seek, Write};
+use std::io::{stderr, stdout, Seek, Write};
 use std::path::{Path, PathBuf};
 use std::{env, fs};
 
@@ -51,6 +51,7 @@ fn format_files(args: &[OsString], check: bool) {
     let mut code = 0;
     let mut files = Vec::new();
     let mut errors = Vec::new();
+    // Files are processed even if nobody reads the reports (closed pipe)
     let mut lock = stdout().lock();
     args.iter()
         .map(PathBuf::from)
@@ -63,7 +64,7 @@ fn format_files(args: &[OsString], check: bool) {
         })
         .for_each(|mut v| files.append(&mut v));
     for error in errors {
-        eprintln!("{}", error);
+        let _ = writeln!(stderr(), "{}", error);
         code = 1;
     }
     files.iter().for_each(|p| {
@@ -77,30 +78,29 @@ fn format_files(args: &[OsString], check: bool) {
                     SyntaxKind::StoredDefinition,
                 );
                 if !parsed.errors.is_empty() {
-                    writeln!(
+                    let _ = writeln!(
                         lock,
                         "Syntax errors detected:\n{}",
                         parsed.errors.join("\n")
-                    )
-                    .unwrap();
+                    );
                     code = 1;
                 } else {
                     let output = pretty_print(parsed.tokens, parsed.comments, parsed.events) + EOL;
                     if check {
                         if output != source {
                             code = 1;
-                            writeln!(lock, "{}: check failed", name).unwrap();
+                            let _ = writeln!(lock, "{}: check failed", name);
                         } else {
-                            writeln!(lock, "{}: check passed", name).unwrap();
+                            let _ = writeln!(lock, "{}: check passed", name);
                         }
                     } else if let Err(e) = write_file(p, &output, &source) {
-                        eprintln!("{}: error: {}", name, e);
+                        let _ = writeln!(stderr(), "{}: error: {}", name, e);
                         code = 1;
                     }
                 }
             }
             Err(e) => {
-                eprintln!("{}: error: {}", name, e);
+                let _ = writeln!(stderr(), "{}: error: {}", name, e);
                 code = 1;
             }
         }
-- 
2.43.0

