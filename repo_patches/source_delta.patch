From 5884632fdb51c1246205416ff474414e7b8c53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 01/28] fix: print a port that names neither an id nor a
 compass point as nothing

Printing a NodeId that carries Port(None, None) reached unreachable!().
---
 src/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/printer.rs b/src/printer.rs
index 4903e2e..026b545 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -226,7 +226,7 @@ impl DotPrinter for Port {
             Port(Some(id), Some(d)) => format!(":{}:{}", id.print(ctx), d),
             Port(None, Some(d)) => format!(":{}", d),
             Port(Some(id), None) => format!(":{}", id.print(ctx)),
-            _ => unreachable!(""),
+            Port(None, None) => "".to_string(),
         }
     }
 }
-- 
2.43.0


From f08868c37d358ef04e402a7642eb445b836c8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 02/28] fix: do not panic when printing an edge chain without
 vertices

---
 src/printer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/printer.rs b/src/printer.rs
index 026b545..94d7d84 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -431,7 +431,7 @@ fn print_edge(edge: &Edge, ctx: &mut PrinterContext) -> String {
             attributes,
         } => {
             let mut iter = vs.iter();
-            let h = iter.next().unwrap().print(ctx);
+            let h = iter.next().map(|el| el.print(ctx)).unwrap_or_default();
             let mut chain = h;
             for el in iter {
                 chain = format!("{} {} {}", chain, bond, el.print(ctx))
-- 
2.43.0


From e3c5d7072f12a7386a4866beb5ddf1c26d5b079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 03/28] fix: keep the brackets of an empty graph/node/edge
 attribute statement

A default attribute statement without attributes was printed as the bare
keyword, which is not a statement of the language.
---
 src/printer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/printer.rs b/src/printer.rs
index 94d7d84..86e3722 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -298,6 +298,9 @@ impl DotPrinter for Vec<Attribute> {
 impl DotPrinter for GraphAttributes {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         match self {
+            GraphAttributes::Graph(attrs) if attrs.is_empty() => "graph[]".to_string(),
+            GraphAttributes::Node(attrs) if attrs.is_empty() => "node[]".to_string(),
+            GraphAttributes::Edge(attrs) if attrs.is_empty() => "edge[]".to_string(),
             GraphAttributes::Graph(attrs) => format!("graph{}", attrs.print(ctx)),
             GraphAttributes::Node(attrs) => format!("node{}", attrs.print(ctx)),
             GraphAttributes::Edge(attrs) => format!("edge{}", attrs.print(ctx)),
-- 
2.43.0


From edb27423dfeb33bbc6119b08150df1578e228d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 04/28] fix: separate statements printed on one line

Without a line separator two statements were glued together (`a b` came out
as `ab`) unless the first one happened to end with a delimiter.
---
 src/printer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 86e3722..a3c7f4d 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -391,8 +391,18 @@ impl DotPrinter for Graph {
 
 impl DotPrinter for Vec<Stmt> {
     fn print(&self, ctx: &mut PrinterContext) -> String {
-        let attrs: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
-        attrs.join(ctx.l_s.as_str())
+        let stmts: Vec<String> = self.iter().map(|e| e.print(ctx)).collect();
+        if !ctx.l_s.is_empty() {
+            return stmts.join(ctx.l_s.as_str());
+        }
+        let mut r = String::new();
+        for (i, stmt) in stmts.iter().enumerate() {
+            if i > 0 && !stmts[i - 1].ends_with([']', '}', ';']) {
+                r.push(' ');
+            }
+            r.push_str(stmt);
+        }
+        r
     }
 }
 
-- 
2.43.0


From f5d6654a8ab9ba995b39a54eef94f9c6a2c755ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 05/28] fix: give the indentation back after printing a graph

A context used for a second graph indented it one step deeper each time.
---
 src/printer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index a3c7f4d..67a2df1 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -338,7 +338,7 @@ impl DotPrinter for Graph {
     fn print(&self, ctx: &mut PrinterContext) -> String {
         ctx.indent_grow();
 
-        match self {
+        let r = match self {
             Graph::Graph { id, strict, stmts } if *strict => {
                 ctx.is_digraph = false;
                 let body = stmts.print(ctx);
@@ -385,7 +385,9 @@ impl DotPrinter for Graph {
                     ctx.l_s
                 )
             }
-        }
+        };
+        ctx.indent_shrink();
+        r
     }
 }
 
-- 
2.43.0


From ec8aff8fd3b093465b0d31a4f894decfc960766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 06/28] fix: PrinterContext::new starts in multi-line mode like
 the default context

It stored the given separator as the one of the inline mode, so the indent
step and the inline size it was given had no effect and always_inline did
nothing.
---
 src/printer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/printer.rs b/src/printer.rs
index 67a2df1..1fa230c 100644
--- a/src/printer.rs
+++ b/src/printer.rs
@@ -136,8 +136,8 @@ impl PrinterContext {
             indent_step,
             inline_size,
             l_s: line_s.clone(),
-            l_s_i: line_s,
-            l_s_m: "".to_string(),
+            l_s_i: "".to_string(),
+            l_s_m: line_s,
             attr_value_printers: HashMap::new(),
         }
     }
-- 
2.43.0


From a1510f978e8c34ce2a0c091b2c99f1a19192d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 07/28] fix: pass the path of the temporary file as it is, also
 when it is not UTF-8

---
 src/cmd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 673beae..59eef4b 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -47,6 +47,7 @@
 //! [`dot` command line executable]: https://graphviz.org/doc/info/command.html
 use std::{
     io::{self, ErrorKind, Write},
+    path::Path,
     process::{Command, Output},
 };
 
@@ -56,7 +57,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     let args = args.into_iter().map(|a| a.prepare()).collect();
     temp_file(graph).and_then(|f| {
         let path = f.into_temp_path();
-        do_exec(path.to_string_lossy().to_string(), args).and_then(|o| {
+        do_exec(&path, args).and_then(|o| {
             if o.status.code().map(|c| c != 0).unwrap_or(true) {
                 let mes = String::from_utf8_lossy(&o.stderr).to_string();
                 path.close()?;
@@ -69,7 +70,7 @@ pub(crate) fn exec(graph: String, args: Vec<CommandArg>) -> io::Result<Vec<u8>>
     })
 }
 
-fn do_exec(input: String, args: Vec<String>) -> io::Result<Output> {
+fn do_exec(input: &Path, args: Vec<String>) -> io::Result<Output> {
     let mut command = Command::new("dot");
 
     for arg in args {
-- 
2.43.0


From 9669a345e94a0a79b76cd466ff2f7d43870ad1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 08/28] fix: pass the osage layout and the wbmp format by the
 names Graphviz knows

---
 src/cmd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmd.rs b/src/cmd.rs
index 59eef4b..5033f95 100644
--- a/src/cmd.rs
+++ b/src/cmd.rs
@@ -123,7 +123,13 @@ impl CommandArg {
         match self {
             CommandArg::Custom(s) => s.clone(),
             CommandArg::Output(p) => format!("-o{}", p),
-            CommandArg::Layout(l) => format!("-K{}", format!("{:?}", l).to_lowercase()),
+            CommandArg::Layout(l) => {
+                let str = match l {
+                    Layout::Asage => "osage".to_string(),
+                    _ => format!("{:?}", l).to_lowercase(),
+                };
+                format!("-K{}", str)
+            }
             CommandArg::Format(f) => {
                 let str = match f {
                     Format::Xdot12 => "xdot1.2".to_string(),
@@ -133,6 +139,7 @@ impl CommandArg {
                     Format::DotJson => "dot_json".to_string(),
                     Format::XdotJson => "xdot_json".to_string(),
                     Format::PlainExt => "plain-ext".to_string(),
+                    Format::Vbmp => "wbmp".to_string(),
                     _ => format!("{:?}", f).to_lowercase(),
                 };
                 format!("-T{}", str)
-- 
2.43.0


From bb9b000616ea50c0f3c1771448da1c0bf2968fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:56 +0000
Subject: [PATCH 09/28] fix: a compass point is the whole word after the colon

`a:p:ne` was read as the port p:n followed by a node e.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2226670..02cb325 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -14,7 +14,7 @@ html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-compass = ${"n" | "ne" | "e" | "se" | "s" | "sw" | "w" | "nw" | "c" | "_"}
+compass = ${("ne" | "nw" | "n" | "se" | "sw" | "s" | "e" | "w" | "c" | "_") ~ !(word | ASCII_DIGIT)}
 
 port = {":" ~ id ~ (":" ~ compass)? }
 id = {plain | html | string_qt}
-- 
2.43.0


From fb7973c2ae768426e4c9443023e8940b9d2dec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 10/28] fix: numerals may have leading zeros and end in a point

`a=007` was read as a=0 followed by the nodes 0 and 7, `a=1.` was rejected.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 02cb325..2b22e88 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -8,7 +8,7 @@ char = {
 }
 
 inner = ${ char* }
-number = ${"-"? ~ (("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) ~ ("." ~ ASCII_DIGIT+)? | ("." ~ ASCII_DIGIT+))}
+number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | "." ~ ASCII_DIGIT+)}
 string_qt = ${ "\"" ~ inner ~ "\"" }
 html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
-- 
2.43.0


From c4b50b82aec7ad8b359c52c284bbf5169a0c0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 11/28] fix: an HTML string ends at the angle bracket that
 matches its first

Only strings that end in two closing brackets were accepted, and text up to
the next such pair was taken into the string.
---
 src/grammar/dot.pest | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 2b22e88..9b7689e 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -10,7 +10,9 @@ char = {
 inner = ${ char* }
 number = ${"-"? ~ (ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT*)? | "." ~ ASCII_DIGIT+)}
 string_qt = ${ "\"" ~ inner ~ "\"" }
-html = ${"<" ~ (!(">" ~ WHITESPACE* ~">") ~ ANY)+ ~ ">" ~ WHITESPACE* ~ ">"}
+html_inner = _{ (html_tag | !("<" | ">") ~ ANY)* }
+html_tag = _{ "<" ~ html_inner ~ ">" }
+html = ${ "<" ~ html_inner ~ ">" }
 plain = ${(word ~ (word | ASCII_DIGIT)*) | number}
 
 
-- 
2.43.0


From 7d10c336201f30498725db338f9625a151569347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 12/28] fix: a subgraph can be the first end of an edge
 statement

`subgraph a {x} -> b` was rejected.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 9b7689e..e3c8307 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -33,7 +33,7 @@ edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
 subgraph = {"subgraph" ~ id? ~ body}
-stmt = {attr_stmt | subgraph | bare_attr | edge_stmt | node }
+stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = {"strict"}
 graph_ty = {"graph" | "digraph"}
-- 
2.43.0


From cf9e8678884611487a4614d95b8173f4f38d58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 13/28] fix: the keyword of an anonymous subgraph may be left
 out

`a -> {b c}` was rejected.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index e3c8307..50f010e 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -32,7 +32,7 @@ edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {"subgraph" ~ id? ~ body}
+subgraph = {("subgraph" ~ id?)? ~ body}
 stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = {"strict"}
-- 
2.43.0


From 71153db866bbf5b1665761f3c8e8bf20c2833bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 14/28] fix: ids may contain letters outside of ASCII

The language allows them in ids that are not quoted.
---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 50f010e..1d7313a 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,6 +1,6 @@
 WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
-word = _{ ('a'..'z' | 'A'..'Z' | "_")+ }
+word = _{ ('a'..'z' | 'A'..'Z' | "_" | '\u{80}'..'\u{10FFFF}')+ }
 arr = _{"->" | "--"}
 char = {
     !("\"" | "\\") ~ ANY
-- 
2.43.0


From c30a64ebcb4a2ad475467e201d6569a4f8eb6252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 15/28] fix: a carriage return alone is white space

---
 src/grammar/dot.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index 1d7313a..a41ad75 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -1,4 +1,4 @@
-WHITESPACE = _{ " " | "\t" | "\r\n" | "\n" }
+WHITESPACE = _{ " " | "\t" | "\r" | "\n" }
 COMMENT    = _{("/*" ~ (!"*/" ~ ANY)* ~ "*/") | (("#" | "//") ~ (!NEWLINE ~ ANY)* ~ NEWLINE?) }
 word = _{ ('a'..'z' | 'A'..'Z' | "_" | '\u{80}'..'\u{10FFFF}')+ }
 arr = _{"->" | "--"}
-- 
2.43.0


From 205e52a589b903c8ef46b100ce40a519fbbcd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 16/28] fix: a keyword ends where its word ends

`strictgraph {}`, `graphx {}` and `subgraphx {}` were accepted.
---
 src/grammar/dot.pest | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index a41ad75..ce89fd4 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -25,17 +25,18 @@ attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
 node = {node_id ~ attr_list*}
 
-attr_mark = {"graph" | "node" | "edge"}
+attr_mark = ${("graph" | "node" | "edge") ~ !(word | ASCII_DIGIT)}
 attr_stmt = {attr_mark ~ attr_list}
 bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph = {("subgraph" ~ id?)? ~ body}
+subgraph_mark = ${"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph = {(&subgraph_mark ~ "subgraph" ~ id?)? ~ body}
 stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = {"strict"}
-graph_ty = {"graph" | "digraph"}
+strict = ${"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = ${("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
-- 
2.43.0


From 1f6d05e427ce4c32b1943c59d51e81c3d491a833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 17/28] fix: keywords are case-independent

`DIGRAPH {}` was rejected and `Node [a=b]` was read as a node of that name.
---
 src/grammar/dot.pest | 10 +++++-----
 src/parser.rs        |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index ce89fd4..fbc53fb 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -25,18 +25,18 @@ attr = {bare_attr ~ (";" |",")?}
 attr_list = {("[" ~ attr* ~ "]")+}
 node = {node_id ~ attr_list*}
 
-attr_mark = ${("graph" | "node" | "edge") ~ !(word | ASCII_DIGIT)}
+attr_mark = ${(^"graph" | ^"node" | ^"edge") ~ !(word | ASCII_DIGIT)}
 attr_stmt = {attr_mark ~ attr_list}
 bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
 vertex = { subgraph | node_id }
-subgraph_mark = ${"subgraph" ~ !(word | ASCII_DIGIT)}
-subgraph = {(&subgraph_mark ~ "subgraph" ~ id?)? ~ body}
+subgraph_mark = ${^"subgraph" ~ !(word | ASCII_DIGIT)}
+subgraph = {(&subgraph_mark ~ ^"subgraph" ~ id?)? ~ body}
 stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
-strict = ${"strict" ~ !(word | ASCII_DIGIT)}
-graph_ty = ${("graph" | "digraph") ~ !(word | ASCII_DIGIT)}
+strict = ${^"strict" ~ !(word | ASCII_DIGIT)}
+graph_ty = ${(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
 graph = {strict? ~ graph_ty ~ id? ~ body}
 file = {SOI ~ graph ~ EOI }
\ No newline at end of file
diff --git a/src/parser.rs b/src/parser.rs
index c7e08a1..0699025 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -210,7 +210,7 @@ fn process_graph(rule: Pair<Rule>) -> Graph {
         _ => false,
     };
 
-    let is_di = matches!(graph_r.next().map(|r| r.as_str()), Some("digraph"));
+    let is_di = matches!(graph_r.next(), Some(r) if r.as_str().eq_ignore_ascii_case("digraph"));
 
     let id = match graph_r.peek().map(|r| r.as_rule()) {
         Some(Rule::id) => process_id(graph_r.next().unwrap()),
-- 
2.43.0


From c31a12083ad820b3df6fb5ea405cb5bb3f3f3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 18/28] fix: graph!(di id) takes the id as it is, like the
 other forms

---
 dot-generator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 0dcb7bf..a431c56 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -687,10 +687,10 @@ macro_rules! graph {
         Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: true, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
-        Graph::DiGraph { id: id!($id), strict: false, stmts: vec![] }
+        Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
     (strict $id:expr, $stmts:expr) => {
         Graph::Graph { id: $id, strict: true, stmts: $stmts }
-- 
2.43.0


From 3a4e80ead82fb3892d32250462b50281fbd0ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 19/28] fix: edge! accepts a chain with a vec of attributes

---
 dot-generator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index a431c56..275fdcb 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -576,7 +576,7 @@ macro_rules! edge {
     }};
     ($l:expr => $r:expr $(=> $nexts:expr)+ , $attrs:expr) => {{
 
-         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)]
+         let mut edges_vec = vec![Vertex::from($l),Vertex::from($r)];
          $( edges_vec.push(Vertex::from($nexts)) ; )+
 
         Edge{ ty: EdgeTy::Chain(edges_vec), attributes: $attrs }
-- 
2.43.0


From 0f9246a5ee91f551beb413bdb08e101338478ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 20/28] fix: node! accepts a port without attributes

---
 dot-generator/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 275fdcb..2f0a49a 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -469,6 +469,12 @@ macro_rules! node {
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!( $id), None), attrs)
     }};
+    ($i:ident $id:expr => $p:expr) => {
+        Node::new(NodeId(id!($i$id), Some($p)), vec![])
+    };
+    ($id:expr => $p:expr) => {
+        Node::new(NodeId(id!($id), Some($p)), vec![])
+    };
     ($i:ident $id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!($i$id), Some($p)), $attrs)
     };
-- 
2.43.0


From 70f15c7e3659bfa372ce8b93b30c23985b287b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 21/28] fix: macros accept expressions that start with a name,
 as in attr!("k", f(x))

---
 dot-generator/src/lib.rs | 92 +++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 29 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 2f0a49a..21de4a6 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -130,10 +130,12 @@ macro_rules! port {
 #[macro_export]
 macro_rules! node_id {
     () => {  NodeId(id!(),None) };
+    (html $e:expr) => { NodeId(id!(html $e),None) };
+    (esc $e:expr) => { NodeId(id!(esc $e),None) };
+    (html $e:expr, $p:expr) => { NodeId(id!(html $e),Some($p)) };
+    (esc $e:expr, $p:expr) => { NodeId(id!(esc $e),Some($p)) };
     ($e:expr) => { NodeId(id!($e),None) };
     ($e:expr, $p:expr) => { NodeId(id!($e),Some($p)) };
-    ($i:ident $e:expr) => { NodeId(id!($i$e),None) };
-    ($i:ident $e:expr, $p:expr) => { NodeId(id!($i$e),Some($p)) };
 }
 
 /// Constructs an id for node or subgraph.
@@ -192,10 +194,15 @@ macro_rules! id {
 /// ```
 #[macro_export]
 macro_rules! attr {
-    ($ik:ident $k:expr,$iv:ident $v:expr) => {Attribute(id!($ik $k),id!($iv $v))};
-    ($ik:ident $k:expr,$v:expr) => {Attribute(id!($ik $k),id!($v))};
-    ($k:expr, $iv:ident $v:expr) => {Attribute(id!($k),id!($iv $v))};
-    ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))}
+    (html $k:expr,html $v:expr) => {Attribute(id!(html $k),id!(html $v))};
+    (html $k:expr,esc $v:expr) => {Attribute(id!(html $k),id!(esc $v))};
+    (esc $k:expr,html $v:expr) => {Attribute(id!(esc $k),id!(html $v))};
+    (esc $k:expr,esc $v:expr) => {Attribute(id!(esc $k),id!(esc $v))};
+    (html $k:expr,$v:expr) => {Attribute(id!(html $k),id!($v))};
+    (esc $k:expr,$v:expr) => {Attribute(id!(esc $k),id!($v))};
+    ($k:expr, html $v:expr) => {Attribute(id!($k),id!(html $v))};
+    ($k:expr, esc $v:expr) => {Attribute(id!($k),id!(esc $v))};
+    ($k:expr,$v:expr) => {Attribute(id!($k),id!($v))};
 }
 
 
@@ -315,15 +322,22 @@ macro_rules! stmt {
 #[macro_export]
 macro_rules! subgraph {
     () => {Subgraph{id:id!(),stmts:vec![]}};
-    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
-    ($i:ident $id:expr) => {Subgraph{id:id!($i$id),stmts:vec![]}};
-    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
-    ($i:ident $id:expr, $stmts:expr) => {Subgraph{id:id!($i$id),stmts:$stmts}};
-    ($i:ident $id:expr; $($stmts:expr),+ ) => {{
+    (html $id:expr) => {Subgraph{id:id!(html $id),stmts:vec![]}};
+    (esc $id:expr) => {Subgraph{id:id!(esc $id),stmts:vec![]}};
+    (html $id:expr, $stmts:expr) => {Subgraph{id:id!(html $id),stmts:$stmts}};
+    (esc $id:expr, $stmts:expr) => {Subgraph{id:id!(esc $id),stmts:$stmts}};
+    (html $id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
-        Subgraph{id:id!($i$id),stmts:stmts_vec}
+        Subgraph{id:id!(html $id),stmts:stmts_vec}
     }};
+    (esc $id:expr; $($stmts:expr),+ ) => {{
+        let mut stmts_vec = Vec::new();
+        $( stmts_vec.push(stmt!($stmts)) ; )+
+        Subgraph{id:id!(esc $id),stmts:stmts_vec}
+    }};
+    ($id:expr) => {Subgraph{id:id!($id),stmts:vec![]}};
+    ($id:expr, $stmts:expr) => {Subgraph{id:id!($id),stmts:$stmts}};
     ($id:expr; $($stmts:expr),+ ) => {{
         let mut stmts_vec = Vec::new();
         $( stmts_vec.push(stmt!($stmts)) ; )+
@@ -451,16 +465,47 @@ macro_rules! attrs {
 #[macro_export]
 macro_rules! node {
     () => {Node::new(NodeId(id!(), None), vec![])};
-    ($i:ident $id:expr) => {Node::new(NodeId(id!($i$id), None), vec![])};
-    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
-    ($i:ident $id:expr; $($attr:expr),+ ) => {{
+    (html $id:expr) => {Node::new(NodeId(id!(html $id), None), vec![])};
+    (esc $id:expr) => {Node::new(NodeId(id!(esc $id), None), vec![])};
+    (html $id:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+        $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(html $id), None), attrs)
+    }};
+    (esc $id:expr; $($attr:expr),+ ) => {{
         let mut attrs = Vec::new();
         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), None), attrs)
+        Node::new(NodeId(id!(esc $id), None), attrs)
     }};
-     ($i:ident $id:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), None), $attrs)
+     (html $id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(html $id), None), $attrs)
+    };
+     (esc $id:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(esc $id), None), $attrs)
+    };
+    (html $id:expr => $p:expr) => {
+        Node::new(NodeId(id!(html $id), Some($p)), vec![])
+    };
+    (esc $id:expr => $p:expr) => {
+        Node::new(NodeId(id!(esc $id), Some($p)), vec![])
     };
+    (html $id:expr => $p:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(html $id), Some($p)), $attrs)
+    };
+    (esc $id:expr => $p:expr, $attrs:expr  ) => {
+        Node::new(NodeId(id!(esc $id), Some($p)), $attrs)
+    };
+    (html $id:expr => $p:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+         $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(html $id), Some($p)), attrs)
+    }};
+    (esc $id:expr => $p:expr; $($attr:expr),+ ) => {{
+        let mut attrs = Vec::new();
+         $( attrs.push($attr) ; )+
+        Node::new(NodeId(id!(esc $id), Some($p)), attrs)
+    }};
+    ($id:expr) => {Node::new(NodeId(id!($id), None), vec![])};
     ($id:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!($id), None), $attrs)
     };
@@ -469,20 +514,9 @@ macro_rules! node {
         $( attrs.push($attr) ; )+
         Node::new(NodeId(id!( $id), None), attrs)
     }};
-    ($i:ident $id:expr => $p:expr) => {
-        Node::new(NodeId(id!($i$id), Some($p)), vec![])
-    };
     ($id:expr => $p:expr) => {
         Node::new(NodeId(id!($id), Some($p)), vec![])
     };
-    ($i:ident $id:expr => $p:expr, $attrs:expr  ) => {
-        Node::new(NodeId(id!($i$id), Some($p)), $attrs)
-    };
-    ($i:ident $id:expr => $p:expr; $($attr:expr),+ ) => {{
-        let mut attrs = Vec::new();
-         $( attrs.push($attr) ; )+
-        Node::new(NodeId(id!($i$id), Some($p)), attrs)
-    }};
     ( $id:expr => $p:expr, $attrs:expr  ) => {
         Node::new(NodeId(id!($id), Some($p)), $attrs)
     };
-- 
2.43.0


From 42ad0b27beac70d78aa7814560fe239f237ea459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:56 +0000
Subject: [PATCH 22/28] fix: graph! accepts an id in parentheses after di

---
 dot-generator/src/lib.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/dot-generator/src/lib.rs b/dot-generator/src/lib.rs
index 21de4a6..e428bc1 100644
--- a/dot-generator/src/lib.rs
+++ b/dot-generator/src/lib.rs
@@ -720,23 +720,17 @@ macro_rules! edge {
 /// ```
 #[macro_export]
 macro_rules! graph {
-    (strict $id:expr) => {
-        Graph::Graph { id: $id, strict: true, stmts: vec![] }
-    };
-    ($id:expr) => {
-        Graph::Graph { id: $id, strict: false, stmts: vec![] }
-    };
     (strict di $id:expr) => {
         Graph::DiGraph { id: $id, strict: true, stmts: vec![] }
     };
     (di $id:expr) => {
         Graph::DiGraph { id: $id, strict: false, stmts: vec![] }
     };
-    (strict $id:expr, $stmts:expr) => {
-        Graph::Graph { id: $id, strict: true, stmts: $stmts }
+    (strict $id:expr) => {
+        Graph::Graph { id: $id, strict: true, stmts: vec![] }
     };
-    ($id:expr, $stmts:expr) => {
-        Graph::Graph { id: $id, strict: false, stmts: $stmts }
+    ($id:expr) => {
+        Graph::Graph { id: $id, strict: false, stmts: vec![] }
     };
     (strict di $id:expr, $stmts:expr) => {
         Graph::DiGraph { id: $id, strict: true, stmts: $stmts }
@@ -744,26 +738,32 @@ macro_rules! graph {
     (di $id:expr, $stmts:expr) => {
         Graph::DiGraph { id: $id, strict: false, stmts: $stmts }
     };
+    (strict $id:expr, $stmts:expr) => {
+        Graph::Graph { id: $id, strict: true, stmts: $stmts }
+    };
+    ($id:expr, $stmts:expr) => {
+        Graph::Graph { id: $id, strict: false, stmts: $stmts }
+    };
 
-    (strict $id:expr; $($stmts:expr),+) => {{
+    (strict di $id:expr; $($stmts:expr),+) => {{
          let mut stmts = vec![];
          $( stmts.push(stmt!($stmts)) ; )+
-        Graph::Graph { id: $id, strict: true, stmts: stmts }
+         Graph::DiGraph { id: $id, strict: true, stmts: stmts }
     }};
-    ($id:expr; $($stmts:expr),+) => {{
+    (di $id:expr; $($stmts:expr),+) => {{
          let mut stmts = vec![];
          $( stmts.push(stmt!($stmts)) ; )+
-        Graph::Graph { id: $id, strict: false, stmts: stmts }
+         Graph::DiGraph { id: $id, strict: false, stmts: stmts }
     }};
-    (strict di $id:expr; $($stmts:expr),+) => {{
+    (strict $id:expr; $($stmts:expr),+) => {{
          let mut stmts = vec![];
          $( stmts.push(stmt!($stmts)) ; )+
-         Graph::DiGraph { id: $id, strict: true, stmts: stmts }
+        Graph::Graph { id: $id, strict: true, stmts: stmts }
     }};
-    (di $id:expr; $($stmts:expr),+) => {{
+    ($id:expr; $($stmts:expr),+) => {{
          let mut stmts = vec![];
          $( stmts.push(stmt!($stmts)) ; )+
-         Graph::DiGraph { id: $id, strict: false, stmts: stmts }
+        Graph::Graph { id: $id, strict: false, stmts: stmts }
     }};
 
 }
-- 
2.43.0


From ed0223eea132794c3dbff6f3ea347aace6cf3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 23/28] fix: the attribute edgehref has its own name

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 16819f2..dcaff60 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -72,7 +72,7 @@ generate_attr!(enum dir for EdgeAttributes; forward,back,both,none; forward);
 generate_attr!(struct diredgeconstraints for GraphAttributes; bool; false);
 generate_attr!(struct distortion for NodeAttributes; f32; 0.0);
 generate_attr!(struct dpi for GraphAttributes; f32; 96.0);
-generate_attr!(struct dedgehrefpi for EdgeAttributes; String);
+generate_attr!(struct edgehref for EdgeAttributes; String);
 generate_attr!(struct edgetarget for EdgeAttributes; String );
 generate_attr!(struct edgetooltip for EdgeAttributes; String );
 generate_attr!(struct edgeURL for EdgeAttributes; String );
-- 
2.43.0


From f32e3f6413cbc4c636a4b5b2fe46cbe116f86d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 24/28] fix: the default of arrowsize is 1

---
 src/attributes/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index dcaff60..11b200f 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -52,7 +52,7 @@ generate_attr!(enum arrowtail for EdgeAttributes;
     normal
     //endregion
 );
-generate_attr!(struct arrowsize for EdgeAttributes; f32; 0.0);
+generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
 generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-- 
2.43.0


From 268792d9dd270dad14d24e01109133fadf6e6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 25/28] fix: the defaults of text attributes are DOT
 identifiers

---
 src/attributes/mod.rs | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 11b200f..0c34529 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -55,10 +55,10 @@ generate_attr!(enum arrowtail for EdgeAttributes;
 generate_attr!(struct arrowsize for EdgeAttributes; f32; 1.0);
 generate_attr!(struct bb for GraphAttributes; String);
 generate_attr!(struct center for GraphAttributes; bool;false);
-generate_attr!(struct charset for GraphAttributes; String;"UTF-8".to_string());
-generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"".to_string());
-generate_attr!(struct colorscheme for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"".to_string());
-generate_attr!(struct comment for GraphAttributes,NodeAttributes,EdgeAttributes;String;"".to_string());
+generate_attr!(struct charset for GraphAttributes; String;"\"UTF-8\"".to_string());
+generate_attr!(struct class for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\"\"".to_string());
+generate_attr!(struct colorscheme for GraphAttributes,NodeAttributes,EdgeAttributes,SubgraphAttributes;String;"\"\"".to_string());
+generate_attr!(struct comment for GraphAttributes,NodeAttributes,EdgeAttributes;String;"\"\"".to_string());
 generate_attr!(struct compound for GraphAttributes;bool;false);
 generate_attr!(struct concentrate for GraphAttributes;bool;false);
 generate_attr!(struct Damping for GraphAttributes;f32;0.99);
@@ -79,37 +79,37 @@ generate_attr!(struct edgeURL for EdgeAttributes; String );
 generate_attr!(struct epsilon for GraphAttributes; f32);
 generate_attr!(struct esep for GraphAttributes; f32;3.0);
 generate_attr!(struct fixedsize for NodeAttributes; bool;false);
-generate_attr!(struct fontname for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"Times-Roman".to_string());
-generate_attr!(struct href for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
-generate_attr!(struct id for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
+generate_attr!(struct fontname for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"Times-Roman\"".to_string());
+generate_attr!(struct href for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
+generate_attr!(struct id for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct fontsize for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; f32;14.0);
-generate_attr!(struct fontnames for GraphAttributes; String;"".to_string());
+generate_attr!(struct fontnames for GraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct fontpath for GraphAttributes; String;"<system-dependent>".to_string());
 generate_attr!(struct forcelabels for GraphAttributes; bool;true);
 generate_attr!(struct gradientangle for NodeAttributes,GraphAttributes,SubgraphAttributes; i32);
 generate_attr!(struct group for NodeAttributes; String);
 generate_attr!(struct head_lp for EdgeAttributes; String);
 generate_attr!(struct headclip for EdgeAttributes; bool;true);
-generate_attr!(struct headhref for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headlabel for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headtarget for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headtooltip for EdgeAttributes; String;"".to_string());
-generate_attr!(struct headURL for EdgeAttributes; String;"".to_string());
+generate_attr!(struct headhref for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headlabel for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headtarget for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headtooltip for EdgeAttributes; String;"\"\"".to_string());
+generate_attr!(struct headURL for EdgeAttributes; String;"\"\"".to_string());
 generate_attr!(struct height for NodeAttributes; f32;0.5);
-generate_attr!(struct image for NodeAttributes; String;"".to_string());
+generate_attr!(struct image for NodeAttributes; String;"\"\"".to_string());
 generate_attr!(struct imagepos for NodeAttributes; String;"mc".to_string());
 generate_attr!(struct imagescale for NodeAttributes; bool;false);
-generate_attr!(struct imagepath for GraphAttributes; String;"".to_string());
+generate_attr!(struct imagepath for GraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct inputscale for GraphAttributes; f32);
 generate_attr!(struct K for GraphAttributes,SubgraphAttributes; f32;0.3);
-generate_attr!(struct label for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"".to_string());
+generate_attr!(struct label for NodeAttributes,GraphAttributes,EdgeAttributes,SubgraphAttributes; String;"\"\"".to_string());
 generate_attr!(struct label_scheme for  GraphAttributes; i32;0);
 generate_attr!(struct labelangle for  EdgeAttributes; f32;-25.0);
 generate_attr!(struct labeldistance for  EdgeAttributes; f32;1.0);
 generate_attr!(struct labelfloat for  EdgeAttributes; bool;false);
-generate_attr!(struct labelfontname for  EdgeAttributes; String;"Times-Roman".to_string());
+generate_attr!(struct labelfontname for  EdgeAttributes; String;"\"Times-Roman\"".to_string());
 generate_attr!(struct labelfontsize for  EdgeAttributes; f32;14.0);
-generate_attr!(struct labelhref for  EdgeAttributes; String;"".to_string());
+generate_attr!(struct labelhref for  EdgeAttributes; String;"\"\"".to_string());
 generate_attr!(struct labeljust for  GraphAttributes,SubgraphAttributes; String;"c".to_string());
 generate_attr!(struct labelloc for  GraphAttributes,SubgraphAttributes,NodeAttributes; String);
 generate_attr!(struct labeltarget for EdgeAttributes; String);
@@ -117,10 +117,10 @@ generate_attr!(struct labeltooltip for EdgeAttributes; String);
 generate_attr!(struct labelURL for EdgeAttributes; String);
 generate_attr!(struct landscape for GraphAttributes; bool;false);
 generate_attr!(struct layer for EdgeAttributes,NodeAttributes,SubgraphAttributes; String);
-generate_attr!(struct layerlistsep for GraphAttributes; String;",".to_string());
+generate_attr!(struct layerlistsep for GraphAttributes; String;"\",\"".to_string());
 generate_attr!(struct layers for GraphAttributes; String);
 generate_attr!(struct layerselect for GraphAttributes; String);
-generate_attr!(struct layersep for GraphAttributes; String;":\t ".to_string());
+generate_attr!(struct layersep for GraphAttributes; String;"\":\t \"".to_string());
 generate_attr!(struct layout for GraphAttributes; String);
 generate_attr!(struct len for EdgeAttributes; f32);
 generate_attr!(struct levels for GraphAttributes; i32);
-- 
2.43.0


From 83a979d0ae62bdea3dd106105affbb990151e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 26/28] fix: the derive names an attribute without the r# of a
 raw type name

---
 into-attr-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/into-attr-derive/src/lib.rs b/into-attr-derive/src/lib.rs
index 252b1fe..9f78543 100644
--- a/into-attr-derive/src/lib.rs
+++ b/into-attr-derive/src/lib.rs
@@ -5,7 +5,7 @@ use dot_generator::attr;
 use into_attr::IntoAttribute;
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{self, Data};
+use syn::{self, ext::IdentExt, Data};
 
 #[proc_macro_derive(IntoAttribute)]
 pub fn into_attr_derive(input: TokenStream) -> TokenStream {
@@ -15,7 +15,7 @@ pub fn into_attr_derive(input: TokenStream) -> TokenStream {
 
 fn impl_into_attr_macro(ast: &syn::DeriveInput) -> TokenStream {
     let name = &ast.ident;
-    let name_str = name.to_string();
+    let name_str = name.unraw().to_string();
     let gen = match &ast.data {
         Data::Enum(de) => {
             quote! {
-- 
2.43.0


From 2446aaa92e9c64452e73a87f6ea0b0318bc41a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 27/28] fix: the values of packmode are quoted, two of them are
 keywords of DOT

---
 src/attributes/mod.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/attributes/mod.rs b/src/attributes/mod.rs
index 0c34529..d6498ff 100644
--- a/src/attributes/mod.rs
+++ b/src/attributes/mod.rs
@@ -154,7 +154,30 @@ generate_attr!(struct pack for GraphAttributes; bool;false);
 generate_attr!(struct overlap_scaling for GraphAttributes; f32;-4.);
 generate_attr!(struct pad for GraphAttributes; f32;0.0555);
 generate_attr!(struct page for GraphAttributes; f32);
-generate_attr!(enum packmode for GraphAttributes; node,clust,graph,array;node);
+/// `node` and `graph` are keywords of DOT, so that the value has to be quoted
+#[derive(Debug, PartialEq)]
+pub enum packmode {
+    node,
+    clust,
+    graph,
+    array,
+}
+impl Default for packmode {
+    fn default() -> Self {
+        packmode::node
+    }
+}
+impl IntoAttribute for packmode {
+    fn into_attr(self) -> Attribute {
+        let quoted = format!("\"{:?}\"", self);
+        attr!("packmode", quoted)
+    }
+}
+impl GraphAttributes {
+    pub fn packmode(elem: packmode) -> Attribute {
+        elem.into_attr()
+    }
+}
 generate_attr!(enum pagedir for GraphAttributes; BL,BR,TL,TR,RB,RT,LB,LT;BL);
 generate_attr!(struct penwidth for SubgraphAttributes,NodeAttributes,EdgeAttributes; f32;1.);
 generate_attr!(struct peripheries for SubgraphAttributes,NodeAttributes; i32);
-- 
2.43.0


From 1fae62ddf45bf7a5161555f35833e6aeca6ab0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 28/28] fix: a nested block is read once, not once for every
 way to read a statement

---
 src/grammar/dot.pest |  7 +++++--
 src/parser.rs        | 40 ++++++++++++++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/grammar/dot.pest b/src/grammar/dot.pest
index fbc53fb..417bc0f 100644
--- a/src/grammar/dot.pest
+++ b/src/grammar/dot.pest
@@ -31,10 +31,13 @@ bare_attr = {id ~ "=" ~ id}
 edge_tail = {arr ~ vertex}
 edge = {vertex ~ edge_tail+}
 edge_stmt = {edge ~ attr_list?}
-vertex = { subgraph | node_id }
+edge_rest = {edge_tail+ ~ attr_list?}
+vertex = { &block_start ~ subgraph | !block_start ~ node_id }
 subgraph_mark = ${^"subgraph" ~ !(word | ASCII_DIGIT)}
+block_start = _{(subgraph_mark ~ id?)? ~ "{"}
 subgraph = {(&subgraph_mark ~ ^"subgraph" ~ id?)? ~ body}
-stmt = {attr_stmt | subgraph ~ !arr | bare_attr | edge_stmt | node }
+// a block is long to read: it is read only once, whatever follows it
+stmt = {attr_stmt | &block_start ~ subgraph ~ edge_rest? | !block_start ~ (bare_attr | edge_stmt | node) }
 body = {"{" ~ (stmt ~ ";"?)* ~"}"}
 strict = ${^"strict" ~ !(word | ASCII_DIGIT)}
 graph_ty = ${(^"graph" | ^"digraph") ~ !(word | ASCII_DIGIT)}
diff --git a/src/parser.rs b/src/parser.rs
index 0699025..f464131 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -157,16 +157,33 @@ fn process_edge(rule: Pair<Rule>) -> Vec<Vertex> {
     chain
 }
 
-fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
-    let mut edge_r = rule.into_inner();
-    let edges = process_edge(edge_r.next().unwrap());
-
-    let ty = if edges.len() > 2 {
+fn process_edge_ty(edges: Vec<Vertex>) -> EdgeTy {
+    if edges.len() > 2 {
         EdgeTy::Chain(edges)
     } else {
         let mut edge_iter = edges.into_iter();
         EdgeTy::Pair(edge_iter.next().unwrap(), edge_iter.next().unwrap())
-    };
+    }
+}
+
+fn process_edge_rest(first: Vertex, rest: Pair<Rule>) -> Edge {
+    let mut edges = vec![first];
+    let mut attributes = vec![];
+    for r in rest.into_inner() {
+        match r.as_rule() {
+            Rule::edge_tail => edges.push(process_vertex(down(r))),
+            _ => attributes = process_attr_list(r),
+        }
+    }
+    Edge {
+        ty: process_edge_ty(edges),
+        attributes,
+    }
+}
+
+fn process_edge_stmt(rule: Pair<Rule>) -> Edge {
+    let mut edge_r = rule.into_inner();
+    let ty = process_edge_ty(process_edge(edge_r.next().unwrap()));
 
     if let Some(attr_r) = edge_r.next() {
         Edge {
@@ -189,10 +206,17 @@ fn process_attr_stmt(rule: Pair<Rule>) -> GraphAttributes {
 }
 
 fn process_stmt(rule: Pair<Rule>) -> Stmt {
-    let stmt_r = down(rule);
+    let mut rule_r = rule.into_inner();
+    let stmt_r = rule_r.next().unwrap();
     match stmt_r.as_rule() {
         Rule::attr_stmt => Stmt::GAttribute(process_attr_stmt(stmt_r)),
-        Rule::subgraph => Stmt::Subgraph(process_subgraph(stmt_r)),
+        Rule::subgraph => {
+            let subgraph = process_subgraph(stmt_r);
+            match rule_r.next() {
+                Some(rest) => Stmt::Edge(process_edge_rest(Vertex::S(subgraph), rest)),
+                None => Stmt::Subgraph(subgraph),
+            }
+        }
         Rule::node => Stmt::Node(process_node(stmt_r)),
         Rule::bare_attr => Stmt::Attribute(process_bare_attr(stmt_r)),
         Rule::edge_stmt => Stmt::Edge(process_edge_stmt(stmt_r)),
-- 
2.43.0

