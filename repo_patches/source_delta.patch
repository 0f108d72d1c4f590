From 95ba5f4b044525380cfeb97ec477ab9c52428623 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 01/11] fix: don't read past the end of the path after a
 one-character prefix

With a one-character literal beside a parameter the generated matcher tested
'i <= len' before slicing path[i..i+1], so a request ending right there
panicked instead of being matched against the parameter.
---
 wayfinder/src/gen/gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 2cc4dc6..fa8a0c7 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -638,7 +638,7 @@ where
         );
 
         if match_len == 1 {
-            writeln!(w, "{}if i <= len {{", indent1)?;
+            writeln!(w, "{}if i < len {{", indent1)?;
         } else {
             writeln!(w, "{}if i + {} <= len {{", indent1, match_len)?;
         }
-- 
2.43.0


From 2116f85dea62fa69830f80d761ff29217c89176a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 02/11] fix: generate the branch for a literal that is a prefix
 of its sibling

Where one literal segment is a prefix of another ('user' and 'users') the
end of the shorter one was emitted as 'Some('/') => {}', which does not
compile, and the shorter route was never generated.  Emit it like any other
branch, and match its resources where the path ends.
---
 wayfinder/src/gen/gen.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index fa8a0c7..1340c9d 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -665,9 +665,19 @@ where
     }
 
     // n.b. if we got here, the next character is ambiguous
-    writeln!(w, "{}if i == len {{", indent1)?;
-    writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
-    writeln!(w, "{}}}", indent1)?;
+
+    // one of the options may be that the path ends here
+    let end = trie.children.iter().find(|c| c.0 == Charlike::Separator);
+    match end.and_then(|c| c.1.data.as_ref()) {
+        Some(ref route) if route.resources.len() != 0 => {
+            write_methods(w, route, indent)?;
+        }
+        _ => {
+            writeln!(w, "{}if i == len {{", indent1)?;
+            writeln!(w, "{}    return Ok(Match::NotFound);", indent1)?;
+            writeln!(w, "{}}}", indent1)?;
+        }
+    }
 
     writeln!(w, "{}match &path[i..i+1] {{", indent1)?;
 
@@ -689,7 +699,12 @@ where
                 break;
             }
             Charlike::Separator => {
-                writeln!(w, "{}Some('/') => {{}}", indent2)?;
+                writeln!(w, "{}b\"/\" => {{", indent2)?;
+                writeln!(w, "{}    i += 1;", indent2)?;
+
+                codegen_trie(w, &child.1, indent + 2)?;
+
+                writeln!(w, "{}}},", indent2)?;
             }
         }
     }
-- 
2.43.0


From d1b560e5680b54da585a676c7a571f3376484e8f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 03/11] fix: indent deeply nested routes when writing a config
 out

From the eighth level on every line was indented by fourteen spaces and two
dashes, which neither reads back nor tells the levels apart.
---
 wayfinder/src/core/mod.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/wayfinder/src/core/mod.rs b/wayfinder/src/core/mod.rs
index 1bed836..ee80fc0 100644
--- a/wayfinder/src/core/mod.rs
+++ b/wayfinder/src/core/mod.rs
@@ -61,18 +61,8 @@ pub struct Routes {
     pub query_parameters: Vec<Param>,
 }
 
-fn indent(level: usize) -> &'static str {
-    match level {
-        0 => "",
-        1 => "  ",
-        2 => "    ",
-        3 => "      ",
-        4 => "        ",
-        5 => "          ",
-        6 => "            ",
-        7 => "              ",
-        _ => "              --",
-    }
+fn indent(level: usize) -> String {
+    "  ".repeat(level)
 }
 
 impl Routes {
-- 
2.43.0


From 63a57482f66247b695521fcb9692d4659ad6fafb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 04/11] fix: refuse two different parameters side by side

Beside a literal the second parameter and everything below it was silently
dropped from the matcher; without one the module did not compile.
---
 wayfinder/src/gen/gen.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 1340c9d..5eb1cee 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -574,6 +574,15 @@ where
 
     // n.b. if we got here, trie.children.len() > 1
 
+    // two parameters side by side: any text would match both
+    let is_dynamic = |c: &&(Charlike, _)| match c.0 {
+        Charlike::Dynamic(_) => true,
+        _ => false,
+    };
+    if trie.children.iter().filter(is_dynamic).count() > 1 {
+        return Err(io::ErrorKind::InvalidInput.into());
+    }
+
     let dynamic = trie.children.iter().find(|c| match c.0 {
         Charlike::Dynamic(_) => true,
         _ => false,
-- 
2.43.0


From 97c35f193aa96498d3e45229aa63e45c982fa326 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 05/11] fix: generate several literals beside a parameter

Literals that begin differently, next to a parameter ('new', 'edit' and
'{id}'), put the parameter's code between the arms of a match, so the
generated module did not compile.  Dispatch on the entire segment instead.
---
 wayfinder/src/gen/gen.rs | 44 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 5eb1cee..7578388 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -675,6 +675,27 @@ where
 
     // n.b. if we got here, the next character is ambiguous
 
+    if let Some((Charlike::Dynamic(ref name), ref child)) = dynamic {
+        // it's either one of the literals as a whole, or the dynamic
+        let mut literals = vec![];
+        find_literals(trie, String::new(), &mut literals);
+
+        writeln!(w, "{}let end = path[i..].iter().position(|c| *c == b'/').map_or(len, |n| i + n);", indent1)?;
+        writeln!(w, "{}match &path[i..end] {{", indent1)?;
+        for (literal, next) in literals {
+            writeln!(w, "{}b\"{}\" => {{", indent2, literal)?;
+            writeln!(w, "{}    i = end;", indent2)?;
+
+            codegen_trie(w, next, indent + 2)?;
+
+            writeln!(w, "{}}},", indent2)?;
+        }
+        writeln!(w, "{}_ => {{}},", indent2)?;
+        writeln!(w, "{}}}", indent1)?;
+
+        return write_dynamic(w, child, indent, name);
+    }
+
     // one of the options may be that the path ends here
     let end = trie.children.iter().find(|c| c.0 == Charlike::Separator);
     match end.and_then(|c| c.1.data.as_ref()) {
@@ -700,13 +721,7 @@ where
 
                 writeln!(w, "{}}},", indent2)?;
             }
-            Charlike::Dynamic(ref p) => {
-                write_dynamic(w, &child.1, indent, p)?;
-
-                // No further routes will possibly match.
-                // TODO: is this true still?
-                break;
-            }
+            Charlike::Dynamic(_) => unreachable!(),
             Charlike::Separator => {
                 writeln!(w, "{}b\"/\" => {{", indent2)?;
                 writeln!(w, "{}    i += 1;", indent2)?;
@@ -725,6 +740,21 @@ where
     Ok(())
 }
 
+/// Collect the literal segments starting at this node, each with the node where it ends.
+fn find_literals<'a>(
+    trie: &'a Trie<Charlike, FlattenedRoute>,
+    prefix: String,
+    literals: &mut Vec<(String, &'a Trie<Charlike, FlattenedRoute>)>,
+) {
+    for (key, child) in trie.children.iter() {
+        match key {
+            Charlike::Static(ch) => find_literals(child, format!("{}{}", prefix, ch), literals),
+            Charlike::Separator => literals.push((prefix.clone(), trie)),
+            Charlike::Dynamic(_) => {}
+        }
+    }
+}
+
 fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Result<()>
 where
     W: Write,
-- 
2.43.0


From 343e9e6f2ddf07e8b088301958bf1406bbbc47cf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 06/11] fix: keep parameters apart from the matcher's own
 variables

A parameter named like one of them replaced it: with '{len: usize}' the
matcher compiled and compared positions with the parameter's value, other
names did not compile.
---
 wayfinder/src/gen/gen.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 7578388..a8de47e 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -56,6 +56,14 @@ pub fn to_snake_case(s: &str) -> String {
     res
 }
 
+/// The variable to hold a parameter, distinct from those the matcher itself uses.
+pub fn to_binding(name: &str) -> String {
+    match name {
+        "end" | "i" | "len" | "method" | "path" | "start" | "text" => format!("{}_param", name),
+        _ => name.to_string(),
+    }
+}
+
 pub fn codegen_module<W>(
     w: &mut W,
     module: &FlattenedModule,
@@ -796,7 +804,12 @@ where
         )?;
 
         for param in route.path.dynamics() {
-            writeln!(w, "{}            {},", indent1, param.name)?;
+            let binding = to_binding(&param.name);
+            if binding == param.name {
+                writeln!(w, "{}            {},", indent1, param.name)?;
+            } else {
+                writeln!(w, "{}            {}: {},", indent1, param.name, binding)?;
+            }
         }
         for param in route.query_parameters.iter() {
             writeln!(w, "{}            {}: None,", indent1, param.name)?;
@@ -842,7 +855,7 @@ where
         "{}let text = std::str::from_utf8(&path[start..i]).unwrap();",
         indent1
     )?;
-    writeln!(w, "{}let {} = text.parse()", indent1, name)?;
+    writeln!(w, "{}let {} = text.parse()", indent1, to_binding(name))?;
     writeln!(
         w,
         "{}    .map_err(|e| Error::fail(\"{}\", e))?;",
-- 
2.43.0


From 4877a8ff4d84035ceccc0730e6524e142a2af72a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:39:00 +0000
Subject: [PATCH 07/11] fix: refuse two resources for the same method on one
 route

The second one could never be reached: it was silently dropped from the
matcher.
---
 wayfinder/src/gen/gen.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index a8de47e..6761dc4 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -767,6 +767,13 @@ fn write_methods<W>(w: &mut W, route: &FlattenedRoute, indent: usize) -> io::Res
 where
     W: Write,
 {
+    // two resources for one method: the second would never be reached
+    for (n, resource) in route.resources.iter().enumerate() {
+        if route.resources[..n].iter().any(|r| r.method == resource.method) {
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
+    }
+
     let mut indent1 = String::from("");
     for _ in 0..indent {
         indent1.push_str("    ");
-- 
2.43.0


From 1c9f9823812a337cecb381317a6c3f544b3ef2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 08/11] fix: keep the position of a mistake in a route's first
 resource

---
 wayfinder/src/parse/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wayfinder/src/parse/mod.rs b/wayfinder/src/parse/mod.rs
index aeef37a..079c1e6 100644
--- a/wayfinder/src/parse/mod.rs
+++ b/wayfinder/src/parse/mod.rs
@@ -30,6 +30,22 @@ macro_rules! indented {
     }
 }
 
+// nom's many1! discards the failure of the first element, and with it
+// the position of the mistake.
+macro_rules! one_or_more {
+    ($i:expr, $submac:ident!( $($args:tt)* )) => {
+        do_parse!($i,
+            first: $submac!($($args)*) >>
+            rest: many0!($submac!($($args)*)) >>
+            ({
+                let mut all = vec![first];
+                all.extend(rest);
+                all
+            })
+        )
+    };
+}
+
 pub fn is_identifier_char(ch: char) -> bool {
     ch.is_alphanumeric() || ch == '_'
 }
@@ -145,14 +161,14 @@ pub fn resources_and_routes(
         err_str!("Expected resources or child routes"),
         alt_complete!(
             do_parse!(
-                resources: many1!(apply!(resource, level))
+                resources: one_or_more!(apply!(resource, level))
                     >> routes:
                         alt_complete!(
-                            preceded!(many0!(line_ending), many1!(apply!(nested_routes, level)))
+                            preceded!(many0!(line_ending), one_or_more!(apply!(nested_routes, level)))
                                 | value!(vec![])
                         )
                     >> ((resources, routes))
-            ) | do_parse!(routes: many1!(apply!(nested_routes, level)) >> ((vec![], routes)))
+            ) | do_parse!(routes: one_or_more!(apply!(nested_routes, level)) >> ((vec![], routes)))
         )
     )
 }
-- 
2.43.0


From ad0c28498e704845f0b7f86014d8104bb4b0ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 09/11] fix: report mistakes far into a long line without
 panicking

---
 wayfinder/src/parse/errors.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/wayfinder/src/parse/errors.rs b/wayfinder/src/parse/errors.rs
index 7baf9e4..5b1b30a 100644
--- a/wayfinder/src/parse/errors.rs
+++ b/wayfinder/src/parse/errors.rs
@@ -89,16 +89,15 @@ where
     let line_start = line_start.next().map(|bytes| bytes.len() + 1).unwrap_or(0);
     let line = buf[line_start..].splitn(2, '\n').next().unwrap();
     let line_no = what_line(buf, line_start);
-    let pos_in_line = buf[line_start..pos].chars().count() + 1;
+    let indent = " ".repeat(buf[line_start..pos].chars().count());
     writeln!(
         out,
         "{prefix}{:>4}:{}\n\
-         {prefix}     {:>pos$} {}",
+         {prefix}     {}^ {}",
         line_no,
         line,
-        "^",
+        indent,
         msg,
-        pos = pos_in_line,
         prefix = prefix,
     )
     .unwrap();
-- 
2.43.0


From c682ac1241092589dca05322298d705827af2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:09:11 +0000
Subject: [PATCH 10/11] fix: flush standard output before a build returns

---
 wayfinder/src/build/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wayfinder/src/build/mod.rs b/wayfinder/src/build/mod.rs
index 55bafb1..d94620d 100644
--- a/wayfinder/src/build/mod.rs
+++ b/wayfinder/src/build/mod.rs
@@ -192,7 +192,7 @@ impl Builder {
             }
         };
 
-        match codegen(&mut output, &input) {
+        match codegen(&mut output, &input).and_then(|_| output.flush()) {
             Ok(_) => {}
             Err(e) => {
                 fail!("Error generating code: {}", e);
-- 
2.43.0


From 8bb74294a36b51a7e42add786be9a29b833ba9af Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:11:32 +0000
Subject: [PATCH 11/11] fix: keep apart parameters named like another's
 variable

---
 wayfinder/src/gen/gen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wayfinder/src/gen/gen.rs b/wayfinder/src/gen/gen.rs
index 6761dc4..82be89c 100644
--- a/wayfinder/src/gen/gen.rs
+++ b/wayfinder/src/gen/gen.rs
@@ -58,7 +58,8 @@ pub fn to_snake_case(s: &str) -> String {
 
 /// The variable to hold a parameter, distinct from those the matcher itself uses.
 pub fn to_binding(name: &str) -> String {
-    match name {
+    // `start_param` may be a parameter as well
+    match name.trim_end_matches("_param") {
         "end" | "i" | "len" | "method" | "path" | "start" | "text" => format!("{}_param", name),
         _ => name.to_string(),
     }
-- 
2.43.0

