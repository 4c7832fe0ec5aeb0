From c34123956ae1368a72458fe8d738cd381c7d4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 01/32] fix: do not swallow a selector that follows dangling
 attributes

`color: red; a:hover { ... }` was read as one block whose selector is
`color: red; a:hover`, because `a:hover` looks like one more attribute and
the whole dangling block was given up when its semicolon was missing.
---
 packages/stylist-core/src/parser.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index d51dceb..ccd2166 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -200,20 +200,25 @@ impl Parser {
         i: &str,
         dangling: bool,
     ) -> IResult<&str, Vec<StyleAttribute>, VerboseError<&str>> {
-        let final_semicolon = |i| {
+        let attributes = |i| {
             if dangling {
-                map(tag(";"), Some)(i)
+                // Every dangling attribute has its own semicolon. Anything without one belongs to
+                // whatever follows, e.g. the selector in `color: red; a:hover { ... }`.
+                many1(terminated(
+                    Self::attribute,
+                    preceded(opt(Self::sp), tag(";")),
+                ))(i)
             } else {
-                opt(tag(";"))(i)
+                terminated(
+                    separated_list1(tag(";"), Self::attribute),
+                    preceded(opt(Self::sp), opt(tag(";"))),
+                )(i)
             }
         };
 
         traced_context(
             "StyleAttributes",
-            Self::trimmed(expect_non_empty(terminated(
-                separated_list1(tag(";"), Self::attribute),
-                preceded(opt(Self::sp), final_semicolon),
-            ))),
+            Self::trimmed(expect_non_empty(attributes)),
         )(i)
     }
 
-- 
2.43.0


From 90087fa005af3db0bcbfec7d6499cc72dddffc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 02/32] fix: do not split selectors at commas in brackets

`:not(.a, .b)` was read as the two selectors `:not(.a` and `.b)`, each of
which was then scoped separately, giving `.C:not(.a, .C .b)`. Commas in
bracketed arguments and escaped commas now stay within their selector.
---
 packages/stylist-core/src/parser.rs | 35 ++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index ccd2166..e99fc56 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -251,6 +251,34 @@ impl Parser {
         )(i)
     }
 
+    /// Parse an escaped character.
+    fn escaped(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context("Escaped", recognize(preceded(tag("\\"), anychar)))(i)
+    }
+
+    /// Parse a bracketed part of a selector, such as the argument of `:not(.a, .b)` or `[href]`.
+    ///
+    /// Commas in brackets do not separate selectors.
+    fn selector_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        fn contents(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+            recognize(many0(alt((
+                is_not("${}\"\\()[]"),
+                Parser::escaped,
+                Parser::string,
+                recognize(Parser::interpolation),
+                Parser::selector_brackets,
+            ))))(i)
+        }
+
+        traced_context(
+            "SelectorBrackets",
+            recognize(alt((
+                delimited(tag("("), contents, tag(")")),
+                delimited(tag("["), contents, tag("]")),
+            ))),
+        )(i)
+    }
+
     /// Parse a selector.
     // TODO: Parse selector properly.
     fn selector(i: &str) -> IResult<&str, Selector, VerboseError<&str>> {
@@ -258,7 +286,12 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
-                    recognize(preceded(none_of("$,}@{\""), opt(is_not("$,\"{")))),
+                    Self::selector_brackets,
+                    Self::escaped,
+                    recognize(preceded(
+                        none_of("$,}@{\"\\()[]"),
+                        opt(is_not("$,\"{\\()[]")),
+                    )),
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
-- 
2.43.0


From 4118a4a0bb8ddfcd2c45f33144c7169d1146fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 03/32] fix: reject stray braces and semicolons in selectors
 and at-rule conditions

`x } .b { c: d; }` was accepted as a block with the selector `x } .b`, and
the rendered style had unbalanced braces. Likewise `.a { b: c; }; d { .. }`
gave the selector `; d`. Quoted strings in at-rule conditions are now read
as strings.
---
 packages/stylist-core/src/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index e99fc56..2d2581e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -262,7 +262,7 @@ impl Parser {
     fn selector_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         fn contents(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
             recognize(many0(alt((
-                is_not("${}\"\\()[]"),
+                is_not("${};\"\\()[]"),
                 Parser::escaped,
                 Parser::string,
                 recognize(Parser::interpolation),
@@ -289,8 +289,8 @@ impl Parser {
                     Self::selector_brackets,
                     Self::escaped,
                     recognize(preceded(
-                        none_of("$,}@{\"\\()[]"),
-                        opt(is_not("$,\"{\\()[]")),
+                        none_of("$,;}@{\"\\()[]"),
+                        opt(is_not("$,;\"{}\\()[]")),
                     )),
                     Self::string,
                     recognize(Self::interpolation),
@@ -447,7 +447,11 @@ impl Parser {
                 pair(
                     tags,
                     map(
-                        recognize(many1(alt((is_not("${"), recognize(Self::interpolation))))),
+                        recognize(many1(alt((
+                            is_not("${}\""),
+                            Self::string,
+                            recognize(Self::interpolation),
+                        )))),
                         |m: &str| StringFragment {
                             inner: m.trim().to_string().into(),
                         },
-- 
2.43.0


From fc2492c81104adb0383dc7e44f888d6eb3d43fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 04/32] fix: keep ampersands and :root in quoted parts of
 selectors

`[title="a & b"]` was rendered as `[title="a .C b"]` (or with `:root` in a
global style), and was not scoped either.
---
 packages/stylist-core/src/ast/selector.rs | 47 +++++++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 6eefcb9..1f4133d 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -15,6 +15,41 @@ pub struct Selector {
     pub fragments: Cow<'static, [StringFragment]>,
 }
 
+/// Replaces every occurrence of patterns in a selector that is neither escaped nor in a quoted
+/// string.
+///
+/// Returns `None` if there's none.
+fn replace_unquoted(s: &str, patterns: &[&str], to: &str) -> Option<String> {
+    let mut output = String::with_capacity(s.len());
+    let mut replaced = false;
+    let mut quote = None;
+    let mut rest = s;
+
+    while let Some(c) = rest.chars().next() {
+        if quote.is_none() {
+            if let Some(m) = patterns.iter().find(|m| rest.starts_with(**m)) {
+                output.push_str(to);
+                replaced = true;
+                rest = &rest[m.len()..];
+                continue;
+            }
+        }
+
+        let mut len = c.len_utf8();
+        match c {
+            // Keep the escaped character as is.
+            '\\' => len += rest[len..].chars().next().map_or(0, char::len_utf8),
+            '"' | '\'' if quote.is_none() => quote = Some(c),
+            _ if quote == Some(c) => quote = None,
+            _ => {}
+        }
+        output.push_str(&rest[..len]);
+        rest = &rest[len..];
+    }
+
+    replaced.then_some(output)
+}
+
 impl ToStyleStr for Selector {
     fn write_style(&self, w: &mut String, ctx: &mut StyleContext<'_>) {
         let mut joined_s = "".to_string();
@@ -26,12 +61,8 @@ impl ToStyleStr for Selector {
         if let Some(ref m) = ctx.class_name {
             let scoped_class = format!(".{m}");
             // If contains current selector or root pseudo class, replace them with class name.
-            if joined_s.contains('&') || joined_s.contains(":root") {
-                w.push_str(
-                    &joined_s
-                        .replace('&', scoped_class.as_str())
-                        .replace(":root", scoped_class.as_str()),
-                );
+            if let Some(m) = replace_unquoted(&joined_s, &["&", ":root"], &scoped_class) {
+                w.push_str(&m);
             } else {
                 w.push_str(&scoped_class);
 
@@ -44,8 +75,8 @@ impl ToStyleStr for Selector {
             }
 
         // For global styles, if it contains &, it will be replaced with html.
-        } else if joined_s.contains('&') {
-            w.push_str(&joined_s.replace('&', ":root"));
+        } else if let Some(m) = replace_unquoted(&joined_s, &["&"], ":root") {
+            w.push_str(&m);
         // For other styles, it will be written as is.
         } else {
             w.push_str(&joined_s);
-- 
2.43.0


From 9fdd14f2e8280a9c0339fb489e6ae969b21e01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 05/32] fix: parse single-quoted strings

`content: 'a; b: c';` was silently read as two declarations, and
`[title='a, b']` as two selectors.
---
 packages/stylist-core/src/parser.rs | 31 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 2d2581e..653bc97 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -164,10 +164,10 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\""),
+                    is_not("${;}/\"'"),
                     recognize(Self::interpolation),
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"*"))),
+                    recognize(preceded(tag("/"), none_of("${;}\"'*"))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
@@ -223,16 +223,23 @@ impl Parser {
     }
 
     /// Parse a quoted string.
-    // TODO: Parse ' quoted strings.
     fn string(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        let escaped_char = traced_context("EscapedChar", recognize(preceded(tag("\\"), anychar)));
-
-        let parse_str = recognize(preceded(
+        let double_quoted = recognize(delimited(
+            tag("\""),
+            many0(alt((is_not(r#"\""#), Self::escaped))),
             tag("\""),
-            terminated(many0(alt((is_not(r#"\""#), escaped_char))), tag("\"")),
         ));
 
-        traced_context("String", Self::trimmed(expect_non_empty(parse_str)))(i)
+        let single_quoted = recognize(delimited(
+            tag("'"),
+            many0(alt((is_not(r"\'"), Self::escaped))),
+            tag("'"),
+        ));
+
+        traced_context(
+            "String",
+            Self::trimmed(expect_non_empty(alt((double_quoted, single_quoted)))),
+        )(i)
     }
 
     /// Parse a string interpolation.
@@ -262,7 +269,7 @@ impl Parser {
     fn selector_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         fn contents(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
             recognize(many0(alt((
-                is_not("${};\"\\()[]"),
+                is_not("${};\"'\\()[]"),
                 Parser::escaped,
                 Parser::string,
                 recognize(Parser::interpolation),
@@ -289,8 +296,8 @@ impl Parser {
                     Self::selector_brackets,
                     Self::escaped,
                     recognize(preceded(
-                        none_of("$,;}@{\"\\()[]"),
-                        opt(is_not("$,;\"{}\\()[]")),
+                        none_of("$,;}@{\"'\\()[]"),
+                        opt(is_not("$,;\"'{}\\()[]")),
                     )),
                     Self::string,
                     recognize(Self::interpolation),
@@ -448,7 +455,7 @@ impl Parser {
                     tags,
                     map(
                         recognize(many1(alt((
-                            is_not("${}\""),
+                            is_not("${}\"'"),
                             Self::string,
                             recognize(Self::interpolation),
                         )))),
-- 
2.43.0


From e14092392977d6ba356c9cebf6965db370e1b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 06/32] fix: treat comments in selectors and at-rule conditions
 as comments

Punctuation in a comment between a selector and its block split the selector
(`.a /* x, y */ {`), an apostrophe or quote opened a string, and an ampersand
in it took the place of scoping the selector. Unterminated comments are
rejected instead of becoming part of the selector.
---
 packages/stylist-core/src/ast/selector.rs |  6 +++++-
 packages/stylist-core/src/parser.rs       | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-core/src/ast/selector.rs b/packages/stylist-core/src/ast/selector.rs
index 1f4133d..1a3d705 100644
--- a/packages/stylist-core/src/ast/selector.rs
+++ b/packages/stylist-core/src/ast/selector.rs
@@ -16,7 +16,7 @@ pub struct Selector {
 }
 
 /// Replaces every occurrence of patterns in a selector that is neither escaped nor in a quoted
-/// string.
+/// string or a comment.
 ///
 /// Returns `None` if there's none.
 fn replace_unquoted(s: &str, patterns: &[&str], to: &str) -> Option<String> {
@@ -37,6 +37,10 @@ fn replace_unquoted(s: &str, patterns: &[&str], to: &str) -> Option<String> {
 
         let mut len = c.len_utf8();
         match c {
+            // Keep comments as is.
+            '/' if quote.is_none() && rest.starts_with("/*") => {
+                len = rest[2..].find("*/").map_or(rest.len(), |m| m + 4);
+            }
             // Keep the escaped character as is.
             '\\' => len += rest[len..].chars().next().map_or(0, char::len_utf8),
             '"' | '\'' if quote.is_none() => quote = Some(c),
diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 653bc97..ddc149e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -124,6 +124,11 @@ impl Parser {
         )(i)
     }
 
+    /// Parse a slash that does not start a comment
+    fn slash(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        traced_context("Slash", terminated(tag("/"), not(char('*'))))(i)
+    }
+
     /// Parse whitespace
     fn sp(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         let chars = " \t\r\n";
@@ -269,7 +274,9 @@ impl Parser {
     fn selector_brackets(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         fn contents(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
             recognize(many0(alt((
-                is_not("${};\"'\\()[]"),
+                Parser::cmt,
+                Parser::slash,
+                is_not("${};/\"'\\()[]"),
                 Parser::escaped,
                 Parser::string,
                 recognize(Parser::interpolation),
@@ -293,11 +300,13 @@ impl Parser {
             "Selector",
             Self::trimmed(expect_non_empty(map(
                 recognize(many1(alt((
+                    Self::cmt,
+                    Self::slash,
                     Self::selector_brackets,
                     Self::escaped,
                     recognize(preceded(
-                        none_of("$,;}@{\"'\\()[]"),
-                        opt(is_not("$,;\"'{}\\()[]")),
+                        none_of("$,;}@{/\"'\\()[]"),
+                        opt(is_not("$,;\"'{}/\\()[]")),
                     )),
                     Self::string,
                     recognize(Self::interpolation),
@@ -455,7 +464,9 @@ impl Parser {
                     tags,
                     map(
                         recognize(many1(alt((
-                            is_not("${}\"'"),
+                            Self::cmt,
+                            Self::slash,
+                            is_not("${}/\"'"),
                             Self::string,
                             recognize(Self::interpolation),
                         )))),
-- 
2.43.0


From 501a866a3bb10f3af88eb0474d74caa6ed4222f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 07/32] fix: accept white space in empty nested at-rules and
 keyframes

`.a { @media print { } }` and `@keyframes x { from { } }` were rejected,
although the same with no white space between the braces, or at the top
level, was not.
---
 packages/stylist-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index ddc149e..21f8dbe 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -409,7 +409,7 @@ impl Parser {
                     cond,
                     tag("{"),
                     // Collect contents with-in rules.
-                    terminated(Self::rule_block_contents, tag("}")),
+                    terminated(Self::trimmed(Self::rule_block_contents), tag("}")),
                 ),
                 // Map Results into a scope
                 |p: (Vec<StringFragment>, Vec<RuleBlockContent>)| Rule {
@@ -497,7 +497,7 @@ impl Parser {
                     tag("{"),
                     // Collect contents with-in rules.
                     terminated(
-                        many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes)),
+                        Self::trimmed(many0(|i| Parser::rule_block(i, RuleBlockKind::Keyframes))),
                         tag("}"),
                     ),
                 ),
-- 
2.43.0


From 377a46e2322ecc13454dbf7245224c79a4d6dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 08/32] fix: accept lone $ and { in string literals given to
 macros

`css!(r#"content: "{";"#)` and `content: "$5"` failed to compile although
the same style is accepted at run time.
---
 packages/stylist-macros/src/literal/fstring.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/literal/fstring.rs b/packages/stylist-macros/src/literal/fstring.rs
index 20f9995..a7292df 100644
--- a/packages/stylist-macros/src/literal/fstring.rs
+++ b/packages/stylist-macros/src/literal/fstring.rs
@@ -1,10 +1,10 @@
 use nom::branch::alt;
 use nom::bytes::complete::{is_not, tag, take_while};
 use nom::character::complete::{alpha1, alphanumeric1};
-use nom::combinator::{all_consuming, cut, map, opt, recognize};
+use nom::combinator::{all_consuming, cut, map, not, opt, recognize};
 use nom::error::{context, convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::many0;
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 use nom::IResult;
 use stylist_core::{Error, Result};
 
@@ -114,6 +114,11 @@ impl Parser {
             map(tag("$${"), |_m: &str| Fragment::Literal("${".to_string())),
             Self::literal,
             Self::interpolation,
+            // A `$` or `{` that does not start an interpolation stands for itself.
+            map(
+                alt((terminated(tag("$"), not(tag("{"))), tag("{"))),
+                |m: &str| Fragment::Literal(m.to_string()),
+            ),
         ))))(i)
     }
 
-- 
2.43.0


From 2f12d563d2923a4e5abbcb1e97c8c42d1f81f919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 09/32] fix: accept the $= operator in attribute selectors

`a[href$=".pdf"]` was rejected by the parser, so that an inline macro which
accepts it panicked in debug builds when the style was created.
---
 packages/stylist-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 21f8dbe..6ea17b4 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -280,6 +280,8 @@ impl Parser {
                 Parser::escaped,
                 Parser::string,
                 recognize(Parser::interpolation),
+                // The `$=` operator.
+                terminated(tag("$"), not(char('{'))),
                 Parser::selector_brackets,
             ))))(i)
         }
-- 
2.43.0


From c73a4abb56f0b0ef0147e761b17687b9b797e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 10/32] fix: render hydrated global styles without a class

load_style_data gave global styles the text of a style scoped to their id.
---
 packages/stylist/src/manager/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index c85ef2e..39bbd21 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,8 @@ mod feat_hydration {
                         m.insert(
                             StyleContent {
                                 id: id.clone(),
-                                style_str: key.ast.to_style_str(Some(id)),
+                                // Non-global styles have ids prefixed in classes.
+                                style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
                             }
-- 
2.43.0


From 65f633475df8fa309406a8b250a6e008a5819d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 11/32] fix: prepend styles to a container that is not empty

The style element was inserted into the container's first child, before that
child itself, which is always an error.
---
 packages/stylist/src/manager/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 39bbd21..4dcbdaf 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -234,7 +234,9 @@ impl StyleManager {
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
-                    return m.insert_before(&style_element, Some(&m)).map(|_m| ());
+                    return container
+                        .insert_before(&style_element, Some(&m))
+                        .map(|_m| ());
                 }
             }
 
-- 
2.43.0


From 886925c03741176fc4c603e2370952ec7faf309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 12/32] fix: remove the style element that was mounted

A style was looked up in the document to unmount it. Elements in containers
outside of the document tree, such as a ShadowRoot, or whose id is not an
identifier, were never removed.
---
 packages/stylist/src/manager/content.rs | 11 +++++++-
 packages/stylist/src/manager/mod.rs     | 37 +++++++++++++++++--------
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index 9c28968..b0df4ad 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -1,5 +1,10 @@
 use std::rc::Rc;
 
+#[cfg(target_arch = "wasm32")]
+use once_cell::unsync::OnceCell;
+#[cfg(target_arch = "wasm32")]
+use web_sys::Element;
+
 use crate::manager::{StyleId, StyleKey, StyleManager, WeakStyleManager};
 use crate::Result;
 
@@ -10,6 +15,10 @@ pub(crate) struct StyleContent {
     pub style_str: String,
 
     pub manager: WeakStyleManager,
+
+    /// The element that is mounted for this style, if any.
+    #[cfg(target_arch = "wasm32")]
+    pub element: OnceCell<Element>,
 }
 
 impl StyleContent {
@@ -22,7 +31,7 @@ impl StyleContent {
     }
 
     pub fn unmount(&self) -> Result<()> {
-        StyleManager::unmount(self.id())
+        StyleManager::unmount(self)
     }
 
     pub fn key(&self) -> &Rc<StyleKey> {
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 4dcbdaf..7c40096 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -11,6 +11,8 @@ use std::cell::RefCell;
 use std::rc::{Rc, Weak};
 
 use once_cell::unsync::Lazy;
+#[cfg(target_arch = "wasm32")]
+use once_cell::unsync::OnceCell;
 use stylist_core::ast::ToStyleStr;
 use stylist_core::ResultDisplay;
 use web_sys::Node;
@@ -180,6 +182,8 @@ impl StyleManager {
             style_str,
             manager: weak_mgr,
             key: Rc::new(key),
+            #[cfg(target_arch = "wasm32")]
+            element: OnceCell::new(),
         }
         .into();
 
@@ -231,6 +235,8 @@ impl StyleManager {
             style_element.set_attribute("data-style", content.id())?;
             style_element.set_text_content(Some(content.get_style_str()));
 
+            let _result = content.element.set(style_element.clone());
+
             // Prepend element
             if !self.inner.append {
                 if let Some(m) = container.first_child() {
@@ -248,21 +254,26 @@ impl StyleManager {
 
     /// Unmount the [`Style`](crate::Style) from the DOM tree.
     #[cfg(target_arch = "wasm32")]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         use crate::arch::document;
         use crate::Error;
 
-        let document = document()?;
-        (|| {
-            if let Some(m) = document.query_selector(&format!("style[data-style={}]", id))? {
-                if let Some(parent) = m.parent_element() {
-                    parent.remove_child(&m)?;
-                }
-            }
+        // The container can be anything, it may not be a part of the document, e.g.: when it is a
+        // `ShadowRoot`.
+        if let Some(m) = content.element.get() {
+            m.remove();
+            return Ok(());
+        }
 
-            Ok(())
-        })()
-        .map_err(|e| Error::Web(Some(e)))
+        // Hydrated styles are not mounted by us, they are in the document.
+        if let Some(m) = document()?
+            .query_selector(&format!("style[data-style=\"{}\"]", content.id()))
+            .map_err(|e| Error::Web(Some(e)))?
+        {
+            m.remove();
+        }
+
+        Ok(())
     }
 
     /// Mount the [`Style`] in to the DOM tree.
@@ -276,7 +287,7 @@ impl StyleManager {
     /// Unmount the [`Style`] from the DOM tree.
     #[cfg(not(target_arch = "wasm32"))]
     #[allow(unused_variables)]
-    pub(crate) fn unmount(id: &StyleId) -> Result<()> {
+    pub(crate) fn unmount(content: &StyleContent) -> Result<()> {
         // Does nothing on non-wasm targets.
         Ok(())
     }
@@ -392,6 +403,8 @@ mod feat_hydration {
                                 style_str: key.ast.to_style_str((!key.is_global).then_some(id)),
                                 manager: self.downgrade(),
                                 key: key.clone(),
+                                #[cfg(target_arch = "wasm32")]
+                                element: OnceCell::new(),
                             }
                             .into(),
                         );
-- 
2.43.0


From 2224c7d571253e53370bc1cc41b6232144a66d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 13/32] fix: keep escaped characters in values and at-rule
 conditions

---
 packages/stylist-core/src/parser.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 6ea17b4..b6386a6 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -4,7 +4,7 @@ use std::fmt;
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
-use nom::combinator::{fail, map, not, opt, recognize};
+use nom::combinator::{fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -169,10 +169,11 @@ impl Parser {
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\"'"),
+                    is_not("${;}/\"'\\"),
                     recognize(Self::interpolation),
+                    Self::escaped,
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"'*"))),
+                    recognize(preceded(tag("/"), none_of("${;}\"'*\\"))),
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
@@ -265,7 +266,14 @@ impl Parser {
 
     /// Parse an escaped character.
     fn escaped(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
-        traced_context("Escaped", recognize(preceded(tag("\\"), anychar)))(i)
+        traced_context(
+            "Escaped",
+            alt((
+                // An interpolation is never a part of an escape.
+                terminated(tag("\\"), peek(tag("${"))),
+                recognize(preceded(tag("\\"), anychar)),
+            )),
+        )(i)
     }
 
     /// Parse a bracketed part of a selector, such as the argument of `:not(.a, .b)` or `[href]`.
@@ -468,7 +476,8 @@ impl Parser {
                         recognize(many1(alt((
                             Self::cmt,
                             Self::slash,
-                            is_not("${}/\"'"),
+                            is_not("${}/\"'\\"),
+                            Self::escaped,
                             Self::string,
                             recognize(Self::interpolation),
                         )))),
-- 
2.43.0


From 1453adbd5993eb801849119690703f23dad5f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 14/32] fix: accept slashes at the end of values

---
 packages/stylist-core/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index b6386a6..457763a 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -173,7 +173,8 @@ impl Parser {
                     recognize(Self::interpolation),
                     Self::escaped,
                     Self::string,
-                    recognize(preceded(tag("/"), none_of("${;}\"'*\\"))),
+                    tag("//"),
+                    Self::slash,
                 )))),
                 |m: &str| StringFragment {
                     inner: m.to_string().trim().to_string().into(),
-- 
2.43.0


From 6deba2e408b03257c8c66bae921a37bba185acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 15/32] fix: keep escaped white space at the end of selectors
 and values

---
 packages/stylist-core/src/parser.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 457763a..f6a140e 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -82,6 +82,18 @@ where
     }
 }
 
+/// Trims white space, but not the one that is escaped.
+fn trim(i: &str) -> &str {
+    let start = i.trim_start();
+    let end = start.trim_end();
+    let backslashes = end.len() - end.trim_end_matches('\\').len();
+
+    match start[end.len()..].chars().next() {
+        Some(m) if backslashes % 2 == 1 => &start[..end.len() + m.len_utf8()],
+        _ => end,
+    }
+}
+
 /// A lightweight CSS Parser.
 #[derive(Debug)]
 pub(crate) struct Parser {}
@@ -177,7 +189,7 @@ impl Parser {
                     Self::slash,
                 )))),
                 |m: &str| StringFragment {
-                    inner: m.to_string().trim().to_string().into(),
+                    inner: trim(m).to_string().into(),
                 },
             )),
         )(i)
@@ -322,7 +334,7 @@ impl Parser {
                     Self::string,
                     recognize(Self::interpolation),
                 )))),
-                |p: &str| vec![p.trim().to_owned().into()].into(),
+                |p: &str| vec![trim(p).to_owned().into()].into(),
             ))),
         )(i)
     }
@@ -408,7 +420,7 @@ impl Parser {
                 Self::at_rule_condition(i, (tag("@container"), tag("@media"), tag("@supports")))
             }
             RuleBlockKind::Keyframes => map(recognize(Self::condition), |m| {
-                vec![m.trim().to_string().into()]
+                vec![trim(m).to_string().into()]
             })(i),
         };
 
@@ -483,7 +495,7 @@ impl Parser {
                             recognize(Self::interpolation),
                         )))),
                         |m: &str| StringFragment {
-                            inner: m.trim().to_string().into(),
+                            inner: trim(m).to_string().into(),
                         },
                     ),
                 ),
-- 
2.43.0


From 9fe94ad98f4ca52c73c612c0ef92b6fafa00ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 16/32] fix: do not unregister a style that was created again

---
 packages/stylist/src/manager/content.rs  |  2 +-
 packages/stylist/src/manager/mod.rs      |  4 ++--
 packages/stylist/src/manager/registry.rs | 10 ++++++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/stylist/src/manager/content.rs b/packages/stylist/src/manager/content.rs
index b0df4ad..d4b3aa3 100644
--- a/packages/stylist/src/manager/content.rs
+++ b/packages/stylist/src/manager/content.rs
@@ -44,7 +44,7 @@ impl StyleContent {
 
     pub fn unregister(&self) {
         if let Some(mgr) = self.manager() {
-            mgr.unregister_style(self.key());
+            mgr.unregister_style(self);
         }
     }
 }
diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 7c40096..9e41880 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -211,8 +211,8 @@ impl StyleManager {
         Ok(content)
     }
 
-    pub(crate) fn unregister_style(&self, key: &Rc<StyleKey>) {
-        self.inner.registry.borrow_mut().unregister(key);
+    pub(crate) fn unregister_style(&self, content: &StyleContent) {
+        self.inner.registry.borrow_mut().unregister(content);
     }
 
     /// Return a reference of style key.
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 31ac89d..1b94172 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -16,8 +16,14 @@ impl StyleRegistry {
         }
     }
 
-    pub fn unregister(&mut self, key: &StyleKey) {
-        self.styles.remove(key);
+    pub fn unregister(&mut self, content: &StyleContent) {
+        // The same style may have been created again after this one was unregistered.
+        if self
+            .get(content.key())
+            .is_some_and(|m| m.id() == content.id())
+        {
+            self.styles.remove(content.key());
+        }
     }
 
     pub fn get(&self, key: &StyleKey) -> Option<Rc<StyleContent>> {
-- 
2.43.0


From cb7fab9a4bbde128dd0d44b42719f23bcf3e4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 17/32] fix: accept comments inside values

A comment in the middle of a value ended the declaration, and what followed it was taken for
another one without a separator.
---
 packages/stylist-core/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index f6a140e..97a1b7d 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -4,7 +4,7 @@ use std::fmt;
 use nom::branch::{alt, Alt};
 use nom::bytes::complete::{is_not, tag, take_while1};
 use nom::character::complete::{alpha1, alphanumeric1, anychar, char, none_of};
-use nom::combinator::{fail, map, not, opt, peek, recognize};
+use nom::combinator::{eof, fail, map, not, opt, peek, recognize};
 use nom::error::{convert_error, ErrorKind, ParseError, VerboseError};
 use nom::multi::{many0, many1, separated_list1};
 use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
@@ -136,6 +136,12 @@ impl Parser {
         )(i)
     }
 
+    /// Parse a comment that is not the end of a value
+    fn inner_cmt(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        let end = alt((eof, tag(";"), tag("}")));
+        terminated(recognize(Self::cmt), not(preceded(Self::sp, end)))(i)
+    }
+
     /// Parse a slash that does not start a comment
     fn slash(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         traced_context("Slash", terminated(tag("/"), not(char('*'))))(i)
@@ -187,6 +193,7 @@ impl Parser {
                     Self::string,
                     tag("//"),
                     Self::slash,
+                    Self::inner_cmt,
                 )))),
                 |m: &str| StringFragment {
                     inner: trim(m).to_string().into(),
-- 
2.43.0


From 3dc3c96707bae05ddff27c425950ee26c5d0f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 18/32] fix: do not end values at semicolons in parentheses

An unquoted data URL in url() was rejected, or cut into two declarations.
---
 packages/stylist-core/src/parser.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 97a1b7d..8dd3ca3 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -181,16 +181,36 @@ impl Parser {
         traced_context("StyleAttrKey", Self::trimmed(Self::ident))(i)
     }
 
+    /// Parse parentheses in a value, a semicolon between them does not end the value.
+    fn value_parens(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
+        let contents = alt((
+            is_not("${}/\"'\\()"),
+            recognize(Self::interpolation),
+            Self::escaped,
+            Self::string,
+            Self::value_parens,
+            tag("//"),
+            Self::slash,
+            recognize(Self::cmt),
+        ));
+
+        traced_context(
+            "ValueParens",
+            recognize(delimited(tag("("), many0(contents), tag(")"))),
+        )(i)
+    }
+
     // TODO: Parse value properly.
     fn style_attr_value(i: &str) -> IResult<&str, StringFragment, VerboseError<&str>> {
         traced_context(
             "StyleAttrValue",
             Self::trimmed(map(
                 recognize(many1(alt((
-                    is_not("${;}/\"'\\"),
+                    is_not("${;}/\"'\\("),
                     recognize(Self::interpolation),
                     Self::escaped,
                     Self::string,
+                    Self::value_parens,
                     tag("//"),
                     Self::slash,
                     Self::inner_cmt,
-- 
2.43.0


From 1fd5a8f2c23f9c560f2935796b622bf5ba4cbb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 19/32] fix: reject semicolons in at-rule conditions

Only those outside of parentheses; they end the at-rule in CSS.
---
 packages/stylist-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 8dd3ca3..5145cff 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -181,7 +181,7 @@ impl Parser {
         traced_context("StyleAttrKey", Self::trimmed(Self::ident))(i)
     }
 
-    /// Parse parentheses in a value, a semicolon between them does not end the value.
+    /// Parse parentheses in a value or condition, a semicolon between them does not end it.
     fn value_parens(i: &str) -> IResult<&str, &str, VerboseError<&str>> {
         let contents = alt((
             is_not("${}/\"'\\()"),
@@ -516,9 +516,10 @@ impl Parser {
                         recognize(many1(alt((
                             Self::cmt,
                             Self::slash,
-                            is_not("${}/\"'\\"),
+                            is_not("${;}/\"'\\("),
                             Self::escaped,
                             Self::string,
+                            Self::value_parens,
                             recognize(Self::interpolation),
                         )))),
                         |m: &str| StringFragment {
-- 
2.43.0


From 4e73daad03cd69a153379f1328bf7265492769e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 20/32] fix: read a comment that follows a slash in values

---
 packages/stylist-core/src/parser.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index 5145cff..debd86b 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -189,7 +189,6 @@ impl Parser {
             Self::escaped,
             Self::string,
             Self::value_parens,
-            tag("//"),
             Self::slash,
             recognize(Self::cmt),
         ));
@@ -211,7 +210,6 @@ impl Parser {
                     Self::escaped,
                     Self::string,
                     Self::value_parens,
-                    tag("//"),
                     Self::slash,
                     Self::inner_cmt,
                 )))),
-- 
2.43.0


From f4682a7c41873d3f0b4752d2ac359918650b66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 21/32] fix: keep the imports of macros out of interpolated
 expressions

---
 packages/stylist-macros/src/output/sheet.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 76f32a7..70361dd 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -14,12 +14,9 @@ impl Reify for OutputSheet {
             .into_cow_vec_tokens(quote! {::stylist::ast::ScopeContent}, ctx);
 
         ctx.uses_static(); // Sheet::from
+        // No imports here: they would be visible in the expressions of the caller.
         let quoted_sheet = quote! {
-            {
-                use ::std::convert::{From, Into};
-                use ::stylist::ast::Sheet;
-                Sheet::from(#contents)
-            }
+            <::stylist::ast::Sheet as ::std::convert::From<_>>::from(#contents)
         };
 
         if ctx.is_static() {
-- 
2.43.0


From a8bd286de3d29238aff0f8ead496bab3e223cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 22/32] fix: read digits after a dash as part of an inline
 identifier

---
 .../stylist-macros/src/inline/css_ident.rs    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/inline/css_ident.rs b/packages/stylist-macros/src/inline/css_ident.rs
index a754d13..69802ab 100644
--- a/packages/stylist-macros/src/inline/css_ident.rs
+++ b/packages/stylist-macros/src/inline/css_ident.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Punct, Spacing, TokenStream};
+use proc_macro2::{Literal, Punct, Spacing, TokenStream};
 use quote::ToTokens;
 use std::fmt::{Display, Formatter};
 use syn::ext::IdentExt;
@@ -11,6 +11,8 @@ syn::custom_punctuation!(DoubleMinus, --);
 pub enum IdentPart {
     Dash(Punct),
     Ident(Ident),
+    // The part of an identifier that begins with a digit, e.g. the `2` of `col-2`
+    Digits(Literal),
 }
 
 #[derive(Debug, Clone)]
@@ -25,6 +27,13 @@ impl IdentPart {
         let peek_ident = accept_ident && lookahead.peek(Ident::peek_any);
         peek_dash || peek_ident
     }
+
+    pub fn peek_digits(lookahead: &ParseBuffer) -> bool {
+        matches!(
+            lookahead.cursor().literal(),
+            Some((ref l, _)) if l.to_string().starts_with(|c: char| c.is_ascii_digit())
+        )
+    }
 }
 
 impl Display for CssIdent {
@@ -50,6 +59,7 @@ impl CssIdent {
             .map(|p| match p {
                 IdentPart::Dash(_) => "-".into(),
                 IdentPart::Ident(t) => format!("{}", t.unraw()),
+                IdentPart::Digits(l) => l.to_string(),
             })
             .collect()
     }
@@ -83,8 +93,13 @@ impl Parse for CssIdent {
                 // Dashes always join identifiers, and only over dashes if jointly spaced
                 IdentPart::Dash(s) => (s.spacing() == Spacing::Joint, true),
                 // Identifiers join dashes, but never other dashes
-                IdentPart::Ident(_) => (true, false),
+                IdentPart::Ident(_) | IdentPart::Digits(_) => (true, false),
             };
+            // A dash after the first part continues an identifier, also with a digit
+            if parts.len() > 1 && joins_idents && IdentPart::peek_digits(input) {
+                parts.push(IdentPart::Digits(input.parse()?));
+                continue;
+            }
             if !IdentPart::peek(input, joins_dash, joins_idents) {
                 break;
             }
@@ -99,6 +114,7 @@ impl ToTokens for IdentPart {
         match self {
             Self::Dash(d) => d.to_tokens(toks),
             Self::Ident(i) => i.to_tokens(toks),
+            Self::Digits(l) => l.to_tokens(toks),
         }
     }
 }
-- 
2.43.0


From cde9b989066145ffd7575057ddcb10bc57c7d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 23/32] fix: separate keywords from parentheses in inline
 conditions

---
 .../stylist-macros/src/inline/parse/rule.rs   | 41 +++++++++++++++++--
 packages/stylist/src/macros.rs                |  3 ++
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/rule.rs b/packages/stylist-macros/src/inline/parse/rule.rs
index 35ed37a..cf97cf8 100644
--- a/packages/stylist-macros/src/inline/parse/rule.rs
+++ b/packages/stylist-macros/src/inline/parse/rule.rs
@@ -1,7 +1,8 @@
+use proc_macro2::Delimiter;
 use syn::parse::{Error as ParseError, Parse, ParseBuffer, Result as ParseResult};
 use syn::token;
 
-use super::super::component_value::{ComponentValue, ComponentValueStream};
+use super::super::component_value::{ComponentValue, ComponentValueStream, PreservedToken};
 use super::super::css_ident::CssIdent;
 use super::{fragment_spacing, CssScope, IntoOutputContext};
 use crate::output::{OutputFragment, OutputRule};
@@ -66,17 +67,49 @@ impl Parse for CssAtRule {
     }
 }
 
+/// Keeps the logical keywords of a condition apart from a following parenthesis, with which they
+/// would form a function.
+fn space_keywords(fragments: Vec<OutputFragment>) -> Vec<OutputFragment> {
+    fn is_keyword(f: &OutputFragment) -> bool {
+        matches!(
+            f,
+            OutputFragment::Token(PreservedToken::Ident(i))
+                if ["and", "or", "not"].contains(&i.to_output_string().to_ascii_lowercase().as_str())
+        )
+    }
+    // `:not(..)` is a pseudo selector.
+    fn is_colon(f: Option<&OutputFragment>) -> bool {
+        matches!(f, Some(OutputFragment::Token(PreservedToken::Punct(p))) if p.as_char() == ':')
+    }
+
+    let mut spaced = Vec::with_capacity(fragments.len());
+    for fragment in fragments {
+        if let OutputFragment::Delimiter(Delimiter::Parenthesis, true) = fragment {
+            if let Some((last, before)) = spaced.split_last() {
+                if is_keyword(last) && !is_colon(before.last()) {
+                    spaced.push(' '.into());
+                }
+            }
+        }
+        spaced.push(fragment);
+    }
+    spaced
+}
+
 impl CssAtRule {
     pub fn condition_output(&self) -> Vec<OutputFragment> {
         let mut prelude = vec![OutputFragment::Str(format!(
             "@{} ",
             self.name.to_output_string()
         ))];
+        let fragments: Vec<_> = self
+            .prelude
+            .iter()
+            .flat_map(|p| p.to_output_fragments())
+            .collect();
         prelude.extend(
-            self.prelude
-                .clone()
+            space_keywords(fragments)
                 .into_iter()
-                .flat_map(|p| p.to_output_fragments())
                 .spaced_with(fragment_spacing),
         );
 
diff --git a/packages/stylist/src/macros.rs b/packages/stylist/src/macros.rs
index e625768..bd23ef0 100644
--- a/packages/stylist/src/macros.rs
+++ b/packages/stylist/src/macros.rs
@@ -102,6 +102,9 @@
 //!   number `3px`, or the '*' character.
 //! - `R` is either an identifier, a literal string or number, the '*' or '#' character.
 //!
+//! A space is also inserted between the keywords `and`, `or` and `not` of an `@`-rule's condition
+//! and a following parenthesis.
+//!
 //! Spacing around interpolation is ignored regardless.
 //!
 //! Be aware that the above is subject to change once the Span API is stabilized. To avoid future
-- 
2.43.0


From 3d84ab0f3c45238ff767d537ab851a5ede1007fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 24/32] fix: separate numbers from a following sign in inline
 values

---
 packages/stylist-macros/src/inline/parse/mod.rs | 5 ++++-
 packages/stylist/src/macros.rs                  | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/inline/parse/mod.rs b/packages/stylist-macros/src/inline/parse/mod.rs
index 30f1029..468660c 100644
--- a/packages/stylist-macros/src/inline/parse/mod.rs
+++ b/packages/stylist-macros/src/inline/parse/mod.rs
@@ -70,6 +70,9 @@ pub fn fragment_spacing(l: &OutputFragment, r: &OutputFragment) -> Option<Output
         || matches!(l, Token(Punct(ref p)) if "&*".contains(p.as_char()));
     let right_starts_compound = matches!(r, Token(Ident(_)) | Token(Literal(_)))
         || matches!(r, Token(Punct(ref p)) if "*#".contains(p.as_char()));
-    let needs_spacing = left_ends_compound && right_starts_compound;
+    // A number would otherwise swallow the sign of the next one
+    let merges_sign = matches!(l, Token(Literal(_)))
+        && matches!(r, Token(Punct(ref p)) if p.as_char() == '-');
+    let needs_spacing = (left_ends_compound && right_starts_compound) || merges_sign;
     needs_spacing.then(|| ' '.into())
 }
diff --git a/packages/stylist/src/macros.rs b/packages/stylist/src/macros.rs
index bd23ef0..4bd89ef 100644
--- a/packages/stylist/src/macros.rs
+++ b/packages/stylist/src/macros.rs
@@ -103,7 +103,8 @@
 //! - `R` is either an identifier, a literal string or number, the '*' or '#' character.
 //!
 //! A space is also inserted between the keywords `and`, `or` and `not` of an `@`-rule's condition
-//! and a following parenthesis.
+//! and a following parenthesis, and between a literal and a following `-`, which would otherwise become
+//! part of its unit.
 //!
 //! Spacing around interpolation is ignored regardless.
 //!
-- 
2.43.0


From 38cb59f7f842b8628cbf29d50c8e6650f35098ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 25/32] fix: parse the $= operator in at-rule conditions

---
 packages/stylist-core/src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/stylist-core/src/parser.rs b/packages/stylist-core/src/parser.rs
index debd86b..d94dfa5 100644
--- a/packages/stylist-core/src/parser.rs
+++ b/packages/stylist-core/src/parser.rs
@@ -186,6 +186,8 @@ impl Parser {
         let contents = alt((
             is_not("${}/\"'\\()"),
             recognize(Self::interpolation),
+            // The `$=` operator, as in `selector([href$=".pdf"])`.
+            terminated(tag("$"), peek(char('='))),
             Self::escaped,
             Self::string,
             Self::value_parens,
-- 
2.43.0


From d4526839d776276f8faedfb8c1f7828b3823b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 26/32] fix: call trait functions by their path in generated
 code

---
 packages/stylist-macros/src/css.rs                   | 3 ++-
 packages/stylist-macros/src/output/sheet.rs          | 3 ++-
 packages/stylist-macros/src/styled_component_impl.rs | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/stylist-macros/src/css.rs b/packages/stylist-macros/src/css.rs
index b0541f1..60a06a2 100644
--- a/packages/stylist-macros/src/css.rs
+++ b/packages/stylist-macros/src/css.rs
@@ -4,5 +4,6 @@ use quote::quote;
 pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     let sheet_tokens = crate::sheet::macro_fn(input);
 
-    quote! { ::stylist::StyleSource::from(#sheet_tokens) }
+    // Traits of the caller may have functions of the same name.
+    quote! { <::stylist::StyleSource as ::std::convert::From<::stylist::ast::Sheet>>::from(#sheet_tokens) }
 }
diff --git a/packages/stylist-macros/src/output/sheet.rs b/packages/stylist-macros/src/output/sheet.rs
index 70361dd..5761acb 100644
--- a/packages/stylist-macros/src/output/sheet.rs
+++ b/packages/stylist-macros/src/output/sheet.rs
@@ -14,6 +14,7 @@ impl Reify for OutputSheet {
             .into_cow_vec_tokens(quote! {::stylist::ast::ScopeContent}, ctx);
 
         ctx.uses_static(); // Sheet::from
+
         // No imports here: they would be visible in the expressions of the caller.
         let quoted_sheet = quote! {
             <::stylist::ast::Sheet as ::std::convert::From<_>>::from(#contents)
@@ -27,7 +28,7 @@ impl Reify for OutputSheet {
                     || #quoted_sheet
                 );
 
-                SHEET_REF.clone()
+                <::stylist::ast::Sheet as ::std::clone::Clone>::clone(&SHEET_REF)
             } }
         } else {
             quoted_sheet
diff --git a/packages/stylist-macros/src/styled_component_impl.rs b/packages/stylist-macros/src/styled_component_impl.rs
index 06e8bc8..8ffb9cd 100644
--- a/packages/stylist-macros/src/styled_component_impl.rs
+++ b/packages/stylist-macros/src/styled_component_impl.rs
@@ -50,7 +50,7 @@ pub fn styled_component_impl_impl(item: HookLike) -> syn::Result<TokenStream> {
             ($( $args:tt )*) => {
                 ::stylist::css!($($args)*).with_manager({
                     #[allow(clippy::redundant_clone)]
-                    #mgr_ident.clone()
+                    ::std::clone::Clone::clone(&#mgr_ident)
                 })
             }
         }
-- 
2.43.0


From e97e70a9b165cd34abdf1881eb1afaa5166a13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 27/32] fix: keep global styles registered once rendered on the
 server

---
 packages/stylist/src/yew/global.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/stylist/src/yew/global.rs b/packages/stylist/src/yew/global.rs
index a4ddad0..9e7b712 100644
--- a/packages/stylist/src/yew/global.rs
+++ b/packages/stylist/src/yew/global.rs
@@ -43,10 +43,19 @@ pub fn global(props: &GlobalProps) -> Html {
 
     struct GlobalStyleGuard {
         inner: GlobalStyle,
+        #[cfg(feature = "ssr")]
+        manager: StyleManager,
     }
 
     impl Drop for GlobalStyleGuard {
         fn drop(&mut self) {
+            // Components are destroyed once they are rendered on the server, the style is still a
+            // part of the page and must keep its id.
+            #[cfg(feature = "ssr")]
+            if self.manager.style_data().is_some() {
+                return;
+            }
+
             self.inner.unregister();
         }
     }
@@ -54,6 +63,8 @@ pub fn global(props: &GlobalProps) -> Html {
     use_memo((mgr, css), move |(manager, css)| GlobalStyleGuard {
         inner: GlobalStyle::new_with_manager(css.clone(), manager)
             .expect_display("Failed to create style."),
+        #[cfg(feature = "ssr")]
+        manager: manager.clone(),
     });
 
     Html::default()
-- 
2.43.0


From e07046eeb220833dd5a946a2661e0f6d3547c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 28/32] fix: load hydrated styles only into the manager of the
 page

---
 packages/stylist/src/yew/provider.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/stylist/src/yew/provider.rs b/packages/stylist/src/yew/provider.rs
index b483324..cacb0d4 100644
--- a/packages/stylist/src/yew/provider.rs
+++ b/packages/stylist/src/yew/provider.rs
@@ -44,6 +44,14 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
     {
         use crate::manager::StyleData;
 
+        // The styles that come with the page belong to the manager it is hydrated with, not to one
+        // that replaces it later.
+        #[cfg(feature = "hydration")]
+        let hydrated_manager = {
+            let manager = manager.clone();
+            use_mut_ref(move || Some(manager))
+        };
+
         let _manager = manager.clone();
         let _style_data = use_transitive_state!((), move |_| -> StyleData {
             _manager
@@ -55,12 +63,11 @@ pub fn manager_provider(props: &ManagerProviderProps) -> HtmlResult {
         #[cfg(feature = "hydration")]
         {
             // We must load the styles immediately before child components are rendered.
-            let manager = manager.clone();
-            use_memo(manager, move |manager| {
+            if let Some(manager) = hydrated_manager.take() {
                 if let Some(m) = _style_data {
                     manager.load_style_data(m.as_ref());
                 }
-            });
+            }
         }
     }
 
-- 
2.43.0


From 310d60d0da1785e994e04e196d8cc802ea356f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:07 +0000
Subject: [PATCH 29/32] fix: load each hydrated style into a manager once

---
 packages/stylist/src/manager/mod.rs      | 5 +++++
 packages/stylist/src/manager/registry.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 9e41880..4d41293 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -385,6 +385,11 @@ mod feat_hydration {
             let mut reg = self.inner.registry.borrow_mut();
 
             for StyleDataContent { id, key, .. } in data.0.iter() {
+                // Nested providers load the same styles again, which may have been unmounted since.
+                if !reg.loaded.insert(id.clone()) {
+                    continue;
+                }
+
                 let key = Rc::new(key.clone());
 
                 match reg.styles.entry(key.clone()) {
diff --git a/packages/stylist/src/manager/registry.rs b/packages/stylist/src/manager/registry.rs
index 1b94172..f985d0e 100644
--- a/packages/stylist/src/manager/registry.rs
+++ b/packages/stylist/src/manager/registry.rs
@@ -1,12 +1,20 @@
 use std::collections::HashMap;
+#[cfg(feature = "hydration")]
+use std::collections::HashSet;
 use std::rc::Rc;
 
+#[cfg(feature = "hydration")]
+use super::StyleId;
 use super::{StyleContent, StyleKey};
 
 /// The style registry is a registry that keeps an instance of all styles for current manager.
 #[derive(Debug, Default)]
 pub(super) struct StyleRegistry {
     pub(crate) styles: HashMap<Rc<StyleKey>, Rc<StyleContent>>,
+
+    /// Styles that were loaded from style data, whether they are still registered or not.
+    #[cfg(feature = "hydration")]
+    pub(crate) loaded: HashSet<StyleId>,
 }
 
 impl StyleRegistry {
-- 
2.43.0


From 56306a48003044feb85778046da3ac35f9e78665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 30/32] fix: follow a changed query in use_media_query

---
 packages/stylist/src/yew/hooks/use_media_query.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/stylist/src/yew/hooks/use_media_query.rs b/packages/stylist/src/yew/hooks/use_media_query.rs
index f66a5ee..c9f9766 100644
--- a/packages/stylist/src/yew/hooks/use_media_query.rs
+++ b/packages/stylist/src/yew/hooks/use_media_query.rs
@@ -38,6 +38,9 @@ pub fn use_media_query(query: &str) -> bool {
         let match_media = match_media();
         let match_media_clone = match_media.clone();
 
+        // The state still belongs to the previous query if it has changed.
+        state_clone.set(match_media.matches());
+
         let listener = EventListener::new(&match_media, "change", move |_event| {
             state_clone.set(match_media_clone.matches());
         });
-- 
2.43.0


From 5b9401e20db1d88356d7897b92c6619af03adcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:57 +0000
Subject: [PATCH 31/32] fix: refuse conflicting style data every time it is
 loaded

---
 packages/stylist/src/manager/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/stylist/src/manager/mod.rs b/packages/stylist/src/manager/mod.rs
index 4d41293..5d1dad7 100644
--- a/packages/stylist/src/manager/mod.rs
+++ b/packages/stylist/src/manager/mod.rs
@@ -386,7 +386,7 @@ mod feat_hydration {
 
             for StyleDataContent { id, key, .. } in data.0.iter() {
                 // Nested providers load the same styles again, which may have been unmounted since.
-                if !reg.loaded.insert(id.clone()) {
+                if reg.loaded.contains(id) {
                     continue;
                 }
 
@@ -415,6 +415,9 @@ mod feat_hydration {
                         );
                     }
                 }
+
+                // Only once it was loaded, a refused style is refused again.
+                reg.loaded.insert(id.clone());
             }
         }
     }
-- 
2.43.0


From 1aebafc0f915567e8c709fa503fc5ee7fb52cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 32/32] fix: evaluate an argument of a literal macro once

---
 packages/stylist-macros/src/literal/mod.rs | 30 ++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/packages/stylist-macros/src/literal/mod.rs b/packages/stylist-macros/src/literal/mod.rs
index 53dbef7..c4925cc 100644
--- a/packages/stylist-macros/src/literal/mod.rs
+++ b/packages/stylist-macros/src/literal/mod.rs
@@ -1,9 +1,10 @@
-use proc_macro2::{TokenStream, TokenTree};
+use proc_macro2::{Ident, Span, TokenStream, TokenTree};
 
 use std::collections::{HashMap, HashSet};
 
 use litrs::StringLit;
 use proc_macro_error::{abort, abort_call_site};
+use quote::{quote, quote_spanned};
 use std::convert::TryFrom;
 
 use stylist_core::ast::Sheet;
@@ -37,6 +38,8 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     };
 
     let mut args = HashMap::new();
+    // Evaluates each argument to its text, once and in the order they are written.
+    let mut bindings = TokenStream::new();
 
     let is_comma = |t: &TokenTree| -> bool {
         match t {
@@ -96,6 +99,7 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
             let next_token = match tokens.next() {
                 Some(m) => m,
                 None => {
+                    bindings.extend(bind_argument(&mut arg));
                     if args.insert(arg.name.clone(), arg).is_some() {
                         abort!(name_token, "duplicate named argument");
                     }
@@ -104,6 +108,7 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
             };
 
             if is_comma(&next_token) {
+                bindings.extend(bind_argument(&mut arg));
                 if args.insert(arg.name.clone(), arg).is_some() {
                     abort!(name_token, "duplicate named argument");
                 }
@@ -130,5 +135,26 @@ pub(crate) fn macro_fn(input: TokenStream) -> TokenStream {
     }
 
     let mut ctx = ReifyContext::new();
-    output.into_token_stream(&mut ctx)
+    let output = output.into_token_stream(&mut ctx);
+
+    if bindings.is_empty() {
+        output
+    } else {
+        quote! { { #bindings #output } }
+    }
+}
+
+/// Binds the text of an argument to a variable, which replaces its expression.
+fn bind_argument(arg: &mut Argument) -> TokenStream {
+    let span = arg.name_token.span();
+    // Span::mixed_site avoids capture of the variable in expressions of other arguments.
+    let text = Ident::new(
+        &format!("arg_{}", arg.name.trim_start_matches("r#")),
+        Span::mixed_site().located_at(span),
+    );
+    let expr = std::mem::replace(&mut arg.tokens, quote! { #text });
+
+    quote_spanned! {span=>
+        let #text = ::std::string::ToString::to_string(&(#expr) as &dyn ::std::fmt::Display);
+    }
 }
-- 
2.43.0

