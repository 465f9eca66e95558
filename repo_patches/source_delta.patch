From b05522ab5a356d8db9414d03fb286224bffc0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 01/37] fix: end a block scalar where the indentation drops
 below its first line

The lines of a block scalar were only required to be indented one more than
the enclosing structure on the stack, so the entries that follow a block scalar
in the first entry of a list item were swallowed by it, characters that are not
indentation were cut off, and shorter lines or odd indentation indicators made
the parser panic. Leading blank lines were dropped.
---
 src/yaml.pest      | 16 ++++++----
 src/yaml/parser.rs | 77 +++++++++++++++++++++++++++-------------------
 2 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aa93289..5d4ad99 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -42,12 +42,16 @@ inline_array_string = { unquoted_inline_string | double_quoted_string | single_q
 
 block_string = @{ (!NEWLINE ~ ANY)+ | "" }
 block_empty_lines = @{ NEWLINE* }
-string_multiline_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
-string_multiline_trailing = @{ (NEWLINE ~ &NEWLINE)* }
-string_multiline_content = { blanknl ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
-string_multiline_indent = { (NUMBER+)* } 
-string_multiline_folded = { ">" ~ string_block_chomping? ~ string_multiline_indent ~ string_multiline_content }
-string_multiline_literal = { "|" ~ string_block_chomping? ~  string_multiline_indent  ~ string_multiline_content }
+block_blank_lines = @{ (!PEEK ~ SPACE_SEPARATOR* ~ NEWLINE)* }
+block_leading_lines = @{ (SPACE_SEPARATOR* ~ NEWLINE)* }
+string_multiline_content_part = { NEWLINE ~ block_blank_lines ~ PEEK ~ block_string }
+string_multiline_indented_content_part = { NEWLINE ~ block_empty_lines ~ PEEK[-2..] ~ block_string }
+string_multiline_trailing = @{ (NEWLINE ~ SPACE_SEPARATOR* ~ &NEWLINE)* }
+string_multiline_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_leading_lines ~ &(PEEK ~ " ") ~ PUSH(" "+) ~ block_string ~ string_multiline_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indented_content = { SPACE_SEPARATOR* ~ NEWLINE ~ block_empty_lines ~ (PEEK ~ PUSH(" ") ~ block_string) ~ string_multiline_indented_content_part* ~ string_multiline_trailing ~ DROP }
+string_multiline_indent = { ASCII_NONZERO_DIGIT ~ ASCII_DIGIT* }
+string_multiline_folded = { ">" ~ string_block_chomping? ~ (string_multiline_indent ~ string_multiline_indented_content | string_multiline_content) }
+string_multiline_literal = { "|" ~ string_block_chomping? ~ (string_multiline_indent ~ string_multiline_indented_content | string_multiline_content) }
 
 string_block_chomping = { "-" | "+" }
 
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 9e664d1..a326660 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -234,10 +234,15 @@ impl YamlParser {
     }
 
     fn block_empty_lines(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok((0..input.as_str().len())
-            .into_iter()
-            .map(|_| "".to_string())
-            .collect())
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_blank_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
+    }
+
+    fn block_leading_lines(input: Node) -> InternalYamlResult<Vec<String>> {
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_block_chomping(input: Node) -> InternalYamlResult<BlockChomping> {
@@ -248,16 +253,19 @@ impl YamlParser {
         })
     }
 
-    fn string_multiline_indent(input: Node) -> InternalYamlResult<Option<usize>> {
-        Ok(if input.as_str().is_empty() {
-            None
-        } else {
-            let given: usize = input.as_str().parse().unwrap();
-            Some(given - 1)
-        })
+    fn string_multiline_indent(input: Node) -> InternalYamlResult<usize> {
+        let given: usize = input.as_str().parse().map_err(|e| input.error(e))?;
+        Ok(given - 1)
     }
 
     fn string_multiline_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_blank_lines(es), block_string(b)] => {
+            Ok(es.into_iter().chain(std::iter::once(b)).collect())
+        })
+    }
+
+    fn string_multiline_indented_content_part(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
         [block_empty_lines(es), block_string(b)] => {
             Ok(es.into_iter().chain(std::iter::once(b)).collect())
@@ -265,12 +273,23 @@ impl YamlParser {
     }
 
     fn string_multiline_trailing(input: Node) -> InternalYamlResult<Vec<String>> {
-        Ok(input.as_str().chars().filter(|c| *c == '\n').map(|_| String::new()).collect())
+        Ok(empty_lines(input.as_str()))
     }
 
     fn string_multiline_content(input: Node) -> InternalYamlResult<Vec<String>> {
         match_nodes!(input.into_children();
-        [block_empty_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+        [block_leading_lines(es), block_string(b), string_multiline_content_part(bs).., string_multiline_trailing(trailing)] => {
+            Ok(es.into_iter()
+                .chain(std::iter::once(b))
+                .chain(bs.into_iter().flat_map(|x| x))
+                .chain(trailing)
+                .collect())
+        })
+    }
+
+    fn string_multiline_indented_content(input: Node) -> InternalYamlResult<Vec<String>> {
+        match_nodes!(input.into_children();
+        [block_empty_lines(es), block_string(b), string_multiline_indented_content_part(bs).., string_multiline_trailing(trailing)] => {
             Ok(es.into_iter()
                 .chain(std::iter::once(b))
                 .chain(bs.into_iter().flat_map(|x| x))
@@ -281,10 +300,12 @@ impl YamlParser {
 
     fn string_multiline_folded(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
+        [string_multiline_content(cs)] => Ok(Yaml::FoldedString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_content(cs)] => Ok(Yaml::FoldedString(cs, chomp)),
+        [string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::FoldedString(
             clean_multiline_strings(indent, cs), BlockChomping::Clip
         )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::FoldedString(
+        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::FoldedString(
             clean_multiline_strings(indent, cs), chomp
         )))
 
@@ -293,10 +314,12 @@ impl YamlParser {
 
     fn string_multiline_literal(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
-        [string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
+        [string_multiline_content(cs)] => Ok(Yaml::LiteralString(cs, BlockChomping::Clip)),
+        [string_block_chomping(chomp), string_multiline_content(cs)] => Ok(Yaml::LiteralString(cs, chomp)),
+        [string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::LiteralString(
             clean_multiline_strings(indent, cs), BlockChomping::Clip
         )),
-        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_content(cs)] => Ok(Yaml::LiteralString(
+        [string_block_chomping(chomp), string_multiline_indent(indent), string_multiline_indented_content(cs)] => Ok(Yaml::LiteralString(
             clean_multiline_strings(indent, cs), chomp
         )))
     }
@@ -544,25 +567,17 @@ pub fn parse_yaml_file(input_str: &str) -> YamlResult<Document> {
     YamlParser::yaml(input).map_err(|e| e.into())
 }
 
-fn count_whitespace_bytes_at_start(input: &str) -> usize {
-    input
-        .chars()
-        .take_while(|ch| ch.is_whitespace() && *ch != '\n')
-        .map(|ch| ch.len_utf8())
-        .sum()
+fn empty_lines(blank: &str) -> Vec<String> {
+    blank.matches('\n').map(|_| String::new()).collect()
 }
 
-fn clean_multiline_strings(indent: Option<usize>, lines: Vec<String>) -> Vec<String> {
-    let indent = indent.unwrap_or_else(|| count_whitespace_bytes_at_start(&lines[0]));
-
+/// Removes the given indentation, but never anything that is not a space
+fn clean_multiline_strings(indent: usize, lines: Vec<String>) -> Vec<String> {
     lines
         .into_iter()
         .map(|x| {
-            if x.is_empty() {
-                x
-            } else {
-                x[indent..].to_string()
-            }
+            let spaces = x.len() - x.trim_start_matches(' ').len();
+            x[spaces.min(indent)..].to_string()
         })
         .collect()
 }
-- 
2.43.0


From e13c145977cd22c67db725ca09a2d1ba3b76fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 02/37] fix: write flow collections at the document root so
 that they can be read back

---
 src/yaml.pest        |  2 +-
 src/yaml/document.rs | 10 +++++++++-
 src/yaml/parser.rs   |  3 ++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 5d4ad99..23abc17 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -96,5 +96,5 @@ leading_comments = { (blanknl* ~ commentnl ~ blanknl*)* }
 blank = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | (SPACE_SEPARATOR* ~ NEWLINE)? }
 blanknl = _{ SPACE_SEPARATOR* ~ NEWLINE ~ (SPACE_SEPARATOR* ~ NEWLINE)+ | SPACE_SEPARATOR* ~ NEWLINE }
 
-document = { hash | array }
+document = { hash | array | inline_hash }
 yaml = { SOI ~ leading_comments ~ "---" ~ blanknl ~ commentnls ~ document ~ blank ~ (comment ~ blank)* ~ spaces ~ EOI }
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 2e6faea..06140de 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -82,7 +82,15 @@ impl Document {
         for item in self.items.iter() {
             match item {
                 DocumentData::Comment(c) => write!(&mut s, "\n#{}", c),
-                DocumentData::Yaml(y) => y.format(&mut s, 0, None),
+                DocumentData::Yaml(y) => {
+                    let start = s.len();
+                    y.format(&mut s, 0, None)?;
+                    // Flow collections are not allowed on the line of the document marker
+                    if s[start..].starts_with(' ') {
+                        s.replace_range(start..start + 1, "\n");
+                    }
+                    Ok(())
+                }
             }?;
         }
         Ok(s)
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index a326660..021fb49 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -541,7 +541,8 @@ impl YamlParser {
     fn document(input: Node) -> InternalYamlResult<Yaml> {
         match_nodes!(input.into_children();
         [hash(h)] => Ok(h),
-        [array(a)] => Ok(a))
+        [array(a)] => Ok(a),
+        [inline_hash(h)] => Ok(h))
     }
 
     fn yaml(input: Node) -> InternalYamlResult<Document> {
-- 
2.43.0


From 413c5f70dac9b6408b02f5ae5775aac8a7840f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 03/37] fix: write the indentation indicator when only the
 first non-empty line is indented

---
 src/yaml/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 9c27b94..df8782e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -449,7 +449,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " |")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if needs_indentation_indicator(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -462,7 +462,7 @@ impl Yaml {
                     if idx == 0 {
                         write!(f, " >")?;
                         chomping.write(f)?;
-                        if line.starts_with(" ") {
+                        if needs_indentation_indicator(lines) {
                             write!(f, "2")?;
                         }
                     }
@@ -475,6 +475,15 @@ impl Yaml {
     }
 }
 
+/// The indentation of a block scalar is detected on its first line that is not empty,
+/// so it must be given when there is no such line, or when that line is indented itself
+fn needs_indentation_indicator(lines: &[String]) -> bool {
+    lines
+        .iter()
+        .find(|line| !line.is_empty())
+        .map_or(true, |line| line.starts_with(' '))
+}
+
 pub trait Pretty {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Self;
     fn pretty(self) -> Self
-- 
2.43.0


From 8310789785114afc73f95c66d3ad51f395118793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 04/37] fix: keep a nested block sequence apart from the
 sequence around it

---
 src/yaml.pest      |  8 +++++---
 src/yaml/parser.rs | 48 ++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 23abc17..367f5bc 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -61,12 +61,14 @@ inline_value = { (anchor | inline_array | inline_hash | string ) }
 inline_array_value = { (anchor | inline_array | inline_hash | inline_array_string ) }
 
 inline_array = { "[" ~ (spaces ~ inline_array_value ~ (spaces ~ "," ~ spaces ~ inline_array_value)*)? ~ spaces ~ "]" }
-block_array_element = { "-" ~ SPACE_SEPARATOR+ ~ block_array_aliased_yaml_value }
+block_array_element = { "-" ~ (SPACE_SEPARATOR+ | &(blanknl ~ commentnls ~ PEEK ~ SPACE_SEPARATOR)) ~ (nested_array | block_array_aliased_yaml_value) }
 first_block_array_element = { block_array_element ~ comment? }
 block_array_data = { commentnls ~ PEEK ~ block_array_element ~ comment? }
-block_array = { commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
+block_array = { NEWLINE? ~ commentnls ~ blank ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blank ~ block_array_data)* ~ DROP ~ commentnls }
 array = { inline_array | block_array }
-alternative_array = { first_block_array_element ~ blanknl ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP ~ commentnls }
+array_continuation = { blanknl ~ commentnls ~ &(PEEK ~ SPACE_SEPARATOR+) ~ PUSH(SPACE_SEPARATOR*) ~ first_block_array_element ~ SPACE_SEPARATOR* ~ (blanknl ~ block_array_data)* ~ DROP }
+alternative_array = { first_block_array_element ~ array_continuation ~ commentnls }
+nested_array = { first_block_array_element ~ array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
diff --git a/src/yaml/parser.rs b/src/yaml/parser.rs
index 021fb49..9c240b9 100644
--- a/src/yaml/parser.rs
+++ b/src/yaml/parser.rs
@@ -458,6 +458,7 @@ impl YamlParser {
     fn block_array_element(input: Node) -> InternalYamlResult<ArrayData> {
         match_nodes!(input.into_children();
             [block_array_aliased_yaml_value(value)] => Ok(ArrayData::Element(value)),
+            [nested_array(value)] => Ok(ArrayData::Element(AliasedYaml { alias: None, value })),
         )
     }
 
@@ -503,17 +504,48 @@ impl YamlParser {
         ))
     }
 
-    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+    fn array_continuation(input: Node) -> InternalYamlResult<Vec<ArrayData>> {
         match_nodes!(input.into_children();
-        [first_block_array_element(element1),first_block_array_element(element2), block_array_data(elements).., commentnls(cs)] => Ok(
-            Yaml::Array(
-                element1.into_iter()
-                .chain(element2.into_iter())
+            [commentnls(cs), first_block_array_element(element), block_array_data(elements)..] => Ok(
+                cs.into_iter().map(|c| ArrayData::Comment(c))
+                .chain(element.into_iter())
                 .chain(elements.into_iter().flatten())
-                .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
                 .collect()
-            )
-        ))
+            ),
+        )
+    }
+
+    fn alternative_array(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [first_block_array_element(element1), array_continuation(cont), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cont.into_iter())
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+        )
+    }
+
+    fn nested_array(input: Node) -> InternalYamlResult<Yaml> {
+        match_nodes!(input.into_children();
+            [first_block_array_element(element1), array_continuation(cont), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cont.into_iter())
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+            [first_block_array_element(element1), commentnls(cs)] => Ok(
+                Yaml::Array(
+                    element1.into_iter()
+                    .chain(cs.into_iter().map(|c| ArrayData::Comment(c)))
+                    .collect()
+                )
+            ),
+        )
     }
 
     fn commentnls(input: Node) -> InternalYamlResult<Vec<String>> {
-- 
2.43.0


From a4d69a8abadb970c3bf9dcb5e680eedc588b0343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 05/37] fix: start a sequence entry on its own line where its
 first line would be ambiguous

---
 src/yaml/mod.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index df8782e..222ea6e 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -339,7 +339,9 @@ impl Yaml {
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
-                                (Some(_), Some(Parent::Array)) => idx == 0,
+                                (Some(_), Some(Parent::Array)) => {
+                                    idx == 0 && !v.value.value.is_indicated_block_scalar()
+                                }
                                 _ => false,
                             };
 
@@ -380,7 +382,11 @@ impl Yaml {
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
-                                (Some(_), Some(Parent::Array)) => idx == 0,
+                                (Some(_), Some(Parent::Array)) => {
+                                    idx == 0
+                                        && !matches!(v.value, Yaml::Array(_))
+                                        && !v.value.is_indicated_block_scalar()
+                                }
                                 _ => false,
                             };
 
@@ -475,6 +481,19 @@ impl Yaml {
     }
 }
 
+impl Yaml {
+    /// The indentation indicator counts from the enclosing indentation,
+    /// which is not known after the dash of a sequence entry
+    fn is_indicated_block_scalar(&self) -> bool {
+        match self {
+            Yaml::LiteralString(lines, _) | Yaml::FoldedString(lines, _) => {
+                needs_indentation_indicator(lines)
+            }
+            _ => false,
+        }
+    }
+}
+
 /// The indentation of a block scalar is detected on its first line that is not empty,
 /// so it must be given when there is no such line, or when that line is indented itself
 fn needs_indentation_indicator(lines: &[String]) -> bool {
-- 
2.43.0


From afb1951c3180931bd5e1b64b4a6e1e71b16f2aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 06/37] fix: respect the indentation of a collection on the
 lines after its anchor

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 367f5bc..aefd8ad 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -71,7 +71,7 @@ alternative_array = { first_block_array_element ~ array_continuation ~ commentnl
 nested_array = { first_block_array_element ~ array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ spaces)? ~  (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
-- 
2.43.0


From f0279cfdde2a7d3902f80cb352adc78cee2a03fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 07/37] fix: remove the comment on the line of a removed entry
 with it

---
 src/yaml/insert.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index b1d48c0..abfe6c7 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -99,6 +99,10 @@ pub trait YamlInsert {
         let f = |data: &mut Vec<HashData>, _key: String, key_index: Option<usize>| {
             if let Some(index) = key_index {
                 data.remove(index);
+                // The comment on the line of the removed entry belongs to that entry
+                if matches!(data.get(index), Some(HashData::InlineComment(_))) {
+                    data.remove(index);
+                }
                 1
             } else {
                 0
-- 
2.43.0


From 0c013e838d0eacd03a1c13b25f177b6dfde38753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 08/37] fix: write a block collection without entries as an
 empty flow collection before its comments

---
 src/yaml/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 222ea6e..d7baa7a 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -327,8 +327,8 @@ impl Yaml {
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
-                if v.is_empty() {
-                    return write!(f, " {{}}");
+                if !v.iter().any(|d| matches!(d, HashData::Element(_))) {
+                    write!(f, " {{}}")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
@@ -372,8 +372,8 @@ impl Yaml {
                 write!(f, "]")
             }
             Yaml::Array(v) => {
-                if v.is_empty() {
-                    return write!(f, " []");
+                if !v.iter().any(|d| matches!(d, ArrayData::Element(_))) {
+                    write!(f, " []")?;
                 }
                 for (idx, element) in v.iter().enumerate() {
                     match element {
-- 
2.43.0


From 53a834a1168302974a524976795adb02714e44bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 09/37] fix: move a comment off the line of a block scalar,
 which would take it as text

---
 src/yaml/array_data.rs |  6 ++++++
 src/yaml/hash_data.rs  |  9 +++++++++
 src/yaml/mod.rs        | 16 ++++++++++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/yaml/array_data.rs b/src/yaml/array_data.rs
index 17d5860..e2dfe3e 100644
--- a/src/yaml/array_data.rs
+++ b/src/yaml/array_data.rs
@@ -52,6 +52,12 @@ impl ArrayData {
             _ => false,
         }
     }
+    pub(super) fn fills_last_line(&self) -> bool {
+        match self {
+            ArrayData::Element(e) => e.value.fills_last_line(),
+            ArrayData::Comment(_) | ArrayData::InlineComment(_) => true,
+        }
+    }
 }
 
 impl VisitYaml for ArrayData {
diff --git a/src/yaml/hash_data.rs b/src/yaml/hash_data.rs
index 514307c..8b5b906 100644
--- a/src/yaml/hash_data.rs
+++ b/src/yaml/hash_data.rs
@@ -33,6 +33,15 @@ impl YamlInsert for HashData {
     }
 }
 
+impl HashData {
+    pub(super) fn fills_last_line(&self) -> bool {
+        match self {
+            HashData::Element(e) => e.value.value.fills_last_line(),
+            HashData::Comment(_) | HashData::InlineComment(_) => true,
+        }
+    }
+}
+
 impl VisitYaml for HashData {
     fn visit_yaml<F: FnMut(&AliasedYaml)>(&self, f: &mut F) {
         if let HashData::Element(e) = self {
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index d7baa7a..54bb9a3 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -335,6 +335,9 @@ impl Yaml {
                         HashData::Comment(c) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
+                        HashData::InlineComment(c) if v[..idx].last().map_or(false, HashData::fills_last_line) => {
+                            write!(f, "\n{}#{}", indent(spaces), c)
+                        }
                         HashData::InlineComment(c) => write!(f, " #{}", c),
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
@@ -378,6 +381,9 @@ impl Yaml {
                 for (idx, element) in v.iter().enumerate() {
                     match element {
                         ArrayData::Comment(c) => write!(f, "\n{}#{}", indent(spaces), c),
+                        ArrayData::InlineComment(c) if v[..idx].last().map_or(false, ArrayData::fills_last_line) => {
+                            write!(f, "\n{}#{}", indent(spaces), c)
+                        }
                         ArrayData::InlineComment(c) => write!(f, " #{}", c),
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
@@ -482,6 +488,16 @@ impl Yaml {
 }
 
 impl Yaml {
+    /// Whether a comment written on the last line of this value would not be read as a comment
+    fn fills_last_line(&self) -> bool {
+        match self {
+            Yaml::LiteralString(_, _) | Yaml::FoldedString(_, _) => true,
+            Yaml::Hash(data) => data.last().map_or(false, HashData::fills_last_line),
+            Yaml::Array(data) => data.last().map_or(false, ArrayData::fills_last_line),
+            _ => false,
+        }
+    }
+
     /// The indentation indicator counts from the enclosing indentation,
     /// which is not known after the dash of a sequence entry
     fn is_indicated_block_scalar(&self) -> bool {
-- 
2.43.0


From 8c4cf855446f0eb7cd8c3b1909d14d674389d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 10/37] fix: follow index paths into flow sequences

---
 src/yaml/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 54bb9a3..38fee7f 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -160,14 +160,16 @@ impl YamlInsert for Yaml {
                     _ => A::zero(),
                 }
             }
-            YamlPath::Indexes(indexes, conditions, _) => match self {
+            YamlPath::Indexes(indexes, conditions, next) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let element_path = next.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for index in indexes.iter() {
                         let element_opt = elements.get_mut(*index);
                         if let Some(element) = element_opt {
                             if element.fits_conditions(conditions) {
-                                count = count + element.for_hash(path, f, r)
+                                count = count + element.for_hash(element_path, f, r)
                             }
                         }
                     }
@@ -192,12 +194,14 @@ impl YamlInsert for Yaml {
                 _ => A::zero(),
             },
             //YamlPath::AllIndexes(Some(other_path)) => match self {
-            YamlPath::AllIndexes(conditions, _) => match self {
+            YamlPath::AllIndexes(conditions, next) => match self {
                 Yaml::InlineArray(elements) => {
+                    let root = YamlPath::Root(Vec::new());
+                    let element_path = next.as_deref().unwrap_or(&root);
                     let mut count = A::zero();
                     for element in elements.iter_mut() {
                         if element.fits_conditions(conditions) {
-                            count = count + element.for_hash(path, f, r)
+                            count = count + element.for_hash(element_path, f, r)
                         }
                     }
                     count
-- 
2.43.0


From 40a10d8499ea2233859de2c3586046a17b78f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 11/37] fix: report an index that does not fit as a path error

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index 1f3cd36..4c45816 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -32,7 +32,7 @@ impl PathParser {
     }
 
     fn index_number(input: Node) -> PathResult<Vec<usize>> {
-        Ok(vec![input.as_str().parse().unwrap()]) // TODO: remove unwrap
+        Ok(vec![input.as_str().parse().map_err(|e| input.error(e))?])
     }
     fn index_all(input: Node) -> PathResult<()> {
         Ok(())
-- 
2.43.0


From 027120941e021875de1a334d284e19183b212c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 12/37] fix: do not panic on spaces around the parts of a path

---
 src/path.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.pest b/src/path.pest
index c63d648..a59c821 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,4 +1,4 @@
-WHITESPACE = { " " }
+WHITESPACE = _{ " " }
 
 key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
 pure_key = { key_items+ }
-- 
2.43.0


From d7e9aa445724f721d1f4254c59197e5e302cd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 13/37] fix: quote strings that would be read as a sequence, an
 anchor, a mapping or null

---
 src/yaml/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 38fee7f..bb0555f 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -619,6 +619,8 @@ impl<T: Pretty> Pretty for Vec<T> {
 // Rules based on yaml_subset's grammar:
 //   - start disallowed: [ ] { } " ' # > | newline
 //   - anywhere disallowed: ": " (colon-space), # , newlines
+//   - would be read as something else: "- " (sequence), * and & (anchors), key: (mapping),
+//     and spaces around the string are not part of it
 // Also rejects strings that serde's untagged-enum Content mechanism misinterprets:
 // untagged enum deserialization calls deserialize_any to collect into Content, and
 // deserialize_any maps UnquotedString("2") → visit_i64(2) → Content::I64(2).
@@ -627,18 +629,24 @@ impl<T: Pretty> Pretty for Vec<T> {
 // so Vec<String> fields next to integer fields in the same struct both work.
 // Note: inline_breaking_chars must also be checked for inline (flow) context.
 fn can_be_unquoted_in_block(s: &str) -> bool {
-    if s.is_empty() || s.starts_with(' ') || s.ends_with(' ') {
+    if s.is_empty() || s.trim() != s {
         return false;
     }
     match s.chars().next().unwrap() {
-        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' => return false,
+        '[' | ']' | '{' | '}' | '"' | '\'' | '#' | '>' | '|' | '*' | '&' => return false,
         _ => {}
     }
+    if s == "-" || s.starts_with('-') && s[1..].starts_with(char::is_whitespace) {
+        return false;
+    }
+    if s.ends_with(':') || s.split(':').skip(1).any(|x| x.starts_with(char::is_whitespace)) {
+        return false;
+    }
     if s.contains(": ") || s.contains('#') || s.contains('\n') || s.contains('\r') {
         return false;
     }
     !s.parse::<i64>().is_ok() && !s.parse::<f64>().is_ok()
-        && !matches!(s, "true" | "false" | "null" | "~")
+        && !matches!(s, "true" | "false" | "null" | "Null" | "NULL" | "~")
 }
 
 fn inline_breaking_chars(s: &str) -> bool {
-- 
2.43.0


From 15bed1c5d009c835c083a2ff7d64b654b227b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 14/37] fix: quote the strings of a sequence for the flow style
 that pretty gives it

---
 src/yaml/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index bb0555f..c5c6b94 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -652,7 +652,7 @@ fn can_be_unquoted_in_block(s: &str) -> bool {
 fn inline_breaking_chars(s: &str) -> bool {
     s.contains(',') || s.contains('[') || s.contains(']')
         || s.contains('{') || s.contains('}') || s.contains('"')
-        || s.contains('>') || s.contains('|')
+        || s.contains('>') || s.contains('|') || s.ends_with(':')
 }
 
 fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
@@ -727,7 +727,9 @@ impl Pretty for Yaml {
                         let elems: Vec<Yaml> = prettied
                             .iter()
                             .filter_map(|d| match d {
-                                ArrayData::Element(e) => Some(e.value.clone()),
+                                ArrayData::Element(e) => {
+                                    Some(e.value.clone().pretty_with_options(true, false))
+                                }
                                 _ => None,
                             })
                             .collect();
@@ -768,6 +770,9 @@ impl Pretty for Yaml {
                 }
             }
             Yaml::SingleQuotedString(parts) => {
+                if in_inline {
+                    return Yaml::SingleQuotedString(parts);
+                }
                 let contains_newline = parts
                     .iter()
                     .any(|x| matches!(x, SingleQuotedStringPart::BlankLines(_)));
@@ -777,12 +782,9 @@ impl Pretty for Yaml {
                 if contains_newline {
                     return Yaml::LiteralString(create_literal(s), chomping);
                 }
-                if !in_inline && can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
+                if can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
                     return Yaml::UnquotedString(s);
                 }
-                if in_inline {
-                    return Yaml::SingleQuotedString(parts);
-                }
                 if total_length > max_line_length {
                     Yaml::FoldedString(create_folded(s, max_line_length), chomping)
                 } else {
-- 
2.43.0


From 5a44b61c7bb7cad963df5b47011024acf309c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 15/37] fix: keep a string quoted when folding it would change
 it

---
 src/yaml/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index c5c6b94..b42e50a 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -674,6 +674,16 @@ fn str_to_single_quoted_parts(s: &str) -> Vec<SingleQuotedStringPart> {
     parts
 }
 
+// Folding cannot express every string and a block scalar cannot hold a carriage return
+fn block_or_quoted(block: Yaml, quoted: Yaml) -> Yaml {
+    let s = quoted.as_string();
+    if block.as_string() == s && !s.map_or(false, |s| s.contains('\r')) {
+        block
+    } else {
+        quoted
+    }
+}
+
 impl Pretty for Yaml {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Yaml {
         let max_line_length = 90;
@@ -762,9 +772,11 @@ impl Pretty for Yaml {
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
                 if contains_escape {
-                    Yaml::LiteralString(create_literal(s), chomping)
+                    let literal = Yaml::LiteralString(create_literal(s), chomping);
+                    block_or_quoted(literal, Yaml::DoubleQuotedString(parts))
                 } else if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    let folded = Yaml::FoldedString(create_folded(s, max_line_length), chomping);
+                    block_or_quoted(folded, Yaml::DoubleQuotedString(parts))
                 } else {
                     Yaml::DoubleQuotedString(parts)
                 }
@@ -780,13 +792,15 @@ impl Pretty for Yaml {
                 let total_length = s.len();
                 let chomping = if s.ends_with('\n') { BlockChomping::Keep } else { BlockChomping::Strip };
                 if contains_newline {
-                    return Yaml::LiteralString(create_literal(s), chomping);
+                    let literal = Yaml::LiteralString(create_literal(s), chomping);
+                    return block_or_quoted(literal, Yaml::SingleQuotedString(parts));
                 }
                 if can_be_unquoted_in_block(&s) && !inline_breaking_chars(&s) && total_length <= max_line_length {
                     return Yaml::UnquotedString(s);
                 }
                 if total_length > max_line_length {
-                    Yaml::FoldedString(create_folded(s, max_line_length), chomping)
+                    let folded = Yaml::FoldedString(create_folded(s, max_line_length), chomping);
+                    block_or_quoted(folded, Yaml::SingleQuotedString(parts))
                 } else {
                     Yaml::SingleQuotedString(parts)
                 }
-- 
2.43.0


From 6b479d5be2873dc093b74402e287d9d52e14eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 16/37] fix: accept map keys that would need single quotes as a
 value

---
 src/yaml/serializer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 8fc2c34..7b0f8e5 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -141,10 +141,11 @@ fn str_to_yaml(s: &str) -> Yaml {
 }
 
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
-    use super::string::parse_double_quoted_string;
+    use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
         Yaml::UnquotedString(s) => Ok(s),
         Yaml::DoubleQuotedString(ref parts) => Ok(parse_double_quoted_string(parts)),
+        Yaml::SingleQuotedString(ref parts) => Ok(parse_single_quoted_string(parts)),
         _ => Err(YamlSerializeError("non-string map key".to_string())),
     }
 }
-- 
2.43.0


From 3f3b68265171797a4dbcda0bb601460b38b14e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 17/37] fix: take the field names given to the move operations
 literally

---
 src/yaml/insert.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index abfe6c7..9591bb8 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -30,6 +30,11 @@ impl<T> Additive for MyVec<T> {
     }
 }
 
+/// The path of a field of the current hash, whatever characters are in its name
+fn field(name: &str) -> YamlPath {
+    YamlPath::Key(name.to_string(), Vec::new(), None)
+}
+
 pub trait YamlInsert {
     fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> A
     where
@@ -150,8 +155,7 @@ pub trait YamlInsert {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
                         for (key, value) in fields.iter() {
-                            let path = key.parse().unwrap();
-                            subfield_value.insert_into_hash(&path, &value, true);
+                            subfield_value.insert_into_hash(&field(key), &value, true);
                         }
                         1
                     } else {
@@ -168,11 +172,11 @@ pub trait YamlInsert {
                                 .collect(),
                         );
                         let new = AliasedYaml { alias: None, value };
-                        hash.insert_into_hash(&subfield.parse().unwrap(), &new, false);
+                        hash.insert_into_hash(&field(&subfield), &new, false);
                         1
                     };
                     for (key, _) in fields {
-                        hash.remove_from_hash(&key.parse().unwrap());
+                        hash.remove_from_hash(&field(key));
                     }
                     res
                 } else {
@@ -213,14 +217,14 @@ pub trait YamlInsert {
                                         if let Some(s) = key.as_string() {
                                             if keeps.contains(&s) || s.is_empty() {
                                                 hash_data
-                                                    .remove_from_hash(&selector.parse().unwrap());
+                                                    .remove_from_hash(&field(&selector));
                                                 old_hashes.extend(comments.clone());
                                                 comments.clear();
                                                 old_hashes.push(hash_data);
                                                 last_added_to = None
                                             } else {
                                                 let mut value = hash_element.value.clone();
-                                                value.remove_from_hash(&selector.parse().unwrap());
+                                                value.remove_from_hash(&field(&selector));
 
                                                 let new_hash_element =
                                                     HashData::Element(HashElement {
@@ -282,12 +286,12 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&new_map_name.parse().unwrap(), &new, false);
+                            hash.insert_into_hash(&field(&new_map_name), &new, false);
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
                             };
-                            hash.insert_into_hash(&old_map_name.parse().unwrap(), &old, true);
+                            hash.insert_into_hash(&field(&old_map_name), &old, true);
                             1
                         } else {
                             0
-- 
2.43.0


From 0c10c16e7c454c204c96fb0b48f5f379f8cf3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 18/37] fix: do not lose the fields of a move whose target
 cannot take them

---
 src/yaml/insert.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 9591bb8..fb4dbd6 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -147,8 +147,15 @@ pub trait YamlInsert {
     ) -> usize {
         let r = |hash: &mut Yaml| match hash {
             Yaml::Hash(_data) => {
+                let is_hash = hash
+                    .key_value_mut(&subfield)
+                    .map_or(true, |v| matches!(v.value, Yaml::Hash(_)));
+                if !is_hash {
+                    return 0; // nothing can be moved into it
+                }
                 let fields: Vec<_> = fields_to_move
                     .iter()
+                    .filter(|key| *key != &subfield)
                     .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
                     .collect();
                 if !fields.is_empty() {
@@ -286,7 +293,9 @@ pub trait YamlInsert {
                                         .collect(),
                                 ),
                             };
-                            hash.insert_into_hash(&field(&new_map_name), &new, false);
+                            if hash.insert_into_hash(&field(&new_map_name), &new, false) == 0 {
+                                return 0; // there already is such a map, don't lose the entries
+                            }
                             let old = AliasedYaml {
                                 alias: result.alias.clone(),
                                 value: Yaml::Hash(old_hashes),
-- 
2.43.0


From 28345776453b700d2d80445c429bfb4ffde64ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 19/37] fix: move the comment on the line of an entry along
 with that entry

---
 src/yaml/insert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index fb4dbd6..23ff9a5 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -265,6 +265,13 @@ pub trait YamlInsert {
                                         last_added_to = None
                                     }
                                 }
+                                HashData::InlineComment(_) if comments.is_empty() => {
+                                    // belongs to the entry before it
+                                    match &last_added_to {
+                                        Some(s) => new_hashes.get_mut(s).unwrap().push(hash_data),
+                                        None => old_hashes.push(hash_data),
+                                    }
+                                }
                                 HashData::Comment(_) | HashData::InlineComment(_) => {
                                     comments.push(hash_data)
                                 }
-- 
2.43.0


From cc8c02d14623e9e48e2ffa7de2b12784881089fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 20/37] fix: move the comment on the line of a field into the
 subfield along with it

---
 src/yaml/insert.rs | 20 ++++++++++++++------
 src/yaml/mod.rs    | 11 +++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index 23ff9a5..be3d08b 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -156,13 +156,20 @@ pub trait YamlInsert {
                 let fields: Vec<_> = fields_to_move
                     .iter()
                     .filter(|key| *key != &subfield)
-                    .filter_map(|key| hash.key_value_owned(key).map(|val| (key, val)))
+                    .filter_map(|key| {
+                        let comment = hash.key_comment(key);
+                        hash.key_value_owned(key).map(|val| (key, val, comment))
+                    })
                     .collect();
                 if !fields.is_empty() {
                     let subfield_value_opt = hash.key_value_mut(&subfield);
                     let res = if let Some(subfield_value) = subfield_value_opt {
-                        for (key, value) in fields.iter() {
+                        for (key, value, comment) in fields.iter() {
+                            let is_new = subfield_value.value.key_index(key).is_none();
                             subfield_value.insert_into_hash(&field(key), &value, true);
+                            if let (true, Yaml::Hash(data)) = (is_new, &mut subfield_value.value) {
+                                data.extend(comment.clone());
+                            }
                         }
                         1
                     } else {
@@ -170,11 +177,12 @@ pub trait YamlInsert {
                             fields
                                 .clone()
                                 .into_iter()
-                                .map(|(key, value)| {
-                                    HashData::Element(HashElement {
+                                .flat_map(|(key, value, comment)| {
+                                    std::iter::once(HashData::Element(HashElement {
                                         key: key.clone(),
                                         value: value.clone(),
-                                    })
+                                    }))
+                                    .chain(comment)
                                 })
                                 .collect(),
                         );
@@ -182,7 +190,7 @@ pub trait YamlInsert {
                         hash.insert_into_hash(&field(&subfield), &new, false);
                         1
                     };
-                    for (key, _) in fields {
+                    for (key, _, _) in fields {
                         hash.remove_from_hash(&field(key));
                     }
                     res
diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index b42e50a..e5fe41b 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -98,6 +98,17 @@ impl Yaml {
             _ => None,
         }
     }
+    fn key_comment(&self, key: &String) -> Option<HashData> {
+        match self {
+            Yaml::Hash(data) => {
+                let index = self.key_index(key)?;
+                data.get(index + 1)
+                    .filter(|d| matches!(d, HashData::InlineComment(_)))
+                    .cloned()
+            }
+            _ => None,
+        }
+    }
     fn key_value_mut(&mut self, key: &String) -> Option<&mut AliasedYaml> {
         match self {
             Yaml::Hash(data) => data.iter_mut().enumerate().find_map(|(_, v)| match v {
-- 
2.43.0


From 47082a4d44edd705275c1be61ba3c177cd7a7caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 21/37] fix: resolve anchors of anchors and reject an anchor
 within its own value

---
 src/yaml/deserializer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 049b962..3a33355 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -96,12 +96,19 @@ fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDe
     match yaml {
         Yaml::Anchor(ref name) => {
             let resolved = resolve(&anchors, name)?;
-            Ok((resolved, anchors))
+            into_resolved(resolved, without(&anchors, name))
         }
         other => Ok((other, anchors)),
     }
 }
 
+// An anchor cannot be used within its own value: that value would never end
+fn without(anchors: &Anchors, name: &str) -> Anchors {
+    let mut anchors = anchors.borrow().clone();
+    anchors.remove(name);
+    Rc::new(RefCell::new(anchors))
+}
+
 // ─── Main Deserializer ───────────────────────────────────────────────────────
 
 pub struct YamlDeserializer {
@@ -193,8 +200,8 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
             Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
-            Yaml::Anchor(name) => {
-                let resolved = resolve(&anchors, &name)?;
+            anchor @ Yaml::Anchor(_) => {
+                let (resolved, anchors) = into_resolved(anchor, anchors)?;
                 YamlDeserializer::with(resolved, anchors).deserialize_any(visitor)
             }
         }
-- 
2.43.0


From 9f1713b81a0f132a18479c04735ba05a768036ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 22/37] fix: know the anchors that are defined in ignored
 values

---
 src/yaml/deserializer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 3a33355..1100062 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -4,7 +4,7 @@ use serde::Deserialize;
 use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
-use super::{AliasedYaml, ArrayData, HashData, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, VisitYaml, Yaml};
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
@@ -431,6 +431,8 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        // The rest of the document can use what is anchored in the ignored value
+        self.yaml.visit_yaml(&mut |aliased: &AliasedYaml| register(&self.anchors, aliased));
         visitor.visit_unit()
     }
 }
-- 
2.43.0


From 339095aea35d2038af3ad81a02401b25c594f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 23/37] fix: keep the name of an enum variant with content

---
 src/yaml/serializer.rs | 46 +++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/yaml/serializer.rs b/src/yaml/serializer.rs
index 7b0f8e5..920083d 100644
--- a/src/yaml/serializer.rs
+++ b/src/yaml/serializer.rs
@@ -140,6 +140,14 @@ fn str_to_yaml(s: &str) -> Yaml {
     Yaml::DoubleQuotedString(parts)
 }
 
+// A variant with content is a single-key map: the key is the name of the variant.
+fn tagged(variant: &'static str, content: Yaml) -> Yaml {
+    Yaml::Hash(vec![HashData::Element(HashElement {
+        key: variant.to_string(),
+        value: aliased(content),
+    })])
+}
+
 fn yaml_to_key_string(yaml: Yaml) -> Result<String, YamlSerializeError> {
     use super::string::{parse_double_quoted_string, parse_single_quoted_string};
     match yaml {
@@ -166,10 +174,10 @@ impl ser::Serializer for YamlSerializer {
     type SerializeSeq = SeqSerializer;
     type SerializeTuple = TupleSerializer;
     type SerializeTupleStruct = TupleSerializer;
-    type SerializeTupleVariant = TupleSerializer;
+    type SerializeTupleVariant = VariantSerializer<TupleSerializer>;
     type SerializeMap = MapSerializer;
     type SerializeStruct = MapSerializer;
-    type SerializeStructVariant = MapSerializer;
+    type SerializeStructVariant = VariantSerializer<MapSerializer>;
 
     fn serialize_bool(self, v: bool) -> Result<Yaml, Self::Error> {
         Ok(Yaml::UnquotedString(
@@ -256,10 +264,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Yaml, Self::Error> {
-        value.serialize(self)
+        Ok(tagged(variant, value.serialize(self)?))
     }
     fn serialize_seq(self, _len: Option<usize>) -> Result<SeqSerializer, Self::Error> {
         Ok(SeqSerializer {
@@ -282,10 +290,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<TupleSerializer, Self::Error> {
-        self.serialize_tuple(len)
+    ) -> Result<VariantSerializer<TupleSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, content: self.serialize_tuple(len)? })
     }
     fn serialize_map(self, _len: Option<usize>) -> Result<MapSerializer, Self::Error> {
         Ok(MapSerializer {
@@ -304,10 +312,10 @@ impl ser::Serializer for YamlSerializer {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
-    ) -> Result<MapSerializer, Self::Error> {
-        self.serialize_map(Some(len))
+    ) -> Result<VariantSerializer<MapSerializer>, Self::Error> {
+        Ok(VariantSerializer { variant, content: self.serialize_map(Some(len))? })
     }
 }
 
@@ -375,16 +383,22 @@ impl ser::SerializeTupleStruct for TupleSerializer {
     }
 }
 
-impl ser::SerializeTupleVariant for TupleSerializer {
+// The content of an enum variant, which ends up under the name of the variant.
+pub struct VariantSerializer<S> {
+    variant: &'static str,
+    content: S,
+}
+
+impl ser::SerializeTupleVariant for VariantSerializer<TupleSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
     fn serialize_field<T: Serialize + ?Sized>(&mut self, value: &T) -> Result<(), Self::Error> {
-        ser::SerializeTuple::serialize_element(self, value)
+        ser::SerializeTuple::serialize_element(&mut self.content, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeTuple::end(self)
+        Ok(tagged(self.variant, ser::SerializeTuple::end(self.content)?))
     }
 }
 
@@ -448,7 +462,7 @@ impl ser::SerializeStruct for MapSerializer {
     }
 }
 
-impl ser::SerializeStructVariant for MapSerializer {
+impl ser::SerializeStructVariant for VariantSerializer<MapSerializer> {
     type Ok = Yaml;
     type Error = YamlSerializeError;
 
@@ -457,10 +471,10 @@ impl ser::SerializeStructVariant for MapSerializer {
         key: &'static str,
         value: &T,
     ) -> Result<(), Self::Error> {
-        ser::SerializeStruct::serialize_field(self, key, value)
+        ser::SerializeStruct::serialize_field(&mut self.content, key, value)
     }
 
     fn end(self) -> Result<Yaml, Self::Error> {
-        ser::SerializeMap::end(self)
+        Ok(tagged(self.variant, ser::SerializeMap::end(self.content)?))
     }
 }
-- 
2.43.0


From 3770782ffd5900803d02094c3d5c7f9525f2f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 24/37] fix: read back 128-bit integers

---
 src/yaml/deserializer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index 1100062..d3c72f8 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -242,6 +242,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected integer"))
         }
     }
+    fn deserialize_i128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<i128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_i128(v))
+        } else {
+            Err(Self::Error::custom("expected integer"))
+        }
+    }
     fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_u64(visitor)
     }
@@ -261,6 +271,16 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             Err(Self::Error::custom("expected unsigned integer"))
         }
     }
+    fn deserialize_u128<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
+        let (yaml, _) = into_resolved(self.yaml, self.anchors)?;
+        if let Some(s) = yaml_to_string(&yaml) {
+            s.parse::<u128>()
+                .map_err(|e| Self::Error::custom(e))
+                .and_then(|v| visitor.visit_u128(v))
+        } else {
+            Err(Self::Error::custom("expected unsigned integer"))
+        }
+    }
     fn deserialize_f32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
         self.deserialize_f64(visitor)
     }
-- 
2.43.0


From afa8971a5ca38b155b73917da7b732473cbf018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 25/37] fix: do not read the indentation of a scalar on its own
 line as text

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index aefd8ad..66416e7 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -73,7 +73,7 @@ nested_array = { first_block_array_element ~ array_continuation? ~ commentnls }
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
 alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 
-yaml_value= { hash | array | string_multiline_literal | string_multiline_folded | inline_value }
+yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
 aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
 first_hash_element = { hash_element ~ comment? }
-- 
2.43.0


From d293023a3b06abf712fb53431a48d8f033ec75ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 26/37] fix: do not take the dash of a sequence entry for the
 start of a string

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index 66416e7..a77d2f9 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -14,7 +14,7 @@ disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | NEWLINE }
+disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | "-" ~ (SPACE_SEPARATOR | NEWLINE | EOI) | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
-- 
2.43.0


From f977e1f1702461d9a99ab1c69021aebc442c8721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 27/37] fix: fold the lines of a folded string as YAML does

---
 src/yaml/string.rs | 57 +++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 398b3db..102fe99 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -41,35 +41,34 @@ pub fn parse_folded(lines: Vec<&str>, chomping: BlockChomping) -> String {
     if lines.is_empty() {
         return String::new();
     }
-    let start = lines[0].to_string();
-
-    let result = lines
-        .into_iter()
-        .skip(1)
-        .fold((start, false), |(s, prev_was_empty), element| {
-            let mut c = s.clone(); // TODO
-            let is_empty = if element.is_empty() {
-                c.push_str("\n");
-                true
-            } else {
-                let without_indent = &element; // TODO: remove
-
-                if without_indent.starts_with(" ") {
-                    c.push_str("\n");
-                    c.push_str(without_indent);
-                    c.push_str("\n");
-                    true
-                } else {
-                    if !prev_was_empty {
-                        c.push_str(" ");
-                    }
-                    c.push_str(without_indent);
-                    false
-                }
-            };
-            (c, is_empty)
-        })
-        .0;
+    let mut result = String::new();
+    // Blank lines since the last line with text
+    let mut blank_lines = 0;
+    let mut previous: Option<&str> = None;
+    let is_indented = |line: &str| line.starts_with(' ') || line.starts_with('\t');
+    for line in lines {
+        if line.is_empty() {
+            blank_lines += 1;
+            continue;
+        }
+        match previous {
+            None => result.push_str(&"\n".repeat(blank_lines)),
+            // The line breaks around a more indented line are not folded
+            Some(previous) if is_indented(previous) || is_indented(line) => {
+                result.push_str(&"\n".repeat(blank_lines + 1))
+            }
+            Some(_) if blank_lines == 0 => result.push(' '),
+            Some(_) => result.push_str(&"\n".repeat(blank_lines)),
+        }
+        result.push_str(line);
+        previous = Some(line);
+        blank_lines = 0;
+    }
+    let trailing = match previous {
+        Some(_) => blank_lines,
+        None => blank_lines - 1,
+    };
+    result.push_str(&"\n".repeat(trailing));
     handle_ending_newlines(result, chomping)
 }
 
-- 
2.43.0


From 04572c0edb0109d01e17cc0a9b8fd5fa021de863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 28/37] fix: clip a block scalar without text to the empty
 string

---
 src/yaml/string.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/yaml/string.rs b/src/yaml/string.rs
index 102fe99..9e51853 100644
--- a/src/yaml/string.rs
+++ b/src/yaml/string.rs
@@ -10,7 +10,10 @@ fn handle_ending_newlines(s: String, chomping: BlockChomping) -> String {
         }
         BlockChomping::Clip => {
             let mut result = s.trim_end_matches('\n').to_string();
-            result.push('\n');
+            // There is no final line break to keep when there is no text
+            if !result.is_empty() {
+                result.push('\n');
+            }
             result
         }
         BlockChomping::Strip => s.trim_end_matches('\n').to_string(),
-- 
2.43.0


From 4370145a909148bc0aa269c9316146b388e2e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 29/37] fix: write a flow string that ends in a colon so that
 it can be read back

---
 src/yaml/mod.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index e5fe41b..ff9f8d1 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -336,9 +336,7 @@ impl Yaml {
                     write!(f, " {}:", element.0)?;
                     element.1.format(f, 0, None)?;
                 }
-                if !v.is_empty() {
-                    write!(f, " ")?;
-                }
+                end_of_flow(f, v.is_empty())?;
                 write!(f, "}}")
             }
             Yaml::Hash(v) => {
@@ -384,9 +382,7 @@ impl Yaml {
                     }
                     element.format(f, 0, None)?;
                 }
-                if !v.is_empty() {
-                    write!(f, " ")?;
-                }
+                end_of_flow(f, v.is_empty())?;
                 write!(f, "]")
             }
             Yaml::Array(v) => {
@@ -525,6 +521,15 @@ impl Yaml {
     }
 }
 
+/// The space before the end of a flow collection,
+/// which would make an entry of a mapping of a string that ends in a colon
+fn end_of_flow(f: &mut String, is_empty: bool) -> std::fmt::Result {
+    if !is_empty && !f.ends_with(':') {
+        write!(f, " ")?;
+    }
+    Ok(())
+}
+
 /// The indentation of a block scalar is detected on its first line that is not empty,
 /// so it must be given when there is no such line, or when that line is indented itself
 fn needs_indentation_indicator(lines: &[String]) -> bool {
-- 
2.43.0


From dd30feae8b94e61c2d692e9a3c8d123f95b00985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 30/37] fix: move a field that is listed twice only once

---
 src/yaml/insert.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yaml/insert.rs b/src/yaml/insert.rs
index be3d08b..f690b54 100644
--- a/src/yaml/insert.rs
+++ b/src/yaml/insert.rs
@@ -155,6 +155,9 @@ pub trait YamlInsert {
                 }
                 let fields: Vec<_> = fields_to_move
                     .iter()
+                    .enumerate()
+                    .filter(|(index, key)| !fields_to_move[..*index].contains(*key))
+                    .map(|(_, key)| key)
                     .filter(|key| *key != &subfield)
                     .filter_map(|key| {
                         let comment = hash.key_comment(key);
-- 
2.43.0


From 81d1f69ec185e1e093f100125b2a5b6696199f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 31/37] fix: resolve an anchor to the last alias before it

---
 src/yaml/deserializer.rs | 176 ++++++++++++++++++++++++++-------------
 1 file changed, 120 insertions(+), 56 deletions(-)

diff --git a/src/yaml/deserializer.rs b/src/yaml/deserializer.rs
index d3c72f8..d62fef2 100644
--- a/src/yaml/deserializer.rs
+++ b/src/yaml/deserializer.rs
@@ -4,9 +4,8 @@ use serde::Deserialize;
 use super::string::{
     parse_double_quoted_string, parse_folded, parse_literal, parse_single_quoted_string,
 };
-use super::{AliasedYaml, ArrayData, HashData, VisitYaml, Yaml};
+use super::{AliasedYaml, ArrayData, HashData, Yaml};
 use std::cell::RefCell;
-use std::collections::HashMap;
 use std::rc::Rc;
 
 // ─── Error ───────────────────────────────────────────────────────────────────
@@ -51,62 +50,129 @@ fn yaml_to_string(yaml: &Yaml) -> Option<String> {
     }
 }
 
-type Anchors = Rc<RefCell<HashMap<String, Yaml>>>;
+// The aliases that are known at some point of the document, in document order
+type Anchors = Rc<RefCell<Vec<Definition>>>;
 
-fn register(anchors: &Anchors, aliased: &AliasedYaml) {
+#[derive(Clone)]
+struct Definition {
+    name: String,
+    value: Yaml,
+    // The number of aliases that are known where the value starts
+    known_before: usize,
+}
+
+// Adds the aliases in the value, and then its own, to those that are known before it
+fn define(aliased: &AliasedYaml, known_before: usize, definitions: &mut Vec<Definition>) {
+    let start = known_before + definitions.len();
+    define_children(&aliased.value, known_before, definitions);
     if let Some(name) = &aliased.alias {
-        anchors.borrow_mut().insert(name.clone(), aliased.value.clone());
+        definitions.push(Definition {
+            name: name.clone(),
+            value: aliased.value.clone(),
+            known_before: start,
+        });
     }
 }
 
-fn resolve(anchors: &Anchors, name: &str) -> Result<Yaml, YamlDeserializeError> {
-    anchors
-        .borrow()
-        .get(name)
-        .cloned()
-        .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))
+fn define_children(yaml: &Yaml, known_before: usize, definitions: &mut Vec<Definition>) {
+    match yaml {
+        Yaml::Hash(data) => {
+            for d in data {
+                if let HashData::Element(e) = d {
+                    define(&e.value, known_before, definitions);
+                }
+            }
+        }
+        Yaml::Array(data) => {
+            for d in data {
+                if let ArrayData::Element(e) = d {
+                    define(e, known_before, definitions);
+                }
+            }
+        }
+        Yaml::InlineHash(data) => {
+            for (_, v) in data {
+                define_children(v, known_before, definitions);
+            }
+        }
+        Yaml::InlineArray(data) => {
+            for v in data {
+                define_children(v, known_before, definitions);
+            }
+        }
+        Yaml::UnquotedString(_)
+        | Yaml::SingleQuotedString(_)
+        | Yaml::DoubleQuotedString(_)
+        | Yaml::LiteralString(_, _)
+        | Yaml::FoldedString(_, _)
+        | Yaml::Anchor(_) => {}
+    }
 }
 
-fn hash_entries(anchors: &Anchors, data: Vec<HashData>) -> Vec<(String, Yaml)> {
+// An anchor stands for the last alias before it. Its value only knows the aliases before that
+// value, thus an anchor cannot be used within its own value: that value would never end
+fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
+    match yaml {
+        Yaml::Anchor(name) => {
+            let (value, known) = {
+                let known = anchors.borrow();
+                let definition = known
+                    .iter()
+                    .rfind(|d| d.name == name)
+                    .ok_or_else(|| YamlDeserializeError(format!("undefined anchor: {name}")))?;
+                (definition.value.clone(), known[..definition.known_before].to_vec())
+            };
+            into_resolved(value, Rc::new(RefCell::new(known)))
+        }
+        other => Ok((other, anchors)),
+    }
+}
+
+// Reads an element or entry. The aliases in it are known after it, whatever was read of it
+fn read<'de, T: DeserializeSeed<'de>>(
+    seed: T,
+    aliased: AliasedYaml,
+    anchors: &Anchors,
+) -> Result<T::Value, YamlDeserializeError> {
+    let known_before = anchors.borrow().len();
+    let mut definitions = vec![];
+    define(&aliased, known_before, &mut definitions);
+    let result = seed.deserialize(YamlDeserializer::with(aliased.value, Rc::clone(anchors)));
+    let mut known = anchors.borrow_mut();
+    known.truncate(known_before);
+    known.extend(definitions);
+    result
+}
+
+fn without_alias(value: Yaml) -> AliasedYaml {
+    AliasedYaml { alias: None, value }
+}
+
+fn hash_entries(data: Vec<HashData>) -> Vec<(String, AliasedYaml)> {
     data.into_iter()
         .filter_map(|d| match d {
-            HashData::Element(e) => {
-                register(anchors, &e.value);
-                Some((e.key, e.value.value))
-            }
+            HashData::Element(e) => Some((e.key, e.value)),
             HashData::InlineComment(_) | HashData::Comment(_) => None,
         })
         .collect()
 }
 
-fn seq_values(anchors: &Anchors, elements: Vec<ArrayData>) -> Vec<Yaml> {
+fn inline_hash_entries(data: Vec<(String, Yaml)>) -> Vec<(String, AliasedYaml)> {
+    data.into_iter().map(|(key, value)| (key, without_alias(value))).collect()
+}
+
+fn seq_values(elements: Vec<ArrayData>) -> Vec<AliasedYaml> {
     elements
         .into_iter()
         .filter_map(|d| match d {
-            ArrayData::Element(e) => {
-                register(anchors, &e);
-                Some(e.value)
-            }
+            ArrayData::Element(e) => Some(e),
             ArrayData::InlineComment(_) | ArrayData::Comment(_) => None,
         })
         .collect()
 }
 
-fn into_resolved(yaml: Yaml, anchors: Anchors) -> Result<(Yaml, Anchors), YamlDeserializeError> {
-    match yaml {
-        Yaml::Anchor(ref name) => {
-            let resolved = resolve(&anchors, name)?;
-            into_resolved(resolved, without(&anchors, name))
-        }
-        other => Ok((other, anchors)),
-    }
-}
-
-// An anchor cannot be used within its own value: that value would never end
-fn without(anchors: &Anchors, name: &str) -> Anchors {
-    let mut anchors = anchors.borrow().clone();
-    anchors.remove(name);
-    Rc::new(RefCell::new(anchors))
+fn inline_seq_values(elements: Vec<Yaml>) -> Vec<AliasedYaml> {
+    elements.into_iter().map(without_alias).collect()
 }
 
 // ─── Main Deserializer ───────────────────────────────────────────────────────
@@ -118,7 +184,7 @@ pub struct YamlDeserializer {
 
 impl YamlDeserializer {
     pub fn new(yaml: Yaml) -> Self {
-        Self { yaml, anchors: Rc::new(RefCell::new(HashMap::new())) }
+        Self { yaml, anchors: Rc::new(RefCell::new(vec![])) }
     }
 
     fn with(yaml: Yaml, anchors: Anchors) -> Self {
@@ -191,15 +257,15 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
                 visitor.visit_string(parse_single_quoted_string(parts))
             }
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
+            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(inline_seq_values(elements), anchors)),
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
-            Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
+            Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(inline_hash_entries(data), anchors)),
             anchor @ Yaml::Anchor(_) => {
                 let (resolved, anchors) = into_resolved(anchor, anchors)?;
                 YamlDeserializer::with(resolved, anchors).deserialize_any(visitor)
@@ -348,10 +414,10 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Array(elements) => {
-                let values = seq_values(&anchors, elements);
+                let values = seq_values(elements);
                 visitor.visit_seq(VecSeqAccess::new(values, anchors))
             }
-            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(elements, anchors)),
+            Yaml::InlineArray(elements) => visitor.visit_seq(VecSeqAccess::new(inline_seq_values(elements), anchors)),
             _ => Err(Self::Error::custom("expected sequence")),
         }
     }
@@ -377,10 +443,10 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
         let (yaml, anchors) = into_resolved(self.yaml, self.anchors)?;
         match yaml {
             Yaml::Hash(data) => {
-                let entries = hash_entries(&anchors, data);
+                let entries = hash_entries(data);
                 visitor.visit_map(VecMapAccess::new(entries, anchors))
             }
-            Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(data, anchors)),
+            Yaml::InlineHash(data) => visitor.visit_map(VecMapAccess::new(inline_hash_entries(data), anchors)),
             _ => Err(Self::Error::custom("expected map")),
         }
     }
@@ -420,10 +486,10 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
             // Newtype / tuple / struct variant: single-key map where the key is
             // the variant name and the value is the variant's content.
             Yaml::Hash(data) => {
-                let mut entries = hash_entries(&anchors, data);
+                let mut entries = hash_entries(data);
                 if entries.len() == 1 {
                     let (variant, value) = entries.remove(0);
-                    visitor.visit_enum(StrEnumAccess { variant, value, anchors })
+                    visitor.visit_enum(StrEnumAccess { variant, value: value.value, anchors })
                 } else {
                     Err(Self::Error::custom(
                         "expected single-key map for tagged enum variant",
@@ -451,8 +517,6 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
     }
 
     fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Self::Error> {
-        // The rest of the document can use what is anchored in the ignored value
-        self.yaml.visit_yaml(&mut |aliased: &AliasedYaml| register(&self.anchors, aliased));
         visitor.visit_unit()
     }
 }
@@ -460,12 +524,12 @@ impl<'de> de::Deserializer<'de> for YamlDeserializer {
 // ─── Sequence Access ─────────────────────────────────────────────────────────
 
 struct VecSeqAccess {
-    iter: std::vec::IntoIter<Yaml>,
+    iter: std::vec::IntoIter<AliasedYaml>,
     anchors: Anchors,
 }
 
 impl VecSeqAccess {
-    fn new(v: Vec<Yaml>, anchors: Anchors) -> Self {
+    fn new(v: Vec<AliasedYaml>, anchors: Anchors) -> Self {
         Self { iter: v.into_iter(), anchors }
     }
 }
@@ -478,7 +542,7 @@ impl<'de> SeqAccess<'de> for VecSeqAccess {
         seed: T,
     ) -> Result<Option<T::Value>, Self::Error> {
         match self.iter.next() {
-            Some(yaml) => seed.deserialize(YamlDeserializer::with(yaml, Rc::clone(&self.anchors))).map(Some),
+            Some(aliased) => read(seed, aliased, &self.anchors).map(Some),
             None => Ok(None),
         }
     }
@@ -487,13 +551,13 @@ impl<'de> SeqAccess<'de> for VecSeqAccess {
 // ─── Map Access ──────────────────────────────────────────────────────────────
 
 struct VecMapAccess {
-    iter: std::vec::IntoIter<(String, Yaml)>,
-    pending_value: Option<Yaml>,
+    iter: std::vec::IntoIter<(String, AliasedYaml)>,
+    pending_value: Option<AliasedYaml>,
     anchors: Anchors,
 }
 
 impl VecMapAccess {
-    fn new(v: Vec<(String, Yaml)>, anchors: Anchors) -> Self {
+    fn new(v: Vec<(String, AliasedYaml)>, anchors: Anchors) -> Self {
         Self {
             iter: v.into_iter(),
             pending_value: None,
@@ -527,7 +591,7 @@ impl<'de> MapAccess<'de> for VecMapAccess {
             .pending_value
             .take()
             .expect("next_value_seed called without next_key_seed");
-        seed.deserialize(YamlDeserializer::with(v, Rc::clone(&self.anchors)))
+        read(seed, v, &self.anchors)
     }
 }
 
-- 
2.43.0


From fe53bfbf628bcf468dff4dbb189c8d415bf84b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 32/37] fix: read the same path whatever spaces surround its
 names and numbers

---
 src/path.pest | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/path.pest b/src/path.pest
index a59c821..de60fe5 100644
--- a/src/path.pest
+++ b/src/path.pest
@@ -1,14 +1,16 @@
 WHITESPACE = _{ " " }
 
-key_items = _{ !("[" | "]" | "." | "|") ~ ANY }
-pure_key = { key_items+ }
+key_items = _{ !("[" | "]" | "." | "|" | " ") ~ ANY }
+pure_key = @{ key_items ~ (" "* ~ key_items)* }
 
-field = { (!("=") ~ ANY)+ }
-value = { (!("." | "|") ~ ANY)+ }
+field_items = _{ !("=" | " ") ~ ANY }
+field = @{ field_items ~ (" "* ~ field_items)* }
+value_items = _{ !("." | "|" | " ") ~ ANY }
+value = @{ value_items ~ (" "* ~ value_items)* }
 condition = { field ~ "=" ~ value }
 key = { pure_key ~ ( "|" ~ condition )* }
 
-index_number = { ASCII_DIGIT+ }
+index_number = @{ ASCII_DIGIT+ }
 index_all = { "*" }
 index = _{ "[" ~ (index_number | index_all) ~ "]" ~ ( "|" ~ condition )* }
 
@@ -16,5 +18,5 @@ part = { ((".") ~ key) | index }
 path = { key ~ part* }
 root_key = { "" }
 root = { root_key ~ ( "|" ~ condition )* }
-final_path = { (path | root ) ~ EOI }
+final_path = { SOI ~ (path | root ) ~ EOI }
 
-- 
2.43.0


From 0b56a8fd97e99fe0696e382a7808713579084760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 33/37] fix: keep a string with a comment on its line on that
 line when pretty-printing

---
 src/yaml/mod.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index ff9f8d1..4ac6232 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -700,6 +700,23 @@ fn block_or_quoted(block: Yaml, quoted: Yaml) -> Yaml {
     }
 }
 
+// A string with a comment on its line stays on that line: no comment can follow a block scalar
+fn pretty_entries<T: Pretty + Clone>(
+    entries: Vec<T>,
+    child_of_array: bool,
+    is_line_comment: fn(&T) -> bool,
+    fills_last_line: fn(&T) -> bool,
+) -> Vec<T> {
+    let mut prettied = entries.clone().pretty_with_options(false, child_of_array);
+    for (idx, entry) in entries.iter().enumerate() {
+        let has_line_comment = entries.get(idx + 1).map_or(false, is_line_comment);
+        if has_line_comment && fills_last_line(&prettied[idx]) && !fills_last_line(entry) {
+            prettied[idx] = entry.clone();
+        }
+    }
+    prettied
+}
+
 impl Pretty for Yaml {
     fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> Yaml {
         let max_line_length = 90;
@@ -723,7 +740,12 @@ impl Pretty for Yaml {
                         .collect();
                     Yaml::InlineHash(entries)
                 } else {
-                    Yaml::Hash(v.pretty_with_options(false, false))
+                    Yaml::Hash(pretty_entries(
+                        v,
+                        false,
+                        |d| matches!(d, HashData::InlineComment(_)),
+                        HashData::fills_last_line,
+                    ))
                 }
             }
             Yaml::InlineArray(v) => Yaml::InlineArray(v.pretty_with_options(true, false)),
@@ -742,7 +764,12 @@ impl Pretty for Yaml {
                         .collect();
                     return Yaml::InlineArray(elements);
                 }
-                let prettied: Vec<ArrayData> = v.pretty_with_options(false, true);
+                let prettied = pretty_entries(
+                    v,
+                    true,
+                    |d| matches!(d, ArrayData::InlineComment(_)),
+                    ArrayData::fills_last_line,
+                );
                 // Auto-inline when this array is a direct child of another block array.
                 if child_of_array {
                     let can_inline = prettied.iter().all(|d| match d {
-- 
2.43.0


From fd73fc5062b81a1b343dd3a8f4409606b1531ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 34/37] fix: write a comment right after a string that ends in
 a colon, which a space would make a key

---
 src/yaml/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 4ac6232..2006eda 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -351,7 +351,7 @@ impl Yaml {
                         HashData::InlineComment(c) if v[..idx].last().map_or(false, HashData::fills_last_line) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        HashData::InlineComment(c) => write!(f, " #{}", c),
+                        HashData::InlineComment(c) => inline_comment(f, c),
                         HashData::Element(v) => {
                             let element = Some(Parent::Hash);
                             let same_line = match (element, parent) {
@@ -395,7 +395,7 @@ impl Yaml {
                         ArrayData::InlineComment(c) if v[..idx].last().map_or(false, ArrayData::fills_last_line) => {
                             write!(f, "\n{}#{}", indent(spaces), c)
                         }
-                        ArrayData::InlineComment(c) => write!(f, " #{}", c),
+                        ArrayData::InlineComment(c) => inline_comment(f, c),
                         ArrayData::Element(v) => {
                             let element = Some(Parent::Array);
                             let same_line = match (element, parent) {
@@ -521,6 +521,13 @@ impl Yaml {
     }
 }
 
+/// Writes a comment on the line of an entry. Without a space where one would make a string that
+/// ends in a colon a key.
+fn inline_comment(f: &mut String, comment: &str) -> std::fmt::Result {
+    let space = if f.ends_with(':') { "" } else { " " };
+    write!(f, "{}#{}", space, comment)
+}
+
 /// The space before the end of a flow collection,
 /// which would make an entry of a mapping of a string that ends in a colon
 fn end_of_flow(f: &mut String, is_empty: bool) -> std::fmt::Result {
-- 
2.43.0


From da92f05faeacfe8bfb212bf88e352a803b808fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 35/37] fix: read an alias on the line below its key, which was
 read as part of a string

---
 src/yaml.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index a77d2f9..b6ae9fd 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -71,10 +71,10 @@ alternative_array = { first_block_array_element ~ array_continuation ~ commentnl
 nested_array = { first_block_array_element ~ array_continuation? ~ commentnls }
 
 block_array_aliased_yaml_value = { alternative_aliased_yaml_value | aliased_yaml_value }
-alternative_aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
+alternative_aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ (alternative_hash | alternative_array) }
 
 yaml_value= { hash | array | SPACE_SEPARATOR* ~ (string_multiline_literal | string_multiline_folded | inline_value) }
-aliased_yaml_value = { (alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
+aliased_yaml_value = { (SPACE_SEPARATOR* ~ alias ~ SPACE_SEPARATOR*)? ~ yaml_value }
 hash_element = { hash_key ~ ":" ~ (SPACE_SEPARATOR+ | blanknl) ~ block_array_aliased_yaml_value}
 first_hash_element = { hash_element ~ comment? }
 hash_element_data = { blanknl ~ commentnls ~ PEEK ~ hash_element ~ comment? }
-- 
2.43.0


From 87be0c2d3b135a8741e5a58c7bff43949a4aa7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 36/37] fix: do not read a dash with a comment after it as a
 string, which cannot be written as one

---
 src/yaml.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml.pest b/src/yaml.pest
index b6ae9fd..cd8dd23 100644
--- a/src/yaml.pest
+++ b/src/yaml.pest
@@ -14,7 +14,7 @@ disallowed_unquoted_inline_string_elements = { "," | "[" | "]" | "{" | "}" | ":
 unquoted_inline_string_elements = { !(disallowed_unquoted_inline_string_elements) ~ ANY } 
 unquoted_inline_string_start_elements = { !(disallowed_unquoted_inline_string_start_elements) ~ ANY } 
 unquoted_inline_string = @{ unquoted_inline_string_start_elements ~ unquoted_inline_string_elements* }
-disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | "-" ~ (SPACE_SEPARATOR | NEWLINE | EOI) | NEWLINE }
+disallowed_unquoted_string_start_elements = { "[" | "]" | "{" | "}" | ": " | "\"" | "'" | "#" | ">" | "|" | "-" ~ (SPACE_SEPARATOR | NEWLINE | "#" | EOI) | NEWLINE }
 disallowed_unquoted_string_elements = { ": " | "#" |  NEWLINE }
 unquoted_string_elements = { !(disallowed_unquoted_string_elements) ~ ANY } 
 unquoted_string_start_elements = { !(disallowed_unquoted_string_start_elements) ~ ANY } 
-- 
2.43.0


From 787130b35c8ac03d70b1372ce7c6476c280f87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 37/37] fix: give the indentation of a block scalar that starts
 with a line of other spaces

---
 src/yaml/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/yaml/mod.rs b/src/yaml/mod.rs
index 2006eda..f1a96c7 100644
--- a/src/yaml/mod.rs
+++ b/src/yaml/mod.rs
@@ -543,7 +543,12 @@ fn needs_indentation_indicator(lines: &[String]) -> bool {
     lines
         .iter()
         .find(|line| !line.is_empty())
-        .map_or(true, |line| line.starts_with(' '))
+        .map_or(true, |line| line.starts_with(' ') || is_separators(line))
+}
+
+/// Whether a line is taken for a blank one where the indentation is not known yet
+fn is_separators(line: &str) -> bool {
+    line.chars().all(|c| c.is_whitespace() && !c.is_control())
 }
 
 pub trait Pretty {
-- 
2.43.0

