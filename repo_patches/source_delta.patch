From f985d8946aca7b7941a1d4834f4f7fdea6ad0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 01/52] fix: comments and empty lines after a line continuation
 are not tokens

---
 oca-file/src/ocafile.pest                | 5 ++++-
 semantics/oca-file/src/ocafile.pest      | 8 ++++++--
 transformation/oca-file/src/ocafile.pest | 8 ++++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 626ef22..5cb8a50 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -2,7 +2,10 @@
 
 // insignificant whitespace, not repeated
 ws = _{ " " | "\t" }
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+// comments and empty lines following a line continuation; they are part of the
+// white space and produce no tokens
+continuation_noise = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+arg_ws = _{ (ws | line_continuation ~ continuation_noise*)+ }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 comment = @{ "#" ~ (!NEWLINE ~ ANY)* }
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 6924889..e89b75e 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -27,12 +27,16 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// comments and empty lines following a line continuation; they are part of the
+// white space and produce no tokens
+continuation_noise = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ continuation_noise*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ continuation_noise*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 2a7119e..be421f4 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -27,12 +27,16 @@ string = ${ single_quoted_string | double_quoted_string }
 // a line continuation, allowing an instruction to continue onto a new line
 line_continuation = _{ "\\" ~ ws* ~ NEWLINE }
 
+// comments and empty lines following a line continuation; they are part of the
+// white space and produce no tokens
+continuation_noise = _{ ws* ~ ("#" ~ (!NEWLINE ~ ANY)* ~ NEWLINE? | NEWLINE) }
+
 // whitespace that may appear between instruction arguments
 // this allows instructions to expand past a newline if escaped
-arg_ws = _{ (ws | line_continuation ~ (comment_line | empty_line)*)+ }
+arg_ws = _{ (ws | line_continuation ~ continuation_noise*)+ }
 
 // like arg_ws, but where whitespace is optional
-arg_ws_maybe = _{ (ws | line_continuation ~ (comment_line | empty_line)*)* }
+arg_ws_maybe = _{ (ws | line_continuation ~ continuation_noise*)* }
 
 // continues consuming input beyond a newline, if the newline is preceeded by an
 // escape (\)
-- 
2.43.0


From 3cf705f522322b2a02eda916762db4a42846a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 02/52] fix: strings with many escapes do not overflow the
 parser's stack

---
 oca-file/src/ocafile.pest                | 4 ++--
 semantics/oca-file/src/ocafile.pest      | 4 ++--
 transformation/oca-file/src/ocafile.pest | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 5cb8a50..08e7547 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -24,9 +24,9 @@ commands = _{
 
 string = ${ single_quoted_string | double_quoted_string }
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index e89b75e..1fa68d5 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index be421f4..6559369 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -15,12 +15,12 @@ comment_line = _{ ws* ~ comment ~ NEWLINE? }
 empty_line = @{ ws* ~ NEWLINE }
 
 double_quoted_string  = _{ "\"" ~ inner ~ "\"" }
-inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ inner)? }
+inner   = @{ (!("\"" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 escape  = @{ "\\" ~ ("b" | "t" | "n" | "f" | "r" | "\"" | "\\" | "'" | unicode | NEWLINE)? }
 unicode = @{ "u" ~ ASCII_HEX_DIGIT{4} | "U" ~ ASCII_HEX_DIGIT{8} }
 
 single_quoted_string = _{ "'" ~ single_quoted_inner ~ "'" }
-single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY)* ~ (escape ~ single_quoted_inner)? }
+single_quoted_inner  = @{ (!("'" | "\\" | "\u{0000}" | "\u{001F}") ~ ANY | escape)* }
 
 string = ${ single_quoted_string | double_quoted_string }
 
-- 
2.43.0


From e10ba88ebe1f3349b2954d1692db6f6341389f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 03/52] fix: an unquoted unit ends at a tab or line
 continuation

---
 semantics/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 1fa68d5..b725707 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -212,7 +212,7 @@ key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 prop_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
 
-unit_char = ${ !" " ~ !NEWLINE ~ ANY }
+unit_char = ${ !(ws | NEWLINE | line_continuation) ~ ANY }
 unit_value = ${ string | unit_char+ }
 unit_key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ unit_value }
 unit_attr_key_pairs = ${ (arg_ws? ~ unit_key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 5d5a7e167113664a7cf3d6a0aedab536f3dd219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 04/52] fix: nesting of types and framing objects is limited
 instead of exhausting the stack

---
 semantics/oca-file/src/ocafile.pest | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index b725707..5a86e9b 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -89,6 +89,11 @@ add = { ^"add" ~ arg_ws* ~ oca_object }
 modify = { ^"modify" ~ char+ }
 remove = { ^"remove" ~ arg_ws* ~ remove_oca_object }
 
+// Enters one more level of nesting, of which there may be 64: deeper ones would
+// exhaust the stack of the parser or could not be read back from JSON. The stack
+// of the parser holds one entry for each level entered.
+nest = _{ !PEEK[63..64] ~ PUSH("") }
+
 SCRIPTS = { ADLAM | AHOM | ANATOLIAN_HIEROGLYPHS | ARABIC | ARMENIAN | AVESTAN
 | BALINESE | BAMUM | BASSA_VAH | BATAK | BENGALI | BHAIKSUKI | BOPOMOFO |
 BRAHMI | BRAILLE | BUGINESE | BUHID | CANADIAN_ABORIGINAL | CARIAN |
@@ -192,7 +197,7 @@ url = ${ string }
 json_key = ${ string }
 json_value = ${ string | url | json_object }
 json_pair = ${ json_key ~ arg_ws* ~ ":" ~ (arg_ws | NEWLINE)? ~ json_value ~ (arg_ws? ~ "," ~ (arg_ws | NEWLINE)?)? }
-json_object = ${ "{" ~ ((arg_ws | NEWLINE)? ~ arg_ws* ~ json_pair ~ (arg_ws | NEWLINE)?)+ ~ arg_ws* ~ "}" }
+json_object = ${ nest ~ "{" ~ ((arg_ws | NEWLINE)? ~ arg_ws* ~ json_pair ~ (arg_ws | NEWLINE)?)+ ~ arg_ws* ~ "}" ~ DROP }
 
 flagged_attrs = {^"flagged_attributes" ~ arg_ws ~ list_value}
 classification = { ^"classification" ~ arg_ws ~ classification_value}
@@ -243,7 +248,7 @@ base_attr_type = @{ ("Text" |
         "Binary" |
         "DateTime" )}
 
-array_attr_type = ${( "Array["~ arg_ws? ~ (base_attr_type | reference_type | array_attr_type ) ~ arg_ws? ~"]" )}
+array_attr_type = ${( nest ~ "Array["~ arg_ws? ~ (base_attr_type | reference_type | array_attr_type ) ~ arg_ws? ~"]" ~ DROP )}
 reference_type = _{ ref_said | ref_alias }
 alias = @{ char+ }
 said = @{ char+ }
-- 
2.43.0


From b60c64ac0a6485e70eef3c452baac844615ff8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 05/52] fix: FLAGGED_ATTRIBUTES marks the listed attributes as
 flagged

---
 semantics/oca-bundle/src/build.rs                    |  8 ++++++++
 semantics/oca-bundle/src/state/attribute.rs          |  2 ++
 .../oca-file/src/ocafile/instructions/helpers.rs     | 12 +++++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index b6e5ea5..1dfa1d2 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -152,6 +152,14 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                 }
             }
+            if let Some(ref flagged_attributes) = content.flagged_attributes {
+                for attr_name in flagged_attributes {
+                    match oca.attributes.get_mut(attr_name) {
+                        Some(attribute) => attribute.set_flagged(),
+                        None => errors.push(format!("Undefined attribute: {attr_name}")),
+                    }
+                }
+            }
         }
         (ast::CommandType::Add, ast::ObjectKind::Overlay(overlay_type, content)) => {
             match overlay_type {
diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 33ab18c..982f25c 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -85,6 +85,8 @@ impl Attribute {
                 self.attribute_type.clone_from(&other.attribute_type);
             }
 
+            self.is_flagged |= other.is_flagged;
+
             self.merge_labels(other);
             self.merge_information(other);
             self.merge_category_labels(other);
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index 7188edc..ec309cb 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -482,7 +482,17 @@ pub(crate) fn extract_flagged_attrs(object: pest::iterators::Pair<'_, Rule>) ->
     for attr in object.into_inner() {
         match attr.as_rule() {
             Rule::list_value => {
-                flagged_attrs.push(attr.as_str().to_string());
+                for value in attr.into_inner() {
+                    let quoted = value
+                        .clone()
+                        .into_inner()
+                        .find(|inner| inner.as_rule() == Rule::string)
+                        .and_then(|string| string.into_inner().next_back());
+                    match quoted {
+                        Some(quoted) => flagged_attrs.push(quoted.as_str().to_string()),
+                        None => flagged_attrs.push(value.as_str().to_string()),
+                    }
+                }
             }
             _ => {
                 debug!(
-- 
2.43.0


From facd9dd4900a4f5d9c67fd9b36466193e22a30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 06/52] fix: an AST made from a bundle keeps flagged
 attributes, links and framing

---
 semantics/oca-bundle/src/state/oca.rs | 80 +++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 241336f..a47d3ad 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -28,6 +28,7 @@ use convert_case::{Case, Casing};
 use isolang::Language;
 use oca_ast_semantics::ast::{
     CaptureContent, Command, CommandType, Content, NestedValue, OCAAst, ObjectKind, OverlayType,
+    RefValue,
 };
 /// Internal representation of OCA objects in split between non-attributes values and attributes.
 /// It is used to build dynamically objects without knowing yet whole structure of the object.
@@ -956,6 +957,17 @@ impl OCABundle {
         };
         ast.commands.push(command);
 
+        if !self.capture_base.flagged_attributes.is_empty() {
+            ast.commands.push(Command {
+                kind: CommandType::Add,
+                object_kind: ObjectKind::CaptureBase(CaptureContent {
+                    attributes: None,
+                    properties: None,
+                    flagged_attributes: Some(self.capture_base.flagged_attributes.clone()),
+                }),
+            });
+        }
+
         self.overlays.iter().for_each(|overlay| {
             match overlay.overlay_type() {
                 OverlayType::CharacterEncoding(_) => {
@@ -1287,6 +1299,74 @@ impl OCABundle {
                     };
                     ast.commands.push(command);
                 }
+                OverlayType::Link(_) => {
+                    let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
+                    let mut properties = IndexMap::new();
+                    if let Ok(target) = link.target_bundle.parse() {
+                        properties.insert(
+                            "target".to_string(),
+                            NestedValue::Reference(RefValue::Said(target)),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, linked_attr) in link.attribute_mapping.iter() {
+                        attributes
+                            .insert(attr_name.clone(), NestedValue::Value(linked_attr.clone()));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
+                OverlayType::AttributeFraming(_) => {
+                    let attribute_framing = overlay
+                        .as_any()
+                        .downcast_ref::<overlay::AttributeFraming>()
+                        .unwrap();
+                    let mut properties = IndexMap::new();
+                    for (meta_name, meta_value) in attribute_framing.metadata.iter() {
+                        let prop_name = meta_name.strip_prefix("frame_").unwrap_or(meta_name);
+                        properties.insert(
+                            prop_name.to_string(),
+                            NestedValue::Value(meta_value.clone()),
+                        );
+                    }
+                    let mut attributes = IndexMap::new();
+                    for (attr_name, framing) in attribute_framing.attribute_framing.iter() {
+                        let mut frames = IndexMap::new();
+                        for (term, scope) in framing.iter() {
+                            let mut frame = IndexMap::new();
+                            frame.insert(
+                                "predicate_id".to_string(),
+                                NestedValue::Value(scope.predicate_id.clone()),
+                            );
+                            frame.insert(
+                                "framing_justification".to_string(),
+                                NestedValue::Value(scope.framing_justification.clone()),
+                            );
+                            frames.insert(term.clone(), NestedValue::Object(frame));
+                        }
+                        attributes.insert(attr_name.clone(), NestedValue::Object(frames));
+                    }
+                    let command = Command {
+                        kind: CommandType::Add,
+                        object_kind: ObjectKind::Overlay(
+                            overlay.overlay_type().clone(),
+                            Content {
+                                attributes: Some(attributes),
+                                properties: Some(properties),
+                            },
+                        ),
+                    };
+                    ast.commands.push(command);
+                }
                 _ => {}
             }
         });
-- 
2.43.0


From d3d4114dfc41c6c33e0178bfee1e4495709766d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 07/52] fix: OCAfile text generated from an AST is complete and
 parses back

---
 semantics/oca-file/src/ocafile/mod.rs | 120 ++++++++++++++++++--------
 1 file changed, 83 insertions(+), 37 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 027bdf8..2ab6a48 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -130,7 +130,21 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 fn format_reference(ref_value: RefValue) -> String {
     match ref_value {
         RefValue::Said(said) => format!("refs:{}", said),
-        _ => panic!("Unsupported reference type: {:?}", ref_value),
+        RefValue::Name(name) => format!("refn:{}", name),
+    }
+}
+
+// Write a value as a string, in the quotes that the value does not contain
+fn format_string(value: &str) -> String {
+    let mut escaped = false;
+    let has_double_quote = value.chars().any(|c| {
+        let is_quote = c == '"' && !escaped;
+        escaped = c == '\\' && !escaped;
+        is_quote
+    });
+    match has_double_quote {
+        true => format!("'{}'", value),
+        false => format!("\"{}\"", value),
     }
 }
 
@@ -167,24 +181,39 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                 line.push_str("ADD ");
                 match &command.object_kind {
                     ast::ObjectKind::CaptureBase(content) => {
+                        let mut instructions = vec![];
                         if let Some(attributes) = &content.attributes {
-                            line.push_str("ATTRIBUTE");
-                            for (key, value) in attributes {
-                                line.push_str(&format!(" {}=", key));
-                                // TODO avoid clone
-                                let out = oca_file_format(value.clone());
-                                line.push_str(&out);
+                            if !attributes.is_empty() {
+                                let mut instruction = "ATTRIBUTE".to_string();
+                                for (key, value) in attributes {
+                                    // TODO avoid clone
+                                    let out = oca_file_format(value.clone());
+                                    instruction.push_str(&format!(" {}={}", key, out));
+                                }
+                                instructions.push(instruction);
                             }
                         }
                         if let Some(properties) = &content.properties {
                             for (prop_name, prop_value) in properties {
                                 if prop_name.eq("classification") {
                                     if let ast::NestedValue::Value(value) = prop_value {
-                                        line.push_str(format!("CLASSIFICATION {}", value).as_str());
+                                        instructions.push(format!("CLASSIFICATION {}", value));
                                     }
                                 }
                             }
                         }
+                        if let Some(flagged_attributes) = &content.flagged_attributes {
+                            let names = flagged_attributes
+                                .iter()
+                                .map(|name| format_string(name))
+                                .collect::<Vec<String>>()
+                                .join(" ");
+                            instructions.push(format!("FLAGGED_ATTRIBUTES {}", names));
+                        }
+                        if instructions.is_empty() {
+                            return;
+                        }
+                        line.push_str(&instructions.join("\nADD "));
                     }
                     ast::ObjectKind::Overlay(o_type, _) => match o_type {
                         ast::OverlayType::Meta(_) => {
@@ -193,7 +222,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref properties) = content.properties {
                                     let mut properties = properties.clone();
                                     if let Some(ast::NestedValue::Value(lang)) =
-                                        properties.remove("lang")
+                                        properties.shift_remove("lang")
                                     {
                                         line.push_str(format!("{} ", lang).as_str());
                                     }
@@ -202,7 +231,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, format_string(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -218,7 +247,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, format_string(value)).as_str(),
                                             );
                                         }
                                     });
@@ -248,7 +277,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(format_string(value))
                                                     } else {
                                                         None
                                                     }
@@ -266,14 +295,14 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 .iter()
                                                 .filter_map(|value| {
                                                     if let ast::NestedValue::Value(value) = value {
-                                                        Some(format!("\"{}\"", value))
+                                                        Some(format_string(value))
                                                     } else {
                                                         None
                                                     }
                                                 })
                                                 .collect::<Vec<String>>()
                                                 .join(", ");
-                                                    Some(format!("\"{}\": [{}]", group, codes))
+                                                    Some(format!("{}: [{}]", format_string(group), codes))
                                                     } else {
                                                         None
                                                     }
@@ -283,7 +312,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                             line.push_str(format!(" {}={{{}}}", key, group_codes).as_str());
                                         } else if let ast::NestedValue::Value(said) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, said).as_str(),
+                                                format!(" {}={}", key, format_string(said)).as_str(),
                                             );
                                         }
                                     });
@@ -296,7 +325,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref properties) = content.properties {
                                     let mut properties = properties.clone();
                                     if let Some(ast::NestedValue::Value(lang)) =
-                                        properties.remove("lang")
+                                        properties.shift_remove("lang")
                                     {
                                         line.push_str(format!("{} ", lang).as_str());
                                     }
@@ -311,7 +340,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                     if let Some(ref attributes) = content.attributes {
-                                        line.push_str("ATTRS ");
+                                        line.push_str("ATTRS");
                                         attributes.iter().for_each(|(key, value)| {
                                             // TODO there is no need for NestedValue here
                                             if let ast::NestedValue::Object(values) = value {
@@ -323,8 +352,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                             label
                                                         {
                                                             Some(format!(
-                                                                "\"{}\": \"{}\"",
-                                                                code, label
+                                                                "{}: {}",
+                                                                format_string(code),
+                                                                format_string(label)
                                                             ))
                                                         } else {
                                                             None
@@ -333,11 +363,11 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                     .collect::<Vec<String>>()
                                                     .join(", ");
                                                 line.push_str(
-                                                    format!("{}={{{}}}", key, codes).as_str(),
+                                                    format!(" {}={{{}}}", key, codes).as_str(),
                                                 );
                                             } else if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, format_string(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -365,7 +395,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, format_string(value)).as_str(),
                                             );
                                         }
                                     });
@@ -377,9 +407,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                             if let Some(content) = command.object_kind.overlay_content() {
                                 if let Some(ref properties) = content.properties {
                                     let target = properties.get("target");
-                                    if let Some(ast::NestedValue::Reference(RefValue::Said(target_said))) = target {
+                                    if let Some(ast::NestedValue::Reference(target)) = target {
                                         line.push_str(
-                                            format!("refs:{} ", target_said).as_str(),
+                                            format!("{} ", format_reference(target.clone())).as_str(),
                                         );
                                     }
                                 }
@@ -388,7 +418,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, format_string(value)).as_str(),
                                             );
                                         }
                                     });
@@ -402,7 +432,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     for (prop_name, prop_value) in properties {
                                         let key = prop_name.replace("frame_", "");
                                         if let ast::NestedValue::Value(value) = prop_value {
-                                            line.push_str(format!("        {}=\"{}\" \\\n", key, value).as_str());
+                                            line.push_str(format!("        {}={} \\\n", key, format_string(value)).as_str());
                                         }
                                     }
                                 }
@@ -415,8 +445,8 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                 let mut frame_str = "\n            ".to_string();
                                                 frame_str.push_str(
                                                     format!(
-                                                        "\"{}\": {{",
-                                                        f_key
+                                                        "{}: {{",
+                                                        format_string(f_key)
                                                     ).as_str()
                                                 );
 
@@ -425,9 +455,9 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                                         if let ast::NestedValue::Value(frame_value) = frame_value {
                                                             frame_str.push_str(
                                                                 format!(
-                                                                    "\n                \"{}\": \"{}\",",
-                                                                    frame_key,
-                                                                    frame_value
+                                                                    "\n                {}: {},",
+                                                                    format_string(frame_key),
+                                                                    format_string(frame_value)
                                                                 ).as_str()
                                                             );
                                                         }
@@ -457,7 +487,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                 if let Some(ref properties) = content.properties {
                                     let mut properties = properties.clone();
                                     if let Some(ast::NestedValue::Value(lang)) =
-                                        properties.remove("lang")
+                                        properties.shift_remove("lang")
                                     {
                                         line.push_str(format!("{} ", lang).as_str());
                                     }
@@ -466,7 +496,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         properties.iter().for_each(|(key, value)| {
                                             if let ast::NestedValue::Value(value) = value {
                                                 line.push_str(
-                                                    format!(" {}=\"{}\"", key, value).as_str(),
+                                                    format!(" {}={}", key, format_string(value)).as_str(),
                                                 );
                                             }
                                         });
@@ -477,7 +507,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
                                             line.push_str(
-                                                format!(" {}=\"{}\"", key, value).as_str(),
+                                                format!(" {}={}", key, format_string(value)).as_str(),
                                             );
                                         }
                                     });
@@ -505,15 +535,31 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                         }
                     }
                 }
-                ast::ObjectKind::Overlay(_o_type, _) => {
-                    todo!()
+                ast::ObjectKind::Overlay(o_type, content) => {
+                    line.push_str(
+                        format!("REMOVE {}", o_type.to_string().to_case(Case::UpperSnake)).as_str(),
+                    );
+                    if let Some(ast::NestedValue::Value(lang)) = content
+                        .properties
+                        .as_ref()
+                        .and_then(|properties| properties.get("lang"))
+                    {
+                        line.push_str(format!(" {}", lang).as_str());
+                    }
                 }
                 _ => {}
             },
             ast::CommandType::From => {
                 line.push_str("FROM ");
+                if let ast::ObjectKind::OCABundle(content) = &command.object_kind {
+                    let ast::ReferenceAttrType::Reference(reference) = &content.said;
+                    match reference {
+                        RefValue::Said(said) => line.push_str(&said.to_string()),
+                        RefValue::Name(_) => line.push_str(&format_reference(reference.clone())),
+                    }
+                }
             }
-            ast::CommandType::Modify => todo!(),
+            ast::CommandType::Modify => return,
         }
 
         ocafile.push_str(format!("{}\n", line).as_str());
-- 
2.43.0


From 363a82e9a4815517010e7c5ce6f74d9d034ebafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 08/52] fix: a later unit or entry code of an attribute
 replaces the earlier one

---
 semantics/oca-bundle/src/state/attribute.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 982f25c..3f4b461 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -104,17 +104,17 @@ impl Attribute {
                 self.format.clone_from(&other.format);
             }
 
-            if self.unit.is_none() {
+            if other.unit.is_some() {
                 self.unit.clone_from(&other.unit);
             }
 
-            if self.entry_codes.is_none() {
+            if other.entry_codes.is_some() {
                 self.entry_codes.clone_from(&other.entry_codes);
             }
 
             self.merge_entries(other);
 
-            if self.entry_codes_mapping.is_none() {
+            if other.entry_codes_mapping.is_some() {
                 self.entry_codes_mapping
                     .clone_from(&other.entry_codes_mapping);
             }
-- 
2.43.0


From 69a3b22369f47cc791b7614498dfa9af417f9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 09/52] fix: instructions that cannot be applied are errors,
 not panics

---
 semantics/oca-bundle/src/build.rs | 111 +++++++++++++++---------------
 1 file changed, 57 insertions(+), 54 deletions(-)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 1dfa1d2..d5d7646 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -110,13 +110,25 @@ pub fn from_ast(
             }
         }
     }
-    if errors.is_empty() {
-        Ok(OCABuild {
-            oca_bundle: base.unwrap().generate_bundle(),
+    match base {
+        Some(mut base) if errors.is_empty() => Ok(OCABuild {
+            oca_bundle: base.generate_bundle(),
             steps,
-        })
-    } else {
-        Err(errors)
+        }),
+        None if errors.is_empty() => Err(vec![Error::FromASTError {
+            line_number: default_command_meta.line_number,
+            raw_line: default_command_meta.raw_line,
+            message: "No instruction to build from".to_string(),
+        }]),
+        _ => Err(errors),
+    }
+}
+
+fn parse_language(lang: Option<&ast::NestedValue>) -> Result<isolang::Language, String> {
+    match lang {
+        Some(ast::NestedValue::Value(lang_str)) => isolang::Language::from_639_1(lang_str)
+            .ok_or_else(|| format!("Unknown language: {lang_str}")),
+        _ => Err("Undefined language".to_string()),
     }
 }
 
@@ -167,27 +179,21 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     if let Some(ref properties) = content.properties {
                         let mut mut_properties = properties.clone();
                         let lang = mut_properties.remove("lang");
-                        let mut lang_iso = None;
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
+                        let lang_iso = parse_language(lang.as_ref()).map_err(|e| vec![e])?;
 
                         for (prop_name, prop_value) in mut_properties {
                             if let ast::NestedValue::Value(value) = prop_value {
-                                oca.add_meta(lang_iso.unwrap(), prop_name.clone(), value.clone());
+                                oca.add_meta(lang_iso, prop_name.clone(), value.clone());
                             }
                         }
                     }
                 }
                 ast::OverlayType::Label(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang = content
+                        .properties
+                        .as_ref()
+                        .and_then(|properties| properties.get("lang"));
+                    let lang_iso = parse_language(lang).map_err(|e| vec![e])?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -199,21 +205,18 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_label) = attr_type_value {
-                                attribute.set_label(lang_iso.unwrap(), attr_label.clone());
+                                attribute.set_label(lang_iso, attr_label.clone());
                             }
                             oca.add_attribute(attribute);
                         }
                     }
                 }
                 ast::OverlayType::Information(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang = content
+                        .properties
+                        .as_ref()
+                        .and_then(|properties| properties.get("lang"));
+                    let lang_iso = parse_language(lang).map_err(|e| vec![e])?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -225,7 +228,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(attr_info) = attr_type_value {
-                                attribute.set_information(lang_iso.unwrap(), attr_info.clone());
+                                attribute.set_information(lang_iso, attr_info.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -408,14 +411,11 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     }
                 }
                 ast::OverlayType::Entry(_) => {
-                    let mut lang_iso = None;
-                    if let Some(ref properties) = content.properties {
-                        let mut mut_properties = properties.clone();
-                        let lang = mut_properties.remove("lang");
-                        if let Some(ast::NestedValue::Value(lang_str)) = lang {
-                            lang_iso = isolang::Language::from_639_1(lang_str.as_str());
-                        }
-                    }
+                    let lang = content
+                        .properties
+                        .as_ref()
+                        .and_then(|properties| properties.get("lang"));
+                    let lang_iso = parse_language(lang).map_err(|e| vec![e])?;
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
                             let mut attribute = oca
@@ -429,7 +429,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             match attr_type_value {
                                 ast::NestedValue::Value(attr_entries) => {
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang_iso,
                                         EntriesElement::Sai(attr_entries.clone()),
                                     );
                                 }
@@ -446,7 +446,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                     attribute.set_entry(
-                                        lang_iso.unwrap(),
+                                        lang_iso,
                                         EntriesElement::Object(entries),
                                     );
                                 }
@@ -465,9 +465,8 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             target_bundle = Some(target_said.to_string());
                         }
                     }
-                    if target_bundle.is_none() {
-                        errors.push("Undefined target bundle".to_string());
-                    }
+                    let target_bundle =
+                        target_bundle.ok_or_else(|| vec!["Undefined target bundle".to_string()])?;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_type_value) in attributes {
@@ -480,8 +479,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                 })?
                                 .clone();
                             if let ast::NestedValue::Value(linked_attr) = attr_type_value {
-                                attribute
-                                    .set_link(target_bundle.clone().unwrap(), linked_attr.clone());
+                                attribute.set_link(target_bundle.clone(), linked_attr.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -502,9 +500,8 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                             }
                         }
                     }
-                    if frame_id.is_none() {
-                        errors.push("Undefined frame id".to_string());
-                    }
+                    let frame_id =
+                        frame_id.ok_or_else(|| vec!["Undefined frame id".to_string()])?;
 
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
@@ -538,7 +535,7 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                                         }
                                     }
                                 }
-                                attribute.set_framing(frame_id.clone().unwrap(), framing.clone());
+                                attribute.set_framing(frame_id.clone(), framing.clone());
                             }
                             oca.add_attribute(attribute);
                         }
@@ -547,7 +544,9 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 _ => (),
             }
         }
-        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => todo!(),
+        (ast::CommandType::Add, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Adding an OCA bundle is not supported".to_string());
+        }
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
@@ -562,11 +561,15 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                 }
             }
         }
-        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Remove, ast::ObjectKind::Overlay(_, _)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::CaptureBase(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::OCABundle(_)) => todo!(),
-        (ast::CommandType::Modify, ast::ObjectKind::Overlay(_, _)) => todo!(),
+        (ast::CommandType::Remove, ast::ObjectKind::OCABundle(_)) => {
+            errors.push("Removing an OCA bundle is not supported".to_string());
+        }
+        (ast::CommandType::Remove, ast::ObjectKind::Overlay(overlay_type, _)) => {
+            errors.push(format!("Removing {overlay_type} is not supported"));
+        }
+        (ast::CommandType::Modify, _) => {
+            errors.push("MODIFY command is not supported".to_string());
+        }
     }
 
     if errors.is_empty() {
-- 
2.43.0


From f05c73dc8b03255b71ccf4841cf04c33fd97a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 10/52] fix: instructions after FROM are checked against what
 the base defines

---
 semantics/oca-ast/src/validator.rs    |  9 +++++++++
 semantics/oca-bundle/src/build.rs     | 17 +++++++++++++++++
 semantics/oca-bundle/src/state/oca.rs |  4 +++-
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-ast/src/validator.rs b/semantics/oca-ast/src/validator.rs
index bdcd733..9d7c9d0 100644
--- a/semantics/oca-ast/src/validator.rs
+++ b/semantics/oca-ast/src/validator.rs
@@ -123,6 +123,15 @@ fn validate_1_0_0(ast: &OCAAst, command: Command) -> Result<bool, Error> {
 fn rule_remove_attr_if_exist(ast: &OCAAst, command_to_validate: Command) -> Result<bool, Error> {
     let mut errors = Vec::new();
 
+    // What the base bundle defines is not known here, it is checked while building
+    if ast
+        .commands
+        .first()
+        .is_some_and(|c| c.kind == CommandType::From)
+    {
+        return Ok(true);
+    }
+
     let attributes = extract_attributes(ast);
     let properties = extract_properties(ast);
 
diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index d5d7646..9eb6c6d 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -149,6 +149,12 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
         (ast::CommandType::Add, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, attr_type) in attributes {
+                    if oca.attributes.contains_key(attr_name) {
+                        errors.push(format!(
+                            "Cannot add attribute if already exists: {attr_name}"
+                        ));
+                        continue;
+                    }
                     let mut attribute = Attribute::new(attr_name.clone());
                     attribute.set_attribute_type(attr_type.clone());
                     oca.add_attribute(attribute);
@@ -550,12 +556,23 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
         (ast::CommandType::Remove, ast::ObjectKind::CaptureBase(content)) => {
             if let Some(ref attributes) = content.attributes {
                 for (attr_name, _) in attributes {
+                    if !oca.attributes.contains_key(attr_name) {
+                        errors.push(format!(
+                            "Cannot remove attribute if does not exists: {attr_name}"
+                        ));
+                    }
                     oca.remove_attribute(attr_name);
                 }
             }
             if let Some(ref properties) = content.properties {
                 for (prop_name, _) in properties {
                     if prop_name.eq("classification") {
+                        if oca.classification.is_none() {
+                            errors.push(
+                                "Cannot remove property if does not exists: classification"
+                                    .to_string(),
+                            );
+                        }
                         oca.remove_classification()
                     }
                 }
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index a47d3ad..3bf96ab 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -685,7 +685,9 @@ pub struct OCABundle {
 impl From<OCABundle> for OCABox {
     fn from(oca_bundle: OCABundle) -> Self {
         let mut oca_box = OCABox::new();
-        oca_box.add_classification(oca_bundle.capture_base.classification);
+        if !oca_bundle.capture_base.classification.is_empty() {
+            oca_box.add_classification(oca_bundle.capture_base.classification);
+        }
 
         let mut attributes: HashMap<String, Attribute> = HashMap::new();
         for (attr_name, attr_type) in oca_bundle.capture_base.attributes {
-- 
2.43.0


From 810722ecac0ef28b5b53dcefc7913a0a36716b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 11/52] fix: metadata of a frame does not depend on the order
 attributes are kept in

---
 semantics/oca-bundle/src/build.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index 9eb6c6d..a45b03d 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -509,6 +509,31 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                     let frame_id =
                         frame_id.ok_or_else(|| vec!["Undefined frame id".to_string()])?;
 
+                    // the metadata is common to the whole frame, a later value replaces an earlier one
+                    let mut common_meta: HashMap<String, String> = HashMap::new();
+                    for attribute in oca.attributes.values() {
+                        if let Some(framing) =
+                            attribute.framings.as_ref().and_then(|f| f.get(&frame_id))
+                        {
+                            for scope in framing.values() {
+                                common_meta.extend(scope.frame_meta.clone());
+                            }
+                        }
+                    }
+                    common_meta.extend(frame_meta);
+                    let frame_meta = common_meta;
+                    for attribute in oca.attributes.values_mut() {
+                        if let Some(framing) = attribute
+                            .framings
+                            .as_mut()
+                            .and_then(|f| f.get_mut(&frame_id))
+                        {
+                            for scope in framing.values_mut() {
+                                scope.frame_meta.clone_from(&frame_meta);
+                            }
+                        }
+                    }
+
                     if let Some(ref attributes) = content.attributes {
                         for (attr_name, attr_framing_value) in attributes {
                             let mut attribute = oca
-- 
2.43.0


From 31d80cb7437cc7872149153300bfde682e828253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 12/52] fix: only lines of their own are read as metadata

---
 oca-file/src/ocafile.pest | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 08e7547..62070d3 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -57,8 +57,11 @@ TELUGU | THAANA | THAI | TIBETAN | TIFINAGH | TIRHUTA | TOTO | UGARITIC | VAI |
 VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
+// a line left to the precompiler; "--" within it or within its strings is not metadata
+other_line = _{ (comment | string | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+
 file = {
   SOI ~
-  (empty_line | meta_comment_line | comment_line | ANY)*
+  (empty_line | meta_comment_line | comment_line | other_line)*
   ~ EOI
 }
-- 
2.43.0


From 31541839946c302d053eaba12ce46154b7b93c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 13/52] fix: recorded line numbers count the lines of the file

---
 semantics/oca-file/src/ocafile/mod.rs      | 4 ++--
 transformation/oca-file/src/ocafile/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 2ab6a48..9f959df 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -63,7 +63,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -106,7 +106,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<OCAAst, ParseError> {
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
diff --git a/transformation/oca-file/src/ocafile/mod.rs b/transformation/oca-file/src/ocafile/mod.rs
index bc08e84..192d302 100644
--- a/transformation/oca-file/src/ocafile/mod.rs
+++ b/transformation/oca-file/src/ocafile/mod.rs
@@ -57,7 +57,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
 
     let validator = OCAValidator {};
 
-    for (n, line) in file.into_inner().enumerate() {
+    for line in file.into_inner() {
         if let Rule::EOI = line.as_rule() {
             continue;
         }
@@ -100,7 +100,7 @@ pub fn parse_from_string(unparsed_file: String) -> Result<TransformationAST, Par
                     oca_ast.commands_meta.insert(
                         oca_ast.commands.len() - 1,
                         CommandMeta {
-                            line_number: n + 1,
+                            line_number: line.line_col().0,
                             raw_line: line.as_str().to_string(),
                         },
                     );
-- 
2.43.0


From 47e497ee3c16f4185520b894e177d2392af3c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 14/52] fix: a transformation without source or target is an
 error, not a panic

---
 .../transformation-file/src/build.rs          | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/transformation/transformation-file/src/build.rs b/transformation/transformation-file/src/build.rs
index 2d7ce1a..b8036e7 100644
--- a/transformation/transformation-file/src/build.rs
+++ b/transformation/transformation-file/src/build.rs
@@ -27,9 +27,22 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
 
     let mut base: Option<Transformation> = None;
     if !ast.meta.is_empty() {
-        let source = ast.meta.get("source").expect("missing source meta");
+        let missing_meta = |name: &str| {
+            vec![Error::FromASTError {
+                line_number: 0,
+                raw_line: "unknown".to_string(),
+                message: format!("missing {name} meta"),
+            }]
+        };
+        let source = ast
+            .meta
+            .get("source")
+            .ok_or_else(|| missing_meta("source"))?;
         let source_said = source.replace("refs:", "");
-        let target = ast.meta.get("target").expect("missing target meta");
+        let target = ast
+            .meta
+            .get("target")
+            .ok_or_else(|| missing_meta("target"))?;
         let target_said = target.replace("refs:", "");
         let mut transformation = Transformation::new();
         transformation.set_source(source_said);
@@ -62,7 +75,7 @@ pub fn from_ast(ast: &ast::TransformationAST) -> Result<Transformation, Vec<Erro
         }
     }
     if errors.is_empty() {
-        let mut transformation = base.unwrap().clone();
+        let mut transformation = base.unwrap_or_default();
         transformation.fill_said();
         Ok(transformation)
     } else {
-- 
2.43.0


From 82bc4fd53612f75240e3b9ed01795bcc8fcd48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 15/52] fix: instructions read back from JSON equal the ones
 written

---
 semantics/oca-ast/src/ast/attributes.rs |  4 +++-
 semantics/oca-ast/src/ast/mod.rs        | 29 +++++++++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/semantics/oca-ast/src/ast/attributes.rs b/semantics/oca-ast/src/ast/attributes.rs
index ae49b7c..506214b 100644
--- a/semantics/oca-ast/src/ast/attributes.rs
+++ b/semantics/oca-ast/src/ast/attributes.rs
@@ -94,7 +94,9 @@ impl<'de> Deserialize<'de> for NestedAttrType {
                     }
                 }
             },
-            serde_json::Value::Array(arr) => NestedAttrTypeFrame::Array(arr[0].clone()).into(),
+            serde_json::Value::Array(mut arr) if arr.len() == 1 => {
+                NestedAttrTypeFrame::Array(arr.remove(0)).into()
+            }
             value => {
                 AttributeError::ConvertingFailure(serde_json::to_string(&value).unwrap()).into()
             }
diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index e04a503..6d0b7a7 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -271,7 +271,7 @@ impl FromStr for OverlayType {
             "EntryCode" => Ok(OverlayType::EntryCode(v)),
             "Entry" => Ok(OverlayType::Entry(v)),
             "Unit" => Ok(OverlayType::Unit(v)),
-            "Mapping" => Ok(OverlayType::AttributeMapping(v)),
+            "AttributeMapping" | "Mapping" => Ok(OverlayType::AttributeMapping(v)),
             "EntryCodeMapping" => Ok(OverlayType::EntryCodeMapping(v)),
             "Subset" => Ok(OverlayType::Subset(v)),
             "UnitMapping" => Ok(OverlayType::UnitMapping(v)),
@@ -392,6 +392,8 @@ pub enum ReferenceAttrType {
 #[derive(Debug, PartialEq, Serialize, Deserialize, Clone, Eq)]
 #[serde(untagged)]
 pub enum NestedValue {
+    // A string that looks like a reference is not distinguishable from a value
+    #[serde(skip_deserializing)]
     Reference(RefValue),
     Value(String),
     Object(IndexMap<String, NestedValue>),
@@ -428,6 +430,21 @@ pub enum RefValue {
     Name(String),
 }
 
+impl Content {
+    fn reference_target(&mut self) -> Result<(), RefValueParsingError> {
+        if let Some(target) = self
+            .properties
+            .as_mut()
+            .and_then(|properties| properties.get_mut("target"))
+        {
+            if let NestedValue::Value(value) = target {
+                *target = NestedValue::Reference(value.parse()?);
+            }
+        }
+        Ok(())
+    }
+}
+
 impl FromStr for RefValue {
     type Err = RefValueParsingError;
 
@@ -588,8 +605,16 @@ impl<'de> Deserialize<'de> for Command {
                                     );
                                     match overlay_type {
                                         Ok(overlay_type) => {
-                                            let content: Content =
+                                            let mut content: Content =
                                                 map.next_value()?;
+                                            // The target of a link is the only reference in overlays
+                                            if let OverlayType::Link(_) =
+                                                overlay_type
+                                            {
+                                                content.reference_target().map_err(
+                                                    de::Error::custom,
+                                                )?;
+                                            }
                                             object_kind =
                                                 Some(ObjectKind::Overlay(
                                                     overlay_type,
-- 
2.43.0


From 3c7317408116ec1324ce09d99addf68f358152a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 16/52] fix: a malformed bundle is refused with an error, not a
 panic

---
 semantics/oca-bundle/src/state/oca.rs         | 155 +++++++-----------
 .../src/state/oca/overlay/conditional.rs      |  19 +++
 2 files changed, 82 insertions(+), 92 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 3bf96ab..90bb931 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -643,10 +643,10 @@ where
             while let Some((_, value)) = map.next_entry::<String, serde_value::Value>()? {
                 if let serde_value::Value::Seq(ov) = value {
                     for o in ov {
-                        overlays.push(o.deserialize_into().unwrap());
+                        overlays.push(o.deserialize_into().map_err(serde::de::Error::custom)?);
                     }
                 } else if let serde_value::Value::Map(_) = value {
-                    overlays.push(value.deserialize_into().unwrap());
+                    overlays.push(value.deserialize_into().map_err(serde::de::Error::custom)?);
                 }
             }
 
@@ -701,7 +701,9 @@ impl From<OCABundle> for OCABox {
             attributes.insert(attr_name.clone(), attr);
         }
         for attr_name in oca_bundle.capture_base.flagged_attributes {
-            attributes.get_mut(&attr_name).unwrap().set_flagged();
+            if let Some(attr) = attributes.get_mut(&attr_name) {
+                attr.set_flagged();
+            }
         }
 
         let meta_overlays = oca_bundle
@@ -726,10 +728,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in character_encoding_overlays {
             for (attr_name, encoding) in overlay.attribute_character_encoding.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_encoding(*encoding);
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_encoding(*encoding);
+                }
             }
         }
 
@@ -740,10 +741,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in conformance_overlays {
             for (attr_name, conformance) in overlay.attribute_conformance.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_conformance(conformance.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_conformance(conformance.clone());
+                }
             }
         }
 
@@ -753,21 +753,14 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::Conditional>())
             .collect::<Vec<_>>();
 
-        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
         for overlay in conditional_overlays {
-            for (attr_name, condition) in overlay.attribute_conditions.iter() {
-                let condition_dependencies = overlay.attribute_dependencies.get(attr_name).unwrap(); // todo
-                let cond = re
-                    .replace_all(condition, |caps: &regex::Captures| {
-                        let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()].clone();
-                        format!("${{{}}}", dep)
-                    })
-                    .to_string();
-
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_condition(cond.clone());
+            for attr_name in overlay.attribute_conditions.keys() {
+                if let (Some(attr), Some(cond)) = (
+                    attributes.get_mut(attr_name),
+                    overlay.condition_with_names(attr_name),
+                ) {
+                    attr.set_condition(cond);
+                }
             }
         }
 
@@ -778,10 +771,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in cardinality_overlays {
             for (attr_name, cardinality) in overlay.attribute_cardinality.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_cardinality(cardinality.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_cardinality(cardinality.clone());
+                }
             }
         }
 
@@ -794,10 +786,9 @@ impl From<OCABundle> for OCABox {
                 .collect::<Vec<_>>();
             for overlay in format_overlays {
                 for (attr_name, format) in overlay.attribute_formats.iter() {
-                    attributes
-                        .get_mut(attr_name)
-                        .unwrap()
-                        .set_format(format.clone());
+                    if let Some(attr) = attributes.get_mut(attr_name) {
+                        attr.set_format(format.clone());
+                    }
                 }
             }
         }
@@ -809,10 +800,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in unit_overlays {
             for (attr_name, unit) in overlay.attribute_unit.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_unit(unit.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_unit(unit.clone());
+                }
             }
         }
 
@@ -823,10 +813,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_code_overlays {
             for (attr_name, entry_code) in overlay.attribute_entry_codes.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry_codes(entry_code.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_entry_codes(entry_code.clone());
+                }
             }
         }
 
@@ -837,10 +826,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in entry_overlays {
             for (attr_name, entries) in overlay.attribute_entries.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_entry(*overlay.language().unwrap(), entries.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_entry(*overlay.language().unwrap(), entries.clone());
+                }
             }
         }
 
@@ -851,10 +839,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in label_overlays {
             for (attr_name, label) in overlay.attribute_labels.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_label(*overlay.language().unwrap(), label.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_label(*overlay.language().unwrap(), label.clone());
+                }
             }
         }
 
@@ -865,10 +852,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in information_overlays {
             for (attr_name, information) in overlay.attribute_information.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_information(*overlay.language().unwrap(), information.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_information(*overlay.language().unwrap(), information.clone());
+                }
             }
         }
 
@@ -879,10 +865,9 @@ impl From<OCABundle> for OCABox {
             .collect::<Vec<_>>();
         for overlay in link_overlays {
             for (attr_name, mapping) in overlay.attribute_mapping.iter() {
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_link(overlay.target_bundle.clone(), mapping.clone());
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_link(overlay.target_bundle.clone(), mapping.clone());
+                }
             }
         }
 
@@ -892,7 +877,9 @@ impl From<OCABundle> for OCABox {
             .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeFraming>())
             .collect::<Vec<_>>();
         for overlay in framing_overlays {
-            let frame_id = overlay.metadata.get("frame_id").unwrap();
+            let Some(frame_id) = overlay.metadata.get("frame_id") else {
+                continue;
+            };
             let mut frame_meta = overlay.metadata.clone();
             frame_meta.remove("frame_id");
 
@@ -906,10 +893,9 @@ impl From<OCABundle> for OCABox {
                     })
                     .collect::<HashMap<_, _>>();
 
-                attributes
-                    .get_mut(attr_name)
-                    .unwrap()
-                    .set_framing(frame_id.to_string(), framing);
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.set_framing(frame_id.to_string(), framing);
+                }
             }
         }
 
@@ -921,6 +907,13 @@ impl From<OCABundle> for OCABox {
     }
 }
 
+fn language_code(language: Option<&Language>) -> String {
+    language
+        .map(|lang| lang.to_639_1().unwrap_or_else(|| lang.to_639_3()))
+        .unwrap_or_default()
+        .to_string()
+}
+
 impl OCABundle {
     pub fn fill_said(&mut self) {
         let code = HashFunctionCode::Blake3_256;
@@ -1023,9 +1016,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            meta.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(meta.language())),
                     );
                     for (meta_name, meta_value) in meta.attr_pairs.iter() {
                         properties
@@ -1048,9 +1039,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            label.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(label.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, label) in label.attribute_labels.iter() {
@@ -1076,14 +1065,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            information
-                                .language()
-                                .unwrap()
-                                .to_639_1()
-                                .unwrap()
-                                .to_string(),
-                        ),
+                        NestedValue::Value(language_code(information.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, information) in information.attribute_information.iter() {
@@ -1108,19 +1090,10 @@ impl OCABundle {
                         .downcast_ref::<overlay::Conditional>()
                         .unwrap();
                     let mut attributes = IndexMap::new();
-                    let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
-                    for (attr_name, condition) in conditional.attribute_conditions.iter() {
-                        let condition_dependencies =
-                            conditional.attribute_dependencies.get(attr_name).unwrap(); // todo
-                        let cond = re
-                            .replace_all(condition, |caps: &regex::Captures| {
-                                let dep = condition_dependencies[caps[1].parse::<usize>().unwrap()]
-                                    .clone();
-                                format!("${{{}}}", dep)
-                            })
-                            .to_string();
-
-                        attributes.insert(attr_name.clone(), NestedValue::Value(cond.clone()));
+                    for attr_name in conditional.attribute_conditions.keys() {
+                        if let Some(cond) = conditional.condition_with_names(attr_name) {
+                            attributes.insert(attr_name.clone(), NestedValue::Value(cond));
+                        }
                     }
                     let command = Command {
                         kind: CommandType::Add,
@@ -1217,9 +1190,7 @@ impl OCABundle {
                     let mut properties = IndexMap::new();
                     properties.insert(
                         "lang".to_string(),
-                        NestedValue::Value(
-                            entry.language().unwrap().to_639_1().unwrap().to_string(),
-                        ),
+                        NestedValue::Value(language_code(entry.language())),
                     );
                     let mut attributes = IndexMap::new();
                     for (attr_name, entries) in entry.attribute_entries.iter() {
diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 404e95c..7af7873 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -165,6 +165,25 @@ impl Overlay for ConditionalOverlay {
     }
 }
 impl ConditionalOverlay {
+    /// The condition of an attribute, with the names of the attributes it
+    /// depends on in place of their positions.
+    pub(crate) fn condition_with_names(&self, attr_name: &str) -> Option<String> {
+        let condition = self.attribute_conditions.get(attr_name)?;
+        let dependencies = self.attribute_dependencies.get(attr_name);
+        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
+        let named = re.replace_all(condition, |caps: &regex::Captures| {
+            let dependency = caps[1]
+                .parse::<usize>()
+                .ok()
+                .and_then(|i| dependencies?.get(i));
+            match dependency {
+                Some(name) => format!("${{{name}}}"),
+                None => caps[0].to_string(),
+            }
+        });
+        Some(named.to_string())
+    }
+
     pub fn new() -> Self {
         let overlay_version = "1.1".to_string();
         Self {
-- 
2.43.0


From 609dff27d8b7d13e4d32b6fc1be6d93e0f6c7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 17/52] fix: a condition that cannot be evaluated is an error,
 not a panic or a hang

---
 .../src/state/oca/overlay/conditional.rs      | 109 ++++++++++------
 semantics/oca-bundle/src/state/validator.rs   | 117 +++++++-----------
 2 files changed, 115 insertions(+), 111 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 7af7873..4ba3663 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -1,6 +1,6 @@
 use crate::state::{attribute::Attribute, oca::Overlay};
 use oca_ast_semantics::ast::OverlayType;
-use piccolo::{Closure, Lua, Thread};
+use piccolo::{Closure, Lua, StaticError, Thread, ThreadMode};
 use said::derivation::HashFunctionCode;
 use said::{sad::SerializationFormats, sad::SAD};
 use serde::{Deserialize, Serialize};
@@ -51,8 +51,7 @@ impl Conditionals for Attribute {
         let condition = &self.condition.clone().ok_or(vec![Error::Custom(
             "Attribute has no condition".to_string(),
         )])?;
-        let condition_dependencies = &self.dependencies.clone().unwrap();
-        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
+        let condition_dependencies = &self.dependencies.clone().unwrap_or_default();
         let attr = &self.name;
         if condition_dependencies.contains(attr) {
             errors.push(Error::Custom(format!(
@@ -69,52 +68,80 @@ impl Conditionals for Attribute {
             return Err(errors);
         }
 
-        let script = re
-            .replace_all(condition, |caps: &regex::Captures| {
-                dependency_values
-                    .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                    .unwrap()
-                    .to_string()
-            })
-            .to_string();
+        fill_condition(condition, condition_dependencies, |dep| {
+            dependency_values.get(dep).map(|v| v.to_string())
+        })
+        .and_then(|script| evaluate_condition(&script))
+        .map_err(|e| {
+            vec![Error::Custom(format!(
+                "Attribute '{attr}' has invalid condition: {e}"
+            ))]
+        })
+    }
+}
 
-        let mut lua = Lua::new();
-        let thread_result = lua.try_run(|ctx| {
+/// Number of interpreter steps a condition may take. Conditions come with
+/// bundles, so one which never ends must not hang the program.
+const MAX_CONDITION_STEPS: usize = 10_000;
+
+/// Puts values in place of the positions of the dependencies of a condition.
+pub(crate) fn fill_condition<F>(
+    condition: &str,
+    dependencies: &[String],
+    value_of: F,
+) -> Result<String, String>
+where
+    F: Fn(&str) -> Option<String>,
+{
+    let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
+    let mut unknown = None;
+    let script = re
+        .replace_all(condition, |caps: &regex::Captures| {
+            caps[1]
+                .parse::<usize>()
+                .ok()
+                .and_then(|i| dependencies.get(i))
+                .and_then(|dep| value_of(dep))
+                .unwrap_or_else(|| {
+                    unknown.get_or_insert_with(|| caps[0].to_string());
+                    String::new()
+                })
+        })
+        .to_string();
+    match unknown {
+        Some(placeholder) => Err(format!("no dependency for {placeholder}")),
+        None => Ok(script),
+    }
+}
+
+/// Evaluates a condition whose dependencies have been filled in.
+pub(crate) fn evaluate_condition(script: &str) -> Result<bool, String> {
+    fn reason(e: StaticError) -> String {
+        e.source()
+            .map(|source| source.to_string())
+            .unwrap_or_else(|| e.to_string())
+    }
+
+    let mut lua = Lua::new();
+    let thread = lua
+        .try_run(|ctx| {
             let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
             let thread = Thread::new(&ctx);
             thread.start(ctx, closure.into(), ())?;
             Ok(ctx.state.registry.stash(&ctx, thread))
-        });
+        })
+        .map_err(reason)?;
 
-        let mut result = None;
-        match thread_result {
-            Ok(thread) => match lua.run_thread::<bool>(&thread) {
-                Ok(r) => result = Some(r),
-                Err(e) => {
-                    errors.push(Error::Custom(format!(
-                        "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
-                    )));
-                }
-            },
-            Err(e) => {
-                errors.push(Error::Custom(format!(
-                    "Attribute '{attr}' has invalid condition: {}",
-                    e.source().unwrap()
-                )));
-            }
-        };
-        if errors.is_empty() {
-            match result.is_some() {
-                true => Ok(result.unwrap()),
-                false => Err(vec![Error::Custom(format!(
-                    "Attribute '{attr}' has invalid condition",
-                ))]),
-            }
-        } else {
-            Err(errors)
+    for _ in 0..MAX_CONDITION_STEPS {
+        let running = lua.run(|ctx| {
+            let thread = ctx.state.registry.fetch(&thread);
+            thread.mode() == ThreadMode::Normal && thread.step(ctx).is_ok()
+        });
+        if !running {
+            return lua.run_thread::<bool>(&thread).map_err(reason);
         }
     }
+    Err("evaluation takes too long".to_string())
 }
 
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
diff --git a/semantics/oca-bundle/src/state/validator.rs b/semantics/oca-bundle/src/state/validator.rs
index ba94b05..b32bfa7 100644
--- a/semantics/oca-bundle/src/state/validator.rs
+++ b/semantics/oca-bundle/src/state/validator.rs
@@ -3,13 +3,10 @@ use crate::state::oca::DynOverlay;
 use indexmap::IndexMap;
 use isolang::Language;
 use oca_ast_semantics::ast::{AttributeType, NestedAttrType, OverlayType};
-use std::{
-    collections::{HashMap, HashSet},
-    error::Error as StdError,
-};
+use std::collections::HashSet;
 
+use super::oca::overlay::conditional::{evaluate_condition, fill_condition};
 use super::oca::{overlay, OCABundle};
-use piccolo::{Closure, Lua, Thread};
 
 #[derive(Debug)]
 pub enum Error {
@@ -56,6 +53,23 @@ pub fn validate(oca_bundle: &OCABundle) -> Result<SemanticValidationStatus, Stri
     }
 }
 
+/// A value of the given type, as an expression a condition can be tried with.
+fn mock_value(attr_type: &NestedAttrType) -> String {
+    match attr_type {
+        NestedAttrType::Null => "null".to_string(),
+        NestedAttrType::Value(base_type) => match base_type {
+            AttributeType::Text => "'test'".to_string(),
+            AttributeType::Numeric => "0".to_string(),
+            AttributeType::DateTime => "'2020-01-01'".to_string(),
+            AttributeType::Binary => "'test'".to_string(),
+            AttributeType::Boolean => "true".to_string(),
+        },
+        NestedAttrType::Array(item_type) => format!("{{{}}}", mock_value(item_type)),
+        // TODO validate nested objects
+        NestedAttrType::Reference(_) => "{}".to_string(),
+    }
+}
+
 pub struct Validator {
     enforced_translations: Vec<Language>,
 }
@@ -133,10 +147,12 @@ impl Validator {
             .find_map(|x| x.as_any().downcast_ref::<overlay::Conditional>());
 
         if let Some(conditional_overlay) = conditional_overlay {
-            self.validate_conditional(
+            if let Err(conditional_errors) = self.validate_conditional(
                 oca_bundle.capture_base.attributes.clone(),
                 conditional_overlay,
-            )?;
+            ) {
+                errors.extend(conditional_errors);
+            }
         }
 
         if !enforced_langs.is_empty() {
@@ -226,12 +242,12 @@ impl Validator {
     ) -> Result<(), Vec<Error>> {
         let mut errors: Vec<Error> = vec![];
 
-        let conditions = overlay.attribute_conditions.clone();
-        let dependencies = overlay.attribute_dependencies.clone();
-        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
-        for &attr in overlay.attributes().iter() {
-            let condition = conditions.get(attr).unwrap(); // todo
-            let condition_dependencies = dependencies.get(attr).unwrap(); // todo
+        for (attr, condition) in overlay.attribute_conditions.iter() {
+            let condition_dependencies = overlay
+                .attribute_dependencies
+                .get(attr)
+                .cloned()
+                .unwrap_or_default();
             if condition_dependencies.contains(attr) {
                 errors.push(Error::Custom(format!(
                     "Attribute '{attr}' cannot be a dependency of itself"
@@ -239,66 +255,27 @@ impl Validator {
                 continue;
             }
 
-            let mut attr_mocks: HashMap<String, String> = HashMap::new();
-            condition_dependencies.iter().for_each(|dep| {
-                let dep_type = attr_types.get(dep).unwrap(); // todo
-                let value = match dep_type {
-                    NestedAttrType::Null => "null".to_string(),
-                    NestedAttrType::Value(base_type) => match base_type {
-                        AttributeType::Text => "'test'".to_string(),
-                        AttributeType::Numeric => "0".to_string(),
-                        AttributeType::DateTime => "'2020-01-01'".to_string(),
-                        AttributeType::Binary => "test".to_string(),
-                        AttributeType::Boolean => "true".to_string(),
-                    },
-                    // TODO validate nested objects
-                    NestedAttrType::Array(boxed_type) => match **boxed_type {
-                        NestedAttrType::Value(base_type) => match base_type {
-                            AttributeType::Text => "['test']".to_string(),
-                            AttributeType::Numeric => "[0]".to_string(),
-                            AttributeType::DateTime => "['2020-01-01']".to_string(),
-                            AttributeType::Binary => "[test]".to_string(),
-                            AttributeType::Boolean => "[true]".to_string(),
-                        },
-                        _ => panic!("Invalid or not supported array type"),
-                    },
-                    NestedAttrType::Reference(ref_value) => ref_value.to_string(),
-                };
-                attr_mocks.insert(dep.to_string(), value);
-            });
-
-            let script = re
-                .replace_all(condition, |caps: &regex::Captures| {
-                    attr_mocks
-                        .get(&condition_dependencies[caps[1].parse::<usize>().unwrap()].clone())
-                        .unwrap()
-                        .to_string()
-                })
-                .to_string();
-
-            let mut lua = Lua::new();
-            let thread_result = lua.try_run(|ctx| {
-                let closure = Closure::load(ctx, format!("return {script}").as_bytes())?;
-                let thread = Thread::new(&ctx);
-                thread.start(ctx, closure.into(), ())?;
-                Ok(ctx.state.registry.stash(&ctx, thread))
-            });
-
-            match thread_result {
-                Ok(thread) => {
-                    if let Err(e) = lua.run_thread::<bool>(&thread) {
-                        errors.push(Error::Custom(format!(
-                            "Attribute '{attr}' has invalid condition: {}",
-                            e.source().unwrap()
-                        )));
-                    }
-                }
-                Err(e) => {
+            let missing: Vec<_> = condition_dependencies
+                .iter()
+                .filter(|dep| !attr_types.contains_key(*dep))
+                .collect();
+            if !missing.is_empty() {
+                for dep in missing {
                     errors.push(Error::Custom(format!(
-                        "Attribute '{attr}' has invalid condition: {}",
-                        e.source().unwrap()
+                        "Attribute '{attr}' depends on '{dep}' which is not an attribute"
                     )));
                 }
+                continue;
+            }
+
+            let result = fill_condition(condition, &condition_dependencies, |dep| {
+                attr_types.get(dep).map(mock_value)
+            })
+            .and_then(|script| evaluate_condition(&script));
+            if let Err(e) = result {
+                errors.push(Error::Custom(format!(
+                    "Attribute '{attr}' has invalid condition: {e}"
+                )));
             }
         }
 
-- 
2.43.0


From f8a42a2a16efecdf77dfe544942b1a17f758112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 18/52] fix: the history of a bundle does not run in circles

---
 oca/src/facade/build.rs | 20 +++++++++++++-------
 oca/src/facade/fetch.rs | 10 ++++++----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index d7d6d7a..0be3d18 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -299,13 +299,19 @@ impl Facade {
         let command_str = serde_json::to_string(&step.command).unwrap();
         input.extend(command_str.as_bytes());
         let result_bundle = step.result.clone();
-        self.db
-            .insert(
-                Namespace::OCA,
-                &format!("oca.{}.operation", result_bundle.said.clone().unwrap()),
-                &input,
-            )
-            .unwrap();
+        // The same bundle can be reached in more than one way. The first one is
+        // its history: replacing it could make a bundle its own ancestor.
+        let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
+        let is_known = self
+            .db
+            .get(Namespace::OCA, &operation_key)
+            .unwrap()
+            .is_some();
+        if !is_known {
+            self.db
+                .insert(Namespace::OCA, &operation_key, &input)
+                .unwrap();
+        }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index f588588..7b37516 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -20,6 +20,7 @@ use serde::Serialize;
 use std::borrow::Borrow;
 #[cfg(feature = "local-references")]
 use std::collections::HashMap;
+use std::collections::HashSet;
 use std::str::FromStr;
 
 #[derive(Debug, Serialize)]
@@ -298,18 +299,19 @@ impl Facade {
         }
 
         let mut history: Vec<OCABuildStep> = vec![];
+        let mut visited: HashSet<String> = HashSet::new();
 
         loop {
             let (parent_said, command) = extract_operation(&self.db, &said)?;
-            if parent_said == said {
-                dbg!("Malformed history for said: {}", said);
+            if !visited.insert(said.clone()) {
                 return Err(vec![format!("Malformed history")]);
             }
-            let s = SelfAddressingIdentifier::from_str(&said).unwrap(); // TODO
+            let s = SelfAddressingIdentifier::from_str(&said)
+                .map_err(|e| vec![format!("Malformed history: {}", e)])?;
             history.push(OCABuildStep {
                 parent_said: parent_said.clone().parse().ok(),
                 command,
-                result: self.get_oca_bundle(s, false).unwrap().bundle.clone(),
+                result: self.get_oca_bundle(s, false)?.bundle,
             });
             said = parent_said;
 
-- 
2.43.0


From c2562d14bd86e112b7aa2baaf29f4ebb3229f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 19/52] fix: every stored object can be fetched and explored
 without a crash

---
 oca/src/facade/explore.rs | 11 ++++++-----
 oca/src/facade/fetch.rs   | 32 +++++++++-----------------------
 2 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 096669c..6e4aaf6 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -8,13 +8,14 @@ use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
+        let object_type = self.object_type(&said)?;
         let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
 
         match relations_u8_res {
             Ok(Some(relations_u8)) => {
                 let relationship: Relationship = relations_u8.into();
                 Some(Relationship {
-                    base_object: OCAObject::new(self, said),
+                    base_object: OCAObject { said, object_type },
                     relations: relationship.relations,
                 })
             }
@@ -123,13 +124,13 @@ impl Facade {
         Ok(())
     }
 
-    fn object_type(&self, said: String) -> ObjectKind {
+    fn object_type(&self, said: &str) -> Option<ObjectKind> {
         let object_type = self
             .db
             .get(Namespace::OCARelations, &format!("{}.metadata", said))
-            .unwrap();
+            .ok()??;
 
-        (*object_type.unwrap().first().unwrap()).into()
+        object_type.first().map(|object_type| (*object_type).into())
     }
 }
 
@@ -239,7 +240,7 @@ impl OCAObject {
     fn new(facade: &Facade, said: String) -> Self {
         Self {
             said: said.clone(),
-            object_type: facade.object_type(said),
+            object_type: facade.object_type(&said).unwrap(),
         }
     }
 }
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 7b37516..b7dd21f 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -6,7 +6,7 @@ use crate::{
     data_storage::DataStorage,
     repositories::{OCABundleCacheRepo, OCABundleFTSRepo},
 };
-use oca_ast_semantics::ast::{self, OCAAst, ObjectKind, RefValue};
+use oca_ast_semantics::ast::{self, OCAAst, RefValue};
 use oca_bundle_semantics::build::OCABuildStep;
 use oca_bundle_semantics::state::oca::{capture_base::CaptureBase, DynOverlay, OCABundle};
 use said::{
@@ -226,32 +226,18 @@ impl Facade {
                 errors.clone()
             })?)
             .unwrap();
-            let r_type = self
-                .db
-                .get(Namespace::OCARelations, &format!("{}.metadata", said))
-                .map_err(|e| {
-                    errors.push(e.to_string());
-                    errors.clone()
-                })?;
-            let o_type: ObjectKind = (*r_type.unwrap().first().unwrap()).into();
-            match o_type {
-                ObjectKind::CaptureBase(_) => result.push(OCAObject::CaptureBase(
-                    serde_json::from_str::<CaptureBase>(&object_str).map_err(|e| {
+            // Relations are known only for objects of finished builds, objects of
+            // the bundles built on the way are recognized by their content.
+            let object = match serde_json::from_str::<CaptureBase>(&object_str) {
+                Ok(capture_base) => OCAObject::CaptureBase(capture_base),
+                Err(_) => OCAObject::Overlay(
+                    serde_json::from_str::<DynOverlay>(&object_str).map_err(|e| {
                         errors.push(format!("Failed to parse OCA object: {}", e));
                         errors.clone()
                     })?,
-                )),
-                ObjectKind::Overlay(_, _) => {
-                    let oca_overlay = OCAObject::Overlay(
-                        serde_json::from_str::<DynOverlay>(&object_str).map_err(|e| {
-                            errors.push(format!("Failed to parse OCA object: {}", e));
-                            errors.clone()
-                        })?,
-                    );
-                    result.push(oca_overlay);
-                }
-                _ => {}
+                ),
             };
+            result.push(object);
         }
 
         if !errors.is_empty() {
-- 
2.43.0


From 3974de47423eeb6be42f2338418d741f471851c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 20/52] fix: no search text, page or limit makes searching or
 listing panic

---
 oca/src/facade/fetch.rs                       | 23 +++++----
 .../repositories/capture_base_cache_repo.rs   |  3 +-
 oca/src/repositories/mod.rs                   | 11 ++++
 oca/src/repositories/oca_bundle_cache_repo.rs |  3 +-
 oca/src/repositories/oca_bundle_fts_repo.rs   | 51 ++++++++++---------
 5 files changed, 55 insertions(+), 36 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index b7dd21f..86bc0a0 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -101,18 +101,19 @@ impl Facade {
         let records = search_result
             .records
             .iter()
-            .map(|record| SearchRecord {
-                // TODO
-                oca_bundle: self
+            .filter_map(|record| {
+                let oca_bundle = self
                     .get_oca_bundle(record.oca_bundle_said.clone(), false)
-                    .unwrap()
-                    .bundle
-                    .clone(),
-                metadata: SearchRecordMetadata {
-                    phrase: record.metadata.phrase.clone(),
-                    scope: record.metadata.scope.clone(),
-                    score: record.metadata.score,
-                },
+                    .ok()?
+                    .bundle;
+                Some(SearchRecord {
+                    oca_bundle,
+                    metadata: SearchRecordMetadata {
+                        phrase: record.metadata.phrase.clone(),
+                        scope: record.metadata.scope.clone(),
+                        score: record.metadata.score,
+                    },
+                })
             })
             .collect();
         SearchResult {
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index e313e5b..ad888b4 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -1,5 +1,6 @@
 use oca_bundle_semantics::state::oca::capture_base::CaptureBase;
 
+use super::limit_and_offset;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -49,7 +50,7 @@ impl CaptureBaseCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index bbd565a..b193b2e 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -7,6 +7,17 @@ pub use oca_bundle_cache_repo::*;
 
 use std::path::PathBuf;
 
+/// Converts a page (counted from 1) to the values of LIMIT and OFFSET. There is
+/// nothing on pages which cannot exist.
+fn limit_and_offset(limit: usize, page: usize) -> (i64, i64) {
+    let offset = page
+        .checked_sub(1)
+        .and_then(|skipped| skipped.checked_mul(limit))
+        .and_then(|offset| i64::try_from(offset).ok())
+        .unwrap_or(i64::MAX);
+    (i64::try_from(limit).unwrap_or(i64::MAX), offset)
+}
+
 #[derive(Clone)]
 pub struct SQLiteConfig {
     pub path: Option<PathBuf>,
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 85ce2f1..f3b0560 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -1,6 +1,7 @@
 use oca_bundle_semantics::{state::oca::OCABundle, Encode};
 use said::{derivation::HashFunctionCode, sad::SerializationFormats};
 
+use super::limit_and_offset;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -52,7 +53,7 @@ impl OCABundleCacheRepo {
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
-        let offset = (page - 1) * limit;
+        let (limit, offset) = limit_and_offset(limit, page);
         let mut results = vec![];
         let query = "
         SELECT results.*, count.total
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 7d63b15..30e24b2 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -2,6 +2,7 @@ use std::str::FromStr;
 
 use said::SelfAddressingIdentifier;
 
+use super::limit_and_offset;
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -77,8 +78,8 @@ impl OCABundleFTSRepo {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let offset = (page - 1) * limit;
-        let query = match language {
+        let (limit, offset) = limit_and_offset(limit, page);
+        let match_expression = |meta_query: &str| match language {
             Some(lang) => {
                 let lang_code = isolang::Language::to_639_3(&lang).to_string();
                 format!("({{name description}}:{meta_query:} AND language_code:{lang_code:}) OR ({{name description}}:{meta_query:} NOT language_code:{lang_code:})")
@@ -132,15 +133,14 @@ impl OCABundleFTSRepo {
                 let mut snippet_regex = self.snippet.clone().unwrap();
                 snippet_regex = snippet_regex.replace("<mark>", "");
                 snippet_regex = snippet_regex.replace("</mark>", "");
-                let mut v: Vec<String> =
-                    snippet_regex.split("...").map(|x| x.to_string()).collect();
-                if v.first().unwrap().is_empty() {
+                let mut v: Vec<String> = snippet_regex.split("...").map(regex::escape).collect();
+                if v.first().is_some_and(|x| x.is_empty()) {
                     v.remove(0);
                     if let Some(x) = v.first_mut() {
                         *x = format!(".*{}", x);
                     }
                 }
-                if v.last().unwrap().is_empty() {
+                if v.last().is_some_and(|x| x.is_empty()) {
                     v.pop();
                     if let Some(x) = v.last_mut() {
                         *x = format!("{}.*", x);
@@ -167,27 +167,32 @@ meta_overlay:{}
         let connection = self.connection.connection.lock().unwrap();
         let mut statement = connection.prepare(sql_query).unwrap();
 
-        let rows = statement
-            .query_map(
-                [query.clone(), limit.to_string(), offset.to_string()],
-                |row| {
-                    Ok(Record {
-                        name: row.get(0).unwrap(),
-                        description: row.get(1).unwrap(),
-                        oca_bundle_said: row.get(3).unwrap(),
-                        rank: row.get(4).unwrap(),
-                        total: row.get(7).unwrap(),
-                        snippet: row.get(5).unwrap(),
-                    })
-                },
-            )
-            .unwrap();
+        let mut find = |meta_query: &str| -> rusqlite::Result<Vec<Record>> {
+            statement
+                .query_map(
+                    rusqlite::params![match_expression(meta_query), limit, offset],
+                    |row| {
+                        Ok(Record {
+                            name: row.get(0)?,
+                            description: row.get(1)?,
+                            oca_bundle_said: row.get(3)?,
+                            rank: row.get(4)?,
+                            total: row.get(7)?,
+                            snippet: row.get(5)?,
+                        })
+                    },
+                )?
+                .collect()
+        };
+        // Text which is not a well formed query is searched for as it is.
+        let rows = find(&meta_query)
+            .or_else(|_| find(&format!("\"{}\"", meta_query.replace('"', "\"\""))))
+            .unwrap_or_default();
 
         let mut records = vec![];
         let mut total: usize = 0;
 
-        for row in rows {
-            let record = row.unwrap();
+        for record in rows {
             if total == 0 {
                 total = record.total as usize;
             }
-- 
2.43.0


From 6f4df27384356a570536243ea43d9e4cc964620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 21/52] fix: file system storage keeps to its directory and
 lists its entries

---
 oca/src/data_storage.rs | 54 +++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 7bf0970..8cc0fee 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -237,6 +237,33 @@ impl FileSystemStorageConfigBuilder {
     }
 }
 
+/// Name of the file which keeps the value of a key. No key may lead to another
+/// directory, so characters with a meaning in paths are escaped.
+fn file_name(key: &str) -> String {
+    match key {
+        "" => "%".to_string(),
+        "." => "%2E".to_string(),
+        ".." => "%2E.".to_string(),
+        _ => key
+            .replace('%', "%25")
+            .replace('/', "%2F")
+            .replace('\\', "%5C")
+            .replace('\0', "%00"),
+    }
+}
+
+fn key_of(file_name: &str) -> String {
+    if file_name == "%" {
+        return String::new();
+    }
+    file_name
+        .replace("%00", "\0")
+        .replace("%5C", "\\")
+        .replace("%2F", "/")
+        .replace("%2E", ".")
+        .replace("%25", "%")
+}
+
 impl DataStorage for FileSystemStorage {
     fn new() -> Self {
         Self { dir: None }
@@ -256,7 +283,7 @@ impl DataStorage for FileSystemStorage {
             let mut path = dir.clone();
             path.push(namespace.as_str());
             if path.try_exists().unwrap() {
-                path.push(key);
+                path.push(file_name(key));
                 Ok(std::fs::read(path.clone()).ok())
             } else {
                 Ok(None)
@@ -266,19 +293,32 @@ impl DataStorage for FileSystemStorage {
         }
     }
 
-    fn get_all(&self, _namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
-        Err("Not implemented".to_string())
+    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
+        if let Some(ref dir) = self.dir {
+            let path = dir.join(namespace.as_str());
+            let mut all = HashMap::new();
+            if path.try_exists().map_err(|e| e.to_string())? {
+                for entry in std::fs::read_dir(path).map_err(|e| e.to_string())? {
+                    let entry = entry.map_err(|e| e.to_string())?;
+                    if let Ok(name) = entry.file_name().into_string() {
+                        let value = std::fs::read(entry.path()).map_err(|e| e.to_string())?;
+                        all.insert(key_of(&name), value);
+                    }
+                }
+            }
+            Ok(all)
+        } else {
+            Err("File path is required".to_string())
+        }
     }
 
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if !path.try_exists().unwrap() {
-                std::fs::create_dir_all(path.clone()).unwrap();
-            }
+            std::fs::create_dir_all(path.clone()).map_err(|e| e.to_string())?;
 
-            path.push(key);
+            path.push(file_name(key));
             std::fs::write(path.clone(), value).map_err(|e| e.to_string())
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From ea1858d98493fddbe3428577530cc0c555ce38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 22/52] fix: file system storage never shows a half written
 value

---
 oca/src/data_storage.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 8cc0fee..f9de389 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -1,5 +1,9 @@
 use dyn_clonable::*;
-use std::{collections::HashMap, path::PathBuf};
+use std::{
+    collections::HashMap,
+    path::PathBuf,
+    sync::atomic::{AtomicUsize, Ordering},
+};
 
 pub enum Namespace {
     OCA,
@@ -319,7 +323,17 @@ impl DataStorage for FileSystemStorage {
             std::fs::create_dir_all(path.clone()).map_err(|e| e.to_string())?;
 
             path.push(file_name(key));
-            std::fs::write(path.clone(), value).map_err(|e| e.to_string())
+            // Written aside and moved into place, so that nobody reads a part of it
+            // and a crash leaves either the old or the new value.
+            static WRITES: AtomicUsize = AtomicUsize::new(0);
+            let write = WRITES.fetch_add(1, Ordering::Relaxed);
+            let written = dir.join(format!(".{}-{}.tmp", std::process::id(), write));
+            std::fs::write(&written, value)
+                .and_then(|_| std::fs::rename(&written, &path))
+                .map_err(|e| {
+                    let _ = std::fs::remove_file(&written);
+                    e.to_string()
+                })
         } else {
             Err("File path is required".to_string())
         }
-- 
2.43.0


From 5812fc15a6d52d789676a54872b304da117b46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 23/52] fix: references inside arrays of arrays are followed

---
 oca/src/facade/fetch.rs     | 17 ++++------
 oca/src/local_references.rs | 65 ++++++++++++++++++-------------------
 2 files changed, 37 insertions(+), 45 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 86bc0a0..16f1738 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -398,17 +398,12 @@ fn retrive_all_references(bundle: OCABundle) -> Vec<SelfAddressingIdentifier> {
     let mut refs: Vec<SelfAddressingIdentifier> = vec![];
 
     for (_, value) in bundle.capture_base.attributes {
-        match value {
-            ast::NestedAttrType::Reference(RefValue::Said(said)) => {
-                refs.push(said);
-            }
-            // TODO(recursion) handle nested arrays
-            ast::NestedAttrType::Array(box_attr_type) => {
-                if let ast::NestedAttrType::Reference(RefValue::Said(said)) = &*box_attr_type {
-                    refs.push(said.clone());
-                }
-            }
-            _ => {}
+        let mut attr_type = &value;
+        while let ast::NestedAttrType::Array(item_type) = attr_type {
+            attr_type = item_type;
+        }
+        if let ast::NestedAttrType::Reference(RefValue::Said(said)) = attr_type {
+            refs.push(said.clone());
         }
     }
     refs
diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 0a34b37..43101be 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -23,30 +23,7 @@ pub fn replace_refn_with_refs<R: References>(
         {
             if let Some(attributes) = &mut content.attributes {
                 for (_, attr_type) in attributes {
-                    match attr_type {
-                        NestedAttrType::Reference(RefValue::Name(refn)) => {
-                            if let Some(said) = references.find(refn) {
-                                let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                *attr_type = NestedAttrType::Reference(RefValue::Said(said));
-                            } else {
-                                return Err(ValidationError::UnknownRefn(refn.clone()));
-                            }
-                        }
-                        NestedAttrType::Array(box_attr_type) => {
-                            if let NestedAttrType::Reference(RefValue::Name(refn)) =
-                                &**box_attr_type
-                            {
-                                if let Some(said) = references.find(refn) {
-                                    let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                                    **box_attr_type =
-                                        NestedAttrType::Reference(RefValue::Said(said));
-                                } else {
-                                    return Err(ValidationError::UnknownRefn(refn.clone()));
-                                }
-                            }
-                        }
-                        _ => (),
-                    }
+                    replace_refn_in_type(attr_type, references)?;
                 }
             }
         }
@@ -57,19 +34,39 @@ pub fn replace_refn_with_refs<R: References>(
             if let Some(properties) = &mut content.properties {
                 if let Some(NestedValue::Reference(RefValue::Name(refn))) = properties.get("target")
                 {
-                    if let Some(said) = references.find(refn) {
-                        let said = SelfAddressingIdentifier::from_str(&said).unwrap(); // todo
-                        properties.insert(
-                            "target".to_string(),
-                            NestedValue::Reference(RefValue::Said(said)),
-                        );
-                        *properties = properties.clone();
-                    } else {
-                        return Err(ValidationError::UnknownRefn(refn.clone()));
-                    }
+                    let said = find_said(refn, references)?;
+                    properties.insert(
+                        "target".to_string(),
+                        NestedValue::Reference(RefValue::Said(said)),
+                    );
                 }
             }
         }
     }
     Ok(())
 }
+
+fn replace_refn_in_type<R: References>(
+    attr_type: &mut NestedAttrType,
+    references: &R,
+) -> Result<(), ValidationError> {
+    match attr_type {
+        NestedAttrType::Reference(RefValue::Name(refn)) => {
+            let said = find_said(refn, references)?;
+            *attr_type = NestedAttrType::Reference(RefValue::Said(said));
+            Ok(())
+        }
+        NestedAttrType::Array(item_type) => replace_refn_in_type(item_type, references),
+        _ => Ok(()),
+    }
+}
+
+fn find_said<R: References>(
+    refn: &str,
+    references: &R,
+) -> Result<SelfAddressingIdentifier, ValidationError> {
+    references
+        .find(refn)
+        .and_then(|said| SelfAddressingIdentifier::from_str(&said).ok())
+        .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))
+}
-- 
2.43.0


From 520b73316704c721780d5ecd9996db47a7dc9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 24/52] fix: a bundle is listed once among dependencies

---
 oca/src/facade/fetch.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 16f1738..7369263 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -371,11 +371,7 @@ pub fn get_oca_bundle(
         Ok(oca_bundle) => {
             let mut dep_bundles = vec![];
             if with_dep {
-                for refs in retrive_all_references(oca_bundle.clone()) {
-                    let dep_bundle = get_oca_bundle(storage, refs, true)?;
-                    dep_bundles.push(dep_bundle.bundle);
-                    dep_bundles.extend(dep_bundle.dependencies);
-                }
+                collect_dependencies(storage, &oca_bundle, &mut dep_bundles)?;
             }
             let result = BundleWithDependencies {
                 bundle: oca_bundle,
@@ -387,6 +383,24 @@ pub fn get_oca_bundle(
     }
 }
 
+/// Adds the bundles referenced by given OCA Bundle, and those they reference,
+/// each of them once.
+fn collect_dependencies(
+    storage: &dyn DataStorage,
+    bundle: &OCABundle,
+    dep_bundles: &mut Vec<OCABundle>,
+) -> Result<(), Vec<String>> {
+    for said in retrive_all_references(bundle.clone()) {
+        if dep_bundles.iter().any(|b| b.said.as_ref() == Some(&said)) {
+            continue;
+        }
+        let dep_bundle = get_oca_bundle(storage, said, false)?.bundle;
+        dep_bundles.push(dep_bundle.clone());
+        collect_dependencies(storage, &dep_bundle, dep_bundles)?;
+    }
+    Ok(())
+}
+
 /// Retrive all existing references from given OCA Bundle
 ///
 /// # Arguments
-- 
2.43.0


From d368e4881c6d6ffd468d0a18997a68859bf73d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 25/52] fix: core model tells apart links and frames

---
 semantics/oca-dag/src/lib.rs | 38 ++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 64b402b..59ddd7d 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -2,6 +2,7 @@ pub mod data_storage;
 pub mod versioning;
 
 use oca_ast_semantics::ast;
+use oca_bundle_semantics::state::oca::{overlay, DynOverlay};
 use said::{derivation::HashFunction, SelfAddressingIdentifier};
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -124,15 +125,18 @@ fn apply_step(
             }
 
             let overlay = step.result.overlays.iter().find(|overlay| {
-                overlay.overlay_type().eq(overlay_type) && overlay.language() == lang.as_ref()
+                overlay.overlay_type().eq(overlay_type)
+                    && overlay.language() == lang.as_ref()
+                    && overlay_subject(overlay) == command_subject(overlay_type, content)
             });
 
             if let Some(overlay) = overlay {
-                let overlay_key = match overlay.language() {
-                    Some(lang) => {
+                let overlay_key = match (overlay.language(), overlay_subject(overlay)) {
+                    (Some(lang), _) => {
                         format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())
                     }
-                    None => format!("{}", overlay.overlay_type()),
+                    (None, Some(subject)) => format!("{}-{}", overlay.overlay_type(), subject),
+                    (None, None) => format!("{}", overlay.overlay_type()),
                 };
                 let parent_overlay = state.overlays.get(&overlay_key);
                 let overlay_model = OverlayModel {
@@ -168,6 +172,32 @@ fn apply_step(
     (current_state, result)
 }
 
+/// What tells apart overlays of the same kind in a bundle: target of a link or
+/// identifier of a frame.
+fn overlay_subject(overlay: &DynOverlay) -> Option<String> {
+    let overlay = overlay.as_any();
+    if let Some(link) = overlay.downcast_ref::<overlay::Link>() {
+        Some(link.target_bundle.clone())
+    } else if let Some(framing) = overlay.downcast_ref::<overlay::AttributeFraming>() {
+        framing.metadata.get("frame_id").cloned()
+    } else {
+        None
+    }
+}
+
+fn command_subject(overlay_type: &ast::OverlayType, content: &ast::Content) -> Option<String> {
+    let property = match overlay_type {
+        ast::OverlayType::Link(_) => "target",
+        ast::OverlayType::AttributeFraming(_) => "frame_id",
+        _ => return None,
+    };
+    match content.properties.as_ref()?.get(property)? {
+        ast::NestedValue::Reference(ast::RefValue::Said(said)) => Some(said.to_string()),
+        ast::NestedValue::Value(value) => Some(value.clone()),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e8b9c2a7b58fec313b3be9b5dd62ebdd8989d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 26/52] fix: a property cannot take the name of a field of its
 overlay

---
 semantics/oca-bundle/src/build.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/semantics/oca-bundle/src/build.rs b/semantics/oca-bundle/src/build.rs
index a45b03d..7730bca 100644
--- a/semantics/oca-bundle/src/build.rs
+++ b/semantics/oca-bundle/src/build.rs
@@ -188,6 +188,14 @@ pub fn apply_command(base: Option<OCABox>, op: ast::Command) -> Result<OCABox, V
                         let lang_iso = parse_language(lang.as_ref()).map_err(|e| vec![e])?;
 
                         for (prop_name, prop_value) in mut_properties {
+                            // The overlay keeps its own fields next to the properties.
+                            if ["d", "type", "language", "capture_base"]
+                                .contains(&prop_name.as_str())
+                            {
+                                return Err(vec![format!(
+                                    "Property name '{prop_name}' is reserved"
+                                )]);
+                            }
                             if let ast::NestedValue::Value(value) = prop_value {
                                 oca.add_meta(lang_iso, prop_name.clone(), value.clone());
                             }
-- 
2.43.0


From 988a8e07f7e1e821c30e7eddaabac76a977841a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 27/52] fix: white space at the end of a file is insignificant

---
 semantics/oca-file/src/ocafile.pest      | 2 +-
 transformation/oca-file/src/ocafile.pest | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 5a86e9b..614df1b 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -265,5 +265,5 @@ lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
 file = {
   SOI ~
   (empty_line | meta_comment_line | comment_line | commands)*
-  ~ EOI
+  ~ ws* ~ EOI
 }
diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 6559369..64de726 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -143,5 +143,5 @@ lang = ${ ASCII_ALPHA{2} ~ ("-" ~ ASCII_ALPHA{2})? }
 file = {
   SOI ~
   (empty_line | meta_comment_line | comment_line | commands)*
-  ~ EOI
+  ~ ws* ~ EOI
 }
-- 
2.43.0


From 3f1f8c19f751300cc161876f9043b77da3a2fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 28/52] fix: a continued line beginning with -- is not metadata

---
 oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oca-file/src/ocafile.pest b/oca-file/src/ocafile.pest
index 62070d3..deec4e9 100644
--- a/oca-file/src/ocafile.pest
+++ b/oca-file/src/ocafile.pest
@@ -58,7 +58,7 @@ VITHKUQI | WANCHO | WARANG_CITI | YEZIDI | YI | ZANABAZAR_SQUARE }
 char = { LETTER | NUMBER | "." | "-" | "_" | "/" | ":" | SCRIPTS }
 
 // a line left to the precompiler; "--" within it or within its strings is not metadata
-other_line = _{ (comment | string | !NEWLINE ~ ANY)+ ~ NEWLINE? }
+other_line = _{ (comment | string | line_continuation ~ continuation_noise* | !NEWLINE ~ ANY)+ ~ NEWLINE? }
 
 file = {
   SOI ~
-- 
2.43.0


From f0e494e7e78821dee05b9c0df84bb6e3da32c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 29/52] fix: groups of entry codes are serialized in a fixed
 order

---
 semantics/oca-bundle/src/state/entry_codes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/entry_codes.rs b/semantics/oca-bundle/src/state/entry_codes.rs
index 9a1bddc..8c885e2 100644
--- a/semantics/oca-bundle/src/state/entry_codes.rs
+++ b/semantics/oca-bundle/src/state/entry_codes.rs
@@ -3,6 +3,7 @@ use serde::{
     ser::{SerializeMap, SerializeSeq},
     Deserialize, Serialize,
 };
+use std::collections::BTreeMap;
 
 impl Serialize for EntryCodes {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -22,7 +23,8 @@ impl Serialize for EntryCodes {
             }
             Self::Object(codes) => {
                 let mut map = serializer.serialize_map(Some(codes.len()))?;
-                let sorted_codes: IndexMap<_, _> = codes.iter().collect();
+                // A loaded bundle does not keep the order of groups, so it cannot matter.
+                let sorted_codes: BTreeMap<_, _> = codes.iter().collect();
                 for (k, v) in sorted_codes {
                     map.serialize_entry(k, v)?;
                 }
-- 
2.43.0


From 6cfe3a3d3d62d8d59cb040d5e11fd5c86408de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:37 +0000
Subject: [PATCH 30/52] fix: a condition the interpreter panics on is invalid,
 not a crash

---
 semantics/oca-bundle/src/state/oca/overlay/conditional.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 4ba3663..d959d49 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -116,6 +116,12 @@ where
 
 /// Evaluates a condition whose dependencies have been filled in.
 pub(crate) fn evaluate_condition(script: &str) -> Result<bool, String> {
+    // the interpreter panics on some operations, like concatenating a boolean
+    std::panic::catch_unwind(|| run_condition(script))
+        .unwrap_or_else(|_| Err("evaluation failed".to_string()))
+}
+
+fn run_condition(script: &str) -> Result<bool, String> {
     fn reason(e: StaticError) -> String {
         e.source()
             .map(|source| source.to_string())
-- 
2.43.0


From eec00619d07975459afc4f6af3ea60f31fad7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 31/52] fix: a reference too short for an identifier is an
 error, not a crash

---
 semantics/oca-ast/src/ast/mod.rs                    | 13 +++++++++++--
 semantics/oca-file/src/ocafile/instructions/from.rs |  6 ++----
 .../oca-file/src/ocafile/instructions/helpers.rs    |  6 +++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index 6d0b7a7..310d807 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -445,6 +445,15 @@ impl Content {
     }
 }
 
+/// Parses an identifier. Its derivation code takes up to two characters, and
+/// a shorter text cannot be looked up there.
+pub fn parse_said(s: &str) -> Result<SelfAddressingIdentifier, said::error::Error> {
+    if !s.is_char_boundary(2) {
+        return Err(said::error::Error::IncorrectLengthError(s.to_string()));
+    }
+    SelfAddressingIdentifier::from_str(s)
+}
+
 impl FromStr for RefValue {
     type Err = RefValueParsingError;
 
@@ -454,7 +463,7 @@ impl FromStr for RefValue {
             .ok_or(RefValueParsingError::MissingColon)?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest)?;
+                let said = parse_said(rest)?;
                 Ok(RefValue::Said(said))
             }
             "refn" => Ok(RefValue::Name(rest.to_string())),
@@ -662,7 +671,7 @@ impl<'de> Deserialize<'de> for RefValue {
         ))?;
         match tag {
             "refs" => {
-                let said = SelfAddressingIdentifier::from_str(rest);
+                let said = parse_said(rest);
                 match said {
                     Ok(said) => Ok(RefValue::Said(said)),
                     Err(_) => Err(serde::de::Error::custom(format!(
diff --git a/semantics/oca-file/src/ocafile/instructions/from.rs b/semantics/oca-file/src/ocafile/instructions/from.rs
index 791b3df..8b9c128 100644
--- a/semantics/oca-file/src/ocafile/instructions/from.rs
+++ b/semantics/oca-file/src/ocafile/instructions/from.rs
@@ -1,9 +1,8 @@
 use crate::ocafile::{error::InstructionError, Pair, Rule};
 use log::debug;
 use oca_ast_semantics::ast::{
-    BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
+    parse_said, BundleContent, Command, CommandType, ObjectKind, RefValue, ReferenceAttrType,
 };
-use said::SelfAddressingIdentifier;
 
 #[derive(Debug, PartialEq, Eq, Clone)]
 pub struct FromInstruction {}
@@ -26,8 +25,7 @@ impl FromInstruction {
         }
 
         let said_str = said_pair.unwrap().as_str();
-        let said: SelfAddressingIdentifier = said_str
-            .parse()
+        let said = parse_said(said_str)
             .map_err(|_| InstructionError::Parser(format!("Invalid said: {said_str}")))?;
         debug!("Using oca bundle from: {:?}", said);
         let said = ReferenceAttrType::Reference(RefValue::Said(said));
diff --git a/semantics/oca-file/src/ocafile/instructions/helpers.rs b/semantics/oca-file/src/ocafile/instructions/helpers.rs
index ec309cb..0d8804a 100644
--- a/semantics/oca-file/src/ocafile/instructions/helpers.rs
+++ b/semantics/oca-file/src/ocafile/instructions/helpers.rs
@@ -4,11 +4,11 @@ use crate::ocafile::{error::ExtractingAttributeError, Pair, Rule};
 use indexmap::IndexMap;
 use log::debug;
 use oca_ast_semantics::ast::{
+    parse_said,
     recursive_attributes::{AttributeTypeResult, NestedAttrTypeFrame},
     AttributeType, Content, NestedAttrType, NestedValue, RefValue,
 };
 use recursion::ExpandableExt;
-use said::SelfAddressingIdentifier;
 
 fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeError> {
     let res = AttributeTypeResult::expand_frames(input, |seed| match seed.as_rule() {
@@ -22,7 +22,7 @@ fn extract_attr_type(input: Pair) -> Result<NestedAttrType, ExtractingAttributeE
             seed.as_str().to_string(),
         ))
         .into(),
-        Rule::said => match SelfAddressingIdentifier::from_str(seed.as_str()) {
+        Rule::said => match parse_said(seed.as_str()) {
             Ok(said) => NestedAttrTypeFrame::Reference(RefValue::Said(said)).into(),
             Err(e) => ExtractingAttributeError::SaidError(e).into(),
         },
@@ -425,7 +425,7 @@ pub fn extract_properites_key_pairs(object: Pair) -> Option<IndexMap<String, Nes
             }
             Rule::said => {
                 debug!("Parsing target said: {:?}", attr.as_str());
-                if let Ok(said) = SelfAddressingIdentifier::from_str(attr.as_str()) {
+                if let Ok(said) = parse_said(attr.as_str()) {
                     properties.insert(
                         "target".to_string(),
                         NestedValue::Reference(RefValue::Said(said)),
-- 
2.43.0


From adf5a9271b5dc2765e4f6099e87e774832c1ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 32/52] fix: a bundle with an identifier that is too short is
 malformed, not a crash

---
 oca/src/facade/bundle.rs                      |  6 +++++-
 semantics/oca-ast/src/ast/mod.rs              | 12 +++++++++++
 semantics/oca-bundle/src/state/oca.rs         |  6 +++++-
 .../oca-bundle/src/state/oca/capture_base.rs  |  6 +++++-
 semantics/oca-bundle/src/state/oca/overlay.rs |  7 ++++++-
 .../state/oca/overlay/attribute_framing.rs    |  7 ++++++-
 .../state/oca/overlay/attribute_mapping.rs    |  7 ++++++-
 .../src/state/oca/overlay/conditional.rs      |  7 ++++++-
 .../oca-bundle/src/state/oca/overlay/entry.rs |  7 ++++++-
 .../state/oca/overlay/entry_code_mapping.rs   |  7 ++++++-
 .../src/state/oca/overlay/information.rs      |  7 ++++++-
 .../oca-bundle/src/state/oca/overlay/label.rs |  7 ++++++-
 .../oca-bundle/src/state/oca/overlay/link.rs  |  7 ++++++-
 .../oca-bundle/src/state/oca/overlay/meta.rs  |  7 ++++++-
 .../src/state/oca/overlay/standard.rs         |  7 ++++++-
 .../src/state/oca/overlay/subset.rs           |  7 ++++++-
 .../transformation-file/src/state/mod.rs      | 21 +++++++++++++++++--
 17 files changed, 118 insertions(+), 17 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 7ce3fab..0f0a361 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -23,7 +23,11 @@ pub enum BundleElement {
 #[version(protocol = "B", major = 1, minor = 0)]
 pub struct Bundle {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     pub said: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "m")]
     pub structural: Option<StructuralBundle>,
diff --git a/semantics/oca-ast/src/ast/mod.rs b/semantics/oca-ast/src/ast/mod.rs
index 310d807..320428e 100644
--- a/semantics/oca-ast/src/ast/mod.rs
+++ b/semantics/oca-ast/src/ast/mod.rs
@@ -454,6 +454,18 @@ pub fn parse_said(s: &str) -> Result<SelfAddressingIdentifier, said::error::Erro
     SelfAddressingIdentifier::from_str(s)
 }
 
+/// Deserializes an optional identifier, refusing what `parse_said` refuses.
+pub fn deserialize_said<'de, D>(
+    deserializer: D,
+) -> Result<Option<SelfAddressingIdentifier>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Option::<String>::deserialize(deserializer)?
+        .map(|s| parse_said(&s).map_err(de::Error::custom))
+        .transpose()
+}
+
 impl FromStr for RefValue {
     type Err = RefValueParsingError;
 
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 90bb931..16607f8 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -672,7 +672,11 @@ impl std::fmt::Debug for DynOverlay {
 #[version(protocol = "OCAS", major = 1, minor = 1)]
 pub struct OCABundle {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     pub said: Option<said::SelfAddressingIdentifier>,
     pub capture_base: CaptureBase,
     #[serde(
diff --git a/semantics/oca-bundle/src/state/oca/capture_base.rs b/semantics/oca-bundle/src/state/oca/capture_base.rs
index e9c35b5..541d2e2 100644
--- a/semantics/oca-bundle/src/state/oca/capture_base.rs
+++ b/semantics/oca-bundle/src/state/oca/capture_base.rs
@@ -41,7 +41,11 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct CaptureBase {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     pub said: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     pub schema_type: String,
diff --git a/semantics/oca-bundle/src/state/oca/overlay.rs b/semantics/oca-bundle/src/state/oca/overlay.rs
index ac24b1f..82331f0 100644
--- a/semantics/oca-bundle/src/state/oca/overlay.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay.rs
@@ -103,8 +103,13 @@ macro_rules! overlay {
             #[derive(serde::Deserialize, serde::Serialize, SAD, Debug, Clone)]
             pub struct [<$name Overlay>] {
                 #[said]
-                #[serde(rename = "d")]
+                #[serde(
+                    rename = "d",
+                    default,
+                    deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+                )]
                 said: Option<said::SelfAddressingIdentifier>,
+                #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
                 capture_base: Option<said::SelfAddressingIdentifier>,
                 #[serde(rename = "type")]
                 overlay_type: oca_ast_semantics::ast::OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/attribute_framing.rs b/semantics/oca-bundle/src/state/oca/overlay/attribute_framing.rs
index 32ad7bc..97f7226 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/attribute_framing.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/attribute_framing.rs
@@ -72,8 +72,13 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct AttributeFramingOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/attribute_mapping.rs b/semantics/oca-bundle/src/state/oca/overlay/attribute_mapping.rs
index 22e914b..7ac274c 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/attribute_mapping.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/attribute_mapping.rs
@@ -10,10 +10,15 @@ use said::{sad::SerializationFormats, sad::SAD};
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct AttributeMappingOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     pub attribute_mapping: BTreeMap<String, String>,
 }
diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index d959d49..b23a87a 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -153,8 +153,13 @@ fn run_condition(script: &str) -> Result<bool, String> {
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct ConditionalOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/entry.rs b/semantics/oca-bundle/src/state/oca/overlay/entry.rs
index b033f51..77140e9 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/entry.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/entry.rs
@@ -43,8 +43,13 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct EntryOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/entry_code_mapping.rs b/semantics/oca-bundle/src/state/oca/overlay/entry_code_mapping.rs
index eca1652..8a5dbef 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/entry_code_mapping.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/entry_code_mapping.rs
@@ -9,8 +9,13 @@ use std::collections::BTreeMap;
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct EntryCodeMappingOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/information.rs b/semantics/oca-bundle/src/state/oca/overlay/information.rs
index fd4c585..52cc80a 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/information.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/information.rs
@@ -43,8 +43,13 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct InformationOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/label.rs b/semantics/oca-bundle/src/state/oca/overlay/label.rs
index c1432fd..b676e27 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/label.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/label.rs
@@ -70,8 +70,13 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct LabelOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/link.rs b/semantics/oca-bundle/src/state/oca/overlay/link.rs
index 37920dc..2f164f4 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/link.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/link.rs
@@ -42,8 +42,13 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct LinkOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/meta.rs b/semantics/oca-bundle/src/state/oca/overlay/meta.rs
index ecae3be..e1c0785 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/meta.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/meta.rs
@@ -53,8 +53,13 @@ where
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct MetaOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/standard.rs b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
index 1779023..8287507 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/standard.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
@@ -28,8 +28,13 @@ impl StandardAttribute for Attribute {
 #[derive(SAD, Serialize, Deserialize, Clone)]
 pub struct StandardOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/semantics/oca-bundle/src/state/oca/overlay/subset.rs b/semantics/oca-bundle/src/state/oca/overlay/subset.rs
index 936df41..45bab30 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/subset.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/subset.rs
@@ -8,8 +8,13 @@ use std::any::Any;
 #[derive(SAD, Serialize, Deserialize, Debug, Clone)]
 pub struct SubsetOverlay {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(
+        rename = "d",
+        default,
+        deserialize_with = "oca_ast_semantics::ast::deserialize_said"
+    )]
     said: Option<said::SelfAddressingIdentifier>,
+    #[serde(default, deserialize_with = "oca_ast_semantics::ast::deserialize_said")]
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
diff --git a/transformation/transformation-file/src/state/mod.rs b/transformation/transformation-file/src/state/mod.rs
index bccb6f3..a959b90 100644
--- a/transformation/transformation-file/src/state/mod.rs
+++ b/transformation/transformation-file/src/state/mod.rs
@@ -2,20 +2,37 @@ use indexmap::IndexMap;
 use said::derivation::HashFunctionCode;
 use said::version::SerializationInfo;
 use said::{sad::SerializationFormats, sad::SAD};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 #[derive(SAD, Serialize, Debug, Deserialize, Clone)]
 #[version(protocol = "OCAT", major = 1, minor = 0)]
 // #[said(format = "JSON")]
 pub struct Transformation {
     #[said]
-    #[serde(rename = "d")]
+    #[serde(rename = "d", default, deserialize_with = "deserialize_said")]
     pub said: Option<said::SelfAddressingIdentifier>,
     pub source: Option<String>,
     pub target: Option<String>,
     pub attributes: IndexMap<String, String>,
 }
 
+/// Deserializes an optional identifier. Its derivation code takes up to two
+/// characters, and a shorter text cannot be looked up there.
+fn deserialize_said<'de, D>(
+    deserializer: D,
+) -> Result<Option<said::SelfAddressingIdentifier>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let Some(s) = Option::<String>::deserialize(deserializer)? else {
+        return Ok(None);
+    };
+    if !s.is_char_boundary(2) {
+        return Err(serde::de::Error::custom("identifier too short"));
+    }
+    s.parse().map(Some).map_err(serde::de::Error::custom)
+}
+
 impl Default for Transformation {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 16d735852065bd051f01acdcef8de1956ded08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 33/52] fix: a link needs no white space before its arrow

---
 transformation/oca-file/src/ocafile.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transformation/oca-file/src/ocafile.pest b/transformation/oca-file/src/ocafile.pest
index 64de726..6711928 100644
--- a/transformation/oca-file/src/ocafile.pest
+++ b/transformation/oca-file/src/ocafile.pest
@@ -124,7 +124,7 @@ link_attributes = { ^"attribute" ~ link_attr_pairs+ }
 link_attr_pair = @{attr_key ~ arg_ws? ~ "->" ~ arg_ws?  ~ attr_key}
 link_attr_pairs = ${ (arg_ws ~ link_attr_pair)+}
 
-attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" )+ }
+attr_key = ${ (ASCII_ALPHANUMERIC | !"->" ~ "-" | "_" )+ }
 key_value = ${ string | char+}
 key_pair = @{ attr_key ~ arg_ws? ~ "=" ~ arg_ws? ~ key_value }
 attr_key_pairs = ${ (arg_ws? ~ key_pair ~ arg_ws?)+ }
-- 
2.43.0


From 0fb7843db16fa5c61f7d7ea7acffb7aaa92299ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 34/52] fix: a negative value keeps its sign in any place of a
 condition

---
 semantics/oca-bundle/src/state/oca/overlay/conditional.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index b23a87a..496c18c 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -102,6 +102,11 @@ where
                 .ok()
                 .and_then(|i| dependencies.get(i))
                 .and_then(|dep| value_of(dep))
+                // the sign of a value belongs to it, not to what stands before
+                .map(|value| match value.starts_with('-') {
+                    true => format!("({value})"),
+                    false => value,
+                })
                 .unwrap_or_else(|| {
                     unknown.get_or_insert_with(|| caps[0].to_string());
                     String::new()
-- 
2.43.0


From 2a68d692fc9ab0d91310ecaf30a07ef72eb2d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 35/52] fix: core model finds the frame an instruction names

---
 semantics/oca-dag/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-dag/src/lib.rs b/semantics/oca-dag/src/lib.rs
index 59ddd7d..a4bea0f 100644
--- a/semantics/oca-dag/src/lib.rs
+++ b/semantics/oca-dag/src/lib.rs
@@ -188,7 +188,7 @@ fn overlay_subject(overlay: &DynOverlay) -> Option<String> {
 fn command_subject(overlay_type: &ast::OverlayType, content: &ast::Content) -> Option<String> {
     let property = match overlay_type {
         ast::OverlayType::Link(_) => "target",
-        ast::OverlayType::AttributeFraming(_) => "frame_id",
+        ast::OverlayType::AttributeFraming(_) => "id",
         _ => return None,
     };
     match content.properties.as_ref()?.get(property)? {
-- 
2.43.0


From af05d45e3a36639a1779f3f306822666f32627a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 36/52] fix: a long condition does not overflow the stack

---
 .../src/state/oca/overlay/conditional.rs      | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
index 496c18c..c0a3991 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/conditional.rs
@@ -84,6 +84,13 @@ impl Conditionals for Attribute {
 /// bundles, so one which never ends must not hang the program.
 const MAX_CONDITION_STEPS: usize = 10_000;
 
+/// Length of a condition in bytes. The interpreter recurses along nested calls
+/// and chains of operators, so their number has to be limited.
+const MAX_CONDITION_LENGTH: usize = 10_000;
+
+/// Stack the interpreter gets, enough for any condition within the limit.
+const CONDITION_STACK_SIZE: usize = 64 * 1024 * 1024;
+
 /// Puts values in place of the positions of the dependencies of a condition.
 pub(crate) fn fill_condition<F>(
     condition: &str,
@@ -93,6 +100,9 @@ pub(crate) fn fill_condition<F>(
 where
     F: Fn(&str) -> Option<String>,
 {
+    if condition.len() > MAX_CONDITION_LENGTH {
+        return Err("condition too long".to_string());
+    }
     let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
     let mut unknown = None;
     let script = re
@@ -121,9 +131,16 @@ where
 
 /// Evaluates a condition whose dependencies have been filled in.
 pub(crate) fn evaluate_condition(script: &str) -> Result<bool, String> {
+    let failed = |_| Err("evaluation failed".to_string());
+    let owned_script = script.to_string();
+    let evaluation = std::thread::Builder::new()
+        .stack_size(CONDITION_STACK_SIZE)
+        .spawn(move || run_condition(&owned_script));
     // the interpreter panics on some operations, like concatenating a boolean
-    std::panic::catch_unwind(|| run_condition(script))
-        .unwrap_or_else(|_| Err("evaluation failed".to_string()))
+    match evaluation {
+        Ok(evaluation) => evaluation.join().unwrap_or_else(failed),
+        Err(_) => std::panic::catch_unwind(|| run_condition(script)).unwrap_or_else(failed),
+    }
 }
 
 fn run_condition(script: &str) -> Result<bool, String> {
-- 
2.43.0


From f5d94ce3a818134770f648808eea006933780853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 37/52] fix: regenerated overlay removals keep their language
 and keys

---
 semantics/oca-file/src/ocafile.pest                |  4 ++--
 .../oca-file/src/ocafile/instructions/remove.rs    | 14 ++++++++------
 semantics/oca-file/src/ocafile/mod.rs              | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/semantics/oca-file/src/ocafile.pest b/semantics/oca-file/src/ocafile.pest
index 614df1b..9bb8a6a 100644
--- a/semantics/oca-file/src/ocafile.pest
+++ b/semantics/oca-file/src/ocafile.pest
@@ -207,8 +207,8 @@ classification_value = { string | char+}
 //overlay_args = { ws* ~ ANY* }
 attribute = { ^"attribute" ~ attr_pairs+ }
 remove_attribute = { ^"attribute" ~ (arg_ws ~ attr_key)* }
-remove_meta = { ^"meta" ~ arg_ws ~ lang ~ (arg_ws ~ props_key ~ prop_key+)? }
-remove_label = { ^"label" ~ arg_ws ~ lang ~ (arg_ws ~ attrs_key ~ attr_key+)? }
+remove_meta = { ^"meta" ~ arg_ws ~ lang ~ (arg_ws ~ props_key ~ prop_key ~ (arg_ws ~ prop_key)*)? }
+remove_label = { ^"label" ~ arg_ws ~ lang ~ (arg_ws ~ attrs_key ~ attr_key ~ (arg_ws ~ attr_key)*)? }
 
 attr_key = ${ (ASCII_ALPHANUMERIC | "-" | "_" | ".")+ }
 prop_key = ${ (ASCII_ALPHANUMERIC | "-" | "_")+ }
diff --git a/semantics/oca-file/src/ocafile/instructions/remove.rs b/semantics/oca-file/src/ocafile/instructions/remove.rs
index 8373d41..fc60948 100644
--- a/semantics/oca-file/src/ocafile/instructions/remove.rs
+++ b/semantics/oca-file/src/ocafile/instructions/remove.rs
@@ -79,6 +79,12 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
     let mut properties: IndexMap<String, NestedValue> = IndexMap::new();
     for attr_pairs in object.into_inner() {
         match attr_pairs.as_rule() {
+            Rule::lang => {
+                properties.insert(
+                    "lang".to_string(),
+                    NestedValue::Value(attr_pairs.as_str().to_string()),
+                );
+            }
             Rule::prop_key => {
                 debug!("Parsed attribute: {:?}", attr_pairs);
                 // TODO find out how to parse nested objects
@@ -87,9 +93,7 @@ fn extract_properties_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return properties;
-            }
+            _ => {}
         }
     }
     properties
@@ -107,9 +111,7 @@ fn extract_attribute_pairs(object: Pair) -> IndexMap<String, NestedValue> {
                     NestedValue::Value("".to_string()),
                 );
             }
-            _ => {
-                return attributes;
-            }
+            _ => {}
         }
     }
     attributes
diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index 9f959df..f4eec12 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -546,6 +546,20 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                     {
                         line.push_str(format!(" {}", lang).as_str());
                     }
+                    let keys: Vec<_> = content
+                        .properties
+                        .iter()
+                        .flat_map(|properties| properties.keys())
+                        .filter(|key| *key != "lang")
+                        .collect();
+                    if !keys.is_empty() {
+                        line.push_str(" PROPS");
+                        keys.iter().for_each(|key| line.push_str(&format!(" {}", key)));
+                    }
+                    if let Some(attributes) = content.attributes.as_ref().filter(|a| !a.is_empty()) {
+                        line.push_str(" ATTRS");
+                        attributes.keys().for_each(|key| line.push_str(&format!(" {}", key)));
+                    }
                 }
                 _ => {}
             },
-- 
2.43.0


From eab14686bd03013e6a0c66d80760149c447f6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 38/52] fix: Sled keeps what was written when the process dies

---
 oca/src/data_storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index f9de389..6b0b455 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -138,7 +138,8 @@ impl DataStorage for SledDataStorage {
     fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
         if let Some(ref db) = self.db {
             let tree = db.open_tree(namespace.as_str().as_bytes()).unwrap();
-            match tree.insert(key.as_bytes(), value) {
+            // Kept in memory until flushed, it would be lost in a crash.
+            match tree.insert(key.as_bytes(), value).and_then(|_| tree.flush()) {
                 Ok(_) => Ok(()),
                 Err(e) => Err(e.to_string()),
             }
-- 
2.43.0


From 29516109008b9d884cf28bbc6a5dbf1a804b6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 39/52] fix: a link target or known reference too short for an
 identifier is not a crash

---
 oca/src/local_references.rs           | 6 ++----
 semantics/oca-bundle/src/state/oca.rs | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/oca/src/local_references.rs b/oca/src/local_references.rs
index 43101be..7ac12d7 100644
--- a/oca/src/local_references.rs
+++ b/oca/src/local_references.rs
@@ -1,7 +1,5 @@
-use std::str::FromStr;
-
 use oca_ast_semantics::ast::{
-    CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType, RefValue,
+    parse_said, CommandType, NestedAttrType, NestedValue, OCAAst, ObjectKind, OverlayType, RefValue,
 };
 use said::SelfAddressingIdentifier;
 
@@ -67,6 +65,6 @@ fn find_said<R: References>(
 ) -> Result<SelfAddressingIdentifier, ValidationError> {
     references
         .find(refn)
-        .and_then(|said| SelfAddressingIdentifier::from_str(&said).ok())
+        .and_then(|said| parse_said(&said).ok())
         .ok_or_else(|| ValidationError::UnknownRefn(refn.to_string()))
 }
diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 16607f8..60d5263 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -1279,7 +1279,7 @@ impl OCABundle {
                 OverlayType::Link(_) => {
                     let link = overlay.as_any().downcast_ref::<overlay::Link>().unwrap();
                     let mut properties = IndexMap::new();
-                    if let Ok(target) = link.target_bundle.parse() {
+                    if let Ok(target) = oca_ast_semantics::ast::parse_said(&link.target_bundle) {
                         properties.insert(
                             "target".to_string(),
                             NestedValue::Reference(RefValue::Said(target)),
-- 
2.43.0


From 98b85811850a6ea3dbb55183f0a7993b56062547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 40/52] fix: merging an attribute adds its links and framings
 to the ones it has

---
 semantics/oca-bundle/src/state/attribute.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/semantics/oca-bundle/src/state/attribute.rs b/semantics/oca-bundle/src/state/attribute.rs
index 3f4b461..dff9002 100644
--- a/semantics/oca-bundle/src/state/attribute.rs
+++ b/semantics/oca-bundle/src/state/attribute.rs
@@ -7,7 +7,7 @@ use std::collections::HashMap;
 
 use crate::state::{
     encoding::Encoding, entries::EntriesElement, entry_codes::EntryCodes,
-    oca::overlay::attribute_framing::Framing,
+    oca::overlay::attribute_framing::{Framing, Framings}, oca::overlay::link::Links,
 };
 #[derive(Serialize, Deserialize, Debug, Clone)]
 pub struct Attribute {
@@ -139,13 +139,20 @@ impl Attribute {
                 self.standards.clone_from(&other.standards);
             }
 
-            if other.links.is_some() {
-                self.links.clone_from(&other.links);
-            }
+            self.merge_links(other);
+            self.merge_framings(other);
+        }
+    }
 
-            if other.framings.is_some() {
-                self.framings.clone_from(&other.framings);
-            }
+    fn merge_links(&mut self, other: &Attribute) {
+        for (target, link) in other.links.iter().flatten() {
+            self.set_link(target.clone(), link.clone());
+        }
+    }
+
+    fn merge_framings(&mut self, other: &Attribute) {
+        for (frame_id, framing) in other.framings.iter().flatten() {
+            self.set_framing(frame_id.clone(), framing.clone());
         }
     }
 
-- 
2.43.0


From 533f359e27d272ea508af4fa4e27de1164595cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 41/52] fix: taking a bundle apart keeps its category labels
 and attribute mappings

---
 semantics/oca-bundle/src/state/oca.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index 60d5263..d6b30d9 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -710,6 +710,15 @@ impl From<OCABundle> for OCABox {
             }
         }
 
+        let mapping_overlays = oca_bundle
+            .overlays
+            .iter()
+            .filter_map(|x| x.as_any().downcast_ref::<overlay::AttributeMapping>())
+            .collect::<Vec<_>>();
+        for overlay in mapping_overlays {
+            oca_box.add_attribute_mapping(overlay.clone());
+        }
+
         let meta_overlays = oca_bundle
             .overlays
             .iter()
@@ -847,6 +856,11 @@ impl From<OCABundle> for OCABox {
                     attr.set_label(*overlay.language().unwrap(), label.clone());
                 }
             }
+            for (attr_name, label) in overlay.category_labels.iter() {
+                if let Some(attr) = attributes.get_mut(attr_name) {
+                    attr.add_category_label(*overlay.language().unwrap(), label.clone());
+                }
+            }
         }
 
         let information_overlays = oca_bundle
-- 
2.43.0


From 53f8a65675aaaeb4a48aade0decf73c4ae5984aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 42/52] fix: a standard overlay lists its attributes in a fixed
 order

---
 .../src/state/oca/overlay/standard.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/semantics/oca-bundle/src/state/oca/overlay/standard.rs b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
index 8287507..41616d7 100644
--- a/semantics/oca-bundle/src/state/oca/overlay/standard.rs
+++ b/semantics/oca-bundle/src/state/oca/overlay/standard.rs
@@ -3,7 +3,7 @@ use crate::state::{attribute::Attribute, oca::Overlay};
 use oca_ast_semantics::ast::OverlayType;
 use said::derivation::HashFunctionCode;
 use said::{sad::SerializationFormats, sad::SAD};
-use serde::{Deserialize, Serialize};
+use serde::{ser::SerializeMap, Deserialize, Serialize, Serializer};
 use std::any::Any;
 use std::collections::HashMap;
 
@@ -25,6 +25,20 @@ impl StandardAttribute for Attribute {
     }
 }
 
+pub fn serialize_standards<S>(standards: &HashMap<String, Standard>, s: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    use std::collections::BTreeMap;
+
+    let mut ser = s.serialize_map(Some(standards.len()))?;
+    let sorted_standards: BTreeMap<_, _> = standards.iter().collect();
+    for (k, v) in sorted_standards {
+        ser.serialize_entry(k, v)?;
+    }
+    ser.end()
+}
+
 #[derive(SAD, Serialize, Deserialize, Clone)]
 pub struct StandardOverlay {
     #[said]
@@ -38,6 +52,7 @@ pub struct StandardOverlay {
     capture_base: Option<said::SelfAddressingIdentifier>,
     #[serde(rename = "type")]
     overlay_type: OverlayType,
+    #[serde(serialize_with = "serialize_standards")]
     pub attribute_standards: HashMap<String, Standard>,
 }
 
-- 
2.43.0


From 34ead76fe4981a418ac1b2d24a40db0a62235ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 43/52] fix: regenerated character encoding properties have no
 empty attribute list

---
 semantics/oca-file/src/ocafile/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/semantics/oca-file/src/ocafile/mod.rs b/semantics/oca-file/src/ocafile/mod.rs
index f4eec12..1ac1fc7 100644
--- a/semantics/oca-file/src/ocafile/mod.rs
+++ b/semantics/oca-file/src/ocafile/mod.rs
@@ -502,7 +502,7 @@ pub fn generate_from_ast(ast: &OCAAst) -> String {
                                         });
                                     }
                                 }
-                                if let Some(ref attributes) = content.attributes {
+                                if let Some(attributes) = content.attributes.as_ref().filter(|a| !a.is_empty()) {
                                     line.push_str("ATTRS");
                                     attributes.iter().for_each(|(key, value)| {
                                         if let ast::NestedValue::Value(value) = value {
-- 
2.43.0


From 417b680c195bb539b287e1925d434f3546992043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 44/52] fix: a build that could not store relations or search
 data is not a success

---
 oca/src/facade/build.rs                       | 22 +++--
 oca/src/facade/explore.rs                     | 95 +++++++++----------
 .../repositories/capture_base_cache_repo.rs   | 11 ++-
 oca/src/repositories/mod.rs                   | 13 +++
 oca/src/repositories/oca_bundle_cache_repo.rs | 11 ++-
 oca/src/repositories/oca_bundle_fts_repo.rs   |  8 +-
 6 files changed, 89 insertions(+), 71 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 0be3d18..c38bf64 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -26,6 +26,8 @@ pub enum Error {
     ValidationError(Vec<ValidationError>),
     #[error("Deprecated")]
     Deprecated,
+    #[error("Storage error: {0}")]
+    StorageError(String),
 }
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
@@ -122,16 +124,19 @@ impl Facade {
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-        self.build_cache(&oca_build.oca_bundle);
+        self.build_cache(&oca_build.oca_bundle)
+            .map_err(|e| Error::StorageError(e.to_string()))?;
 
-        self.build_meta(&oca_build.oca_bundle);
+        self.build_meta(&oca_build.oca_bundle)
+            .map_err(|e| Error::StorageError(e.to_string()))?;
 
         oca_build
             .steps
             .iter()
             .for_each(|step| self.build_step(step));
 
-        let _ = self.add_relations(oca_build.oca_bundle.clone());
+        self.add_relations(oca_build.oca_bundle.clone())
+            .map_err(Error::StorageError)?;
 
         self.build_models(oca_build);
 
@@ -242,17 +247,17 @@ impl Facade {
         Ok(oca_build)
     }
 
-    fn build_cache(&self, oca_bundle: &OCABundle) {
+    fn build_cache(&self, oca_bundle: &OCABundle) -> rusqlite::Result<()> {
         let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
         let oca_bundle_cache_record = OCABundleCacheRecord::new(oca_bundle);
-        oca_bundle_cache_repo.insert(oca_bundle_cache_record);
+        oca_bundle_cache_repo.insert(oca_bundle_cache_record)?;
 
         let capture_base_cache_repo = CaptureBaseCacheRepo::new(self.connection());
         let capture_base_cache_record = CaptureBaseCacheRecord::new(&oca_bundle.capture_base);
-        capture_base_cache_repo.insert(capture_base_cache_record);
+        capture_base_cache_repo.insert(capture_base_cache_record)
     }
 
-    fn build_meta(&self, oca_bundle: &OCABundle) {
+    fn build_meta(&self, oca_bundle: &OCABundle) -> rusqlite::Result<()> {
         let meta_overlays = oca_bundle
             .overlays
             .iter()
@@ -279,9 +284,10 @@ impl Facade {
                     meta_overlay.language,
                 );
 
-                oca_bundle_fts_repo.insert(oca_bundle_fts_record);
+                oca_bundle_fts_repo.insert(oca_bundle_fts_record)?;
             }
         }
+        Ok(())
     }
 
     fn build_step(&mut self, step: &OCABuildStep) {
diff --git a/oca/src/facade/explore.rs b/oca/src/facade/explore.rs
index 6e4aaf6..b88aaa0 100644
--- a/oca/src/facade/explore.rs
+++ b/oca/src/facade/explore.rs
@@ -8,18 +8,30 @@ use super::Facade;
 
 impl Facade {
     pub fn explore(&self, said: String) -> Option<Relationship> {
-        let object_type = self.object_type(&said)?;
-        let relations_u8_res = self.db.get(Namespace::OCARelations, &said);
-
-        match relations_u8_res {
-            Ok(Some(relations_u8)) => {
-                let relationship: Relationship = relations_u8.into();
-                Some(Relationship {
-                    base_object: OCAObject { said, object_type },
-                    relations: relationship.relations,
-                })
+        self.relationship(said).ok()?
+    }
+
+    fn relationship(&self, said: String) -> Result<Option<Relationship>, String> {
+        let Some(object_type) = self.object_type(&said)? else {
+            return Ok(None);
+        };
+        let relations_u8 = self.db.get(Namespace::OCARelations, &said)?;
+
+        Ok(relations_u8.map(|relations_u8| {
+            let relationship: Relationship = relations_u8.into();
+            Relationship {
+                base_object: OCAObject { said, object_type },
+                relations: relationship.relations,
             }
-            _ => None,
+        }))
+    }
+
+    /// What is known about an object, to be completed. A storage which cannot
+    /// be read must not be taken for an object without relations.
+    fn known_relationship(&self, said: &str) -> Result<Relationship, String> {
+        match self.relationship(said.to_string())? {
+            Some(relationship) => Ok(relationship),
+            None => Ok(Relationship::new(OCAObject::new(self, said.to_string())?)),
         }
     }
 
@@ -44,8 +56,8 @@ impl Facade {
             })
             .into()],
         )?;
-        oca_bundle.overlays.iter().for_each(|overlay| {
-            let _ = self.db.insert(
+        for overlay in &oca_bundle.overlays {
+            self.db.insert(
                 Namespace::OCARelations,
                 &format!("{}.metadata", overlay.said().clone().unwrap()),
                 &[ObjectKind::Overlay(
@@ -56,8 +68,8 @@ impl Facade {
                     },
                 )
                 .into()],
-            );
-        });
+            )?;
+        }
 
         Ok(())
     }
@@ -68,37 +80,22 @@ impl Facade {
         let oca_bundle_said = oca_bundle.said.clone().unwrap().to_string();
         let capture_base_said = oca_bundle.capture_base.said.clone().unwrap().to_string();
 
-        let mut oca_bundle_rel =
-            self.explore(oca_bundle_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    oca_bundle_said.clone(),
-                )));
-        oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
-
-        let mut capture_base_rel =
-            self.explore(capture_base_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    capture_base_said.clone(),
-                )));
-        capture_base_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
+        let mut oca_bundle_rel = self.known_relationship(&oca_bundle_said)?;
+        oca_bundle_rel.add_relation(OCAObject::new(self, capture_base_said.clone())?);
+
+        let mut capture_base_rel = self.known_relationship(&capture_base_said)?;
+        capture_base_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone())?);
 
         for overlay in oca_bundle.overlays {
             let overlay_said = overlay.said().clone().unwrap().to_string();
 
-            oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
-            capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone()));
+            oca_bundle_rel.add_relation(OCAObject::new(self, overlay_said.clone())?);
+            capture_base_rel.add_relation(OCAObject::new(self, overlay_said.clone())?);
 
-            let mut overlay_rel = self
-                .explore(overlay_said.clone())
-                .unwrap_or(Relationship::new(OCAObject::new(
-                    self,
-                    overlay_said.clone(),
-                )));
+            let mut overlay_rel = self.known_relationship(&overlay_said)?;
 
-            overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone()));
-            overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone()));
+            overlay_rel.add_relation(OCAObject::new(self, oca_bundle_said.clone())?);
+            overlay_rel.add_relation(OCAObject::new(self, capture_base_said.clone())?);
             let overlay_rel_u8: Vec<u8> = overlay_rel.clone().into();
             self.db.insert(
                 Namespace::OCARelations,
@@ -124,13 +121,13 @@ impl Facade {
         Ok(())
     }
 
-    fn object_type(&self, said: &str) -> Option<ObjectKind> {
+    fn object_type(&self, said: &str) -> Result<Option<ObjectKind>, String> {
         let object_type = self
             .db
-            .get(Namespace::OCARelations, &format!("{}.metadata", said))
-            .ok()??;
+            .get(Namespace::OCARelations, &format!("{}.metadata", said))?;
 
-        object_type.first().map(|object_type| (*object_type).into())
+        Ok(object_type
+            .and_then(|object_type| object_type.first().map(|object_type| (*object_type).into())))
     }
 }
 
@@ -237,10 +234,10 @@ impl Serialize for OCAObject {
 }
 
 impl OCAObject {
-    fn new(facade: &Facade, said: String) -> Self {
-        Self {
-            said: said.clone(),
-            object_type: facade.object_type(&said).unwrap(),
-        }
+    fn new(facade: &Facade, said: String) -> Result<Self, String> {
+        let object_type = facade
+            .object_type(&said)?
+            .ok_or_else(|| format!("Unknown type of {said}"))?;
+        Ok(Self { said, object_type })
     }
 }
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index ad888b4..426f284 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -1,6 +1,6 @@
 use oca_bundle_semantics::state::oca::capture_base::CaptureBase;
 
-use super::limit_and_offset;
+use super::{limit_and_offset, stored_or_known};
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -40,13 +40,14 @@ impl CaptureBaseCacheRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: CaptureBaseCacheRecord) {
+    pub fn insert(&self, model: CaptureBaseCacheRecord) -> rusqlite::Result<()> {
         let query = r#"
         INSERT INTO capture_base_cache(said, capture_base)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.capture_base]);
+        stored_or_known(
+            self.connection
+                .execute(query, [&model.said, &model.capture_base]),
+        )
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
diff --git a/oca/src/repositories/mod.rs b/oca/src/repositories/mod.rs
index b193b2e..e373f3e 100644
--- a/oca/src/repositories/mod.rs
+++ b/oca/src/repositories/mod.rs
@@ -18,6 +18,19 @@ fn limit_and_offset(limit: usize, page: usize) -> (i64, i64) {
     (i64::try_from(limit).unwrap_or(i64::MAX), offset)
 }
 
+/// A record which is already there is kept, anything else that prevents a
+/// record from being stored is an error.
+fn stored_or_known(result: rusqlite::Result<usize>) -> rusqlite::Result<()> {
+    match result {
+        Err(rusqlite::Error::SqliteFailure(e, _))
+            if e.code == rusqlite::ErrorCode::ConstraintViolation =>
+        {
+            Ok(())
+        }
+        result => result.map(|_| ()),
+    }
+}
+
 #[derive(Clone)]
 pub struct SQLiteConfig {
     pub path: Option<PathBuf>,
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index f3b0560..8db8a3b 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -1,7 +1,7 @@
 use oca_bundle_semantics::{state::oca::OCABundle, Encode};
 use said::{derivation::HashFunctionCode, sad::SerializationFormats};
 
-use super::limit_and_offset;
+use super::{limit_and_offset, stored_or_known};
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -43,13 +43,14 @@ impl OCABundleCacheRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: OCABundleCacheRecord) {
+    pub fn insert(&self, model: OCABundleCacheRecord) -> rusqlite::Result<()> {
         let query = r#"
         INSERT INTO oca_bundle_cache(said, oca_bundle)
             VALUES (?1, ?2)"#;
-        let _ = self
-            .connection
-            .execute(query, [&model.said, &model.oca_bundle]);
+        stored_or_known(
+            self.connection
+                .execute(query, [&model.said, &model.oca_bundle]),
+        )
     }
 
     pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 30e24b2..008c722 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use said::SelfAddressingIdentifier;
 
-use super::limit_and_offset;
+use super::{limit_and_offset, stored_or_known};
 use crate::facade::Connection;
 
 #[derive(Debug)]
@@ -49,7 +49,7 @@ impl OCABundleFTSRepo {
         Self { connection }
     }
 
-    pub fn insert(&self, model: OCABundleFTSRecord) {
+    pub fn insert(&self, model: OCABundleFTSRecord) -> rusqlite::Result<()> {
         let query = r#"
         INSERT INTO oca_bundle_fts
         (rowid, name, description, language_code, oca_bundle_said)
@@ -60,7 +60,7 @@ impl OCABundleFTSRepo {
                 LIMIT 1
             ), ?1, ?2, ?3, ?4
         )"#;
-        let _ = self.connection.execute(
+        stored_or_known(self.connection.execute(
             query,
             [
                 &model.name,
@@ -68,7 +68,7 @@ impl OCABundleFTSRepo {
                 &model.language_code,
                 &model.oca_bundle_said,
             ],
-        );
+        ))
     }
 
     pub fn search(
-- 
2.43.0


From 0fe6fe56c05e1e132a6c9ab5b1061a5855922ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:46 +0000
Subject: [PATCH 45/52] fix: a base that is stored but cannot be read is not
 left out

---
 oca/src/facade/build.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index c38bf64..26787ec 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -185,7 +185,7 @@ impl Facade {
                     ReferenceAttrType::Reference(refs) => {
                         match refs {
                             RefValue::Said(said) => {
-                                match get_oca_bundle(storage, said, false) {
+                                match get_oca_bundle(storage, said.clone(), false) {
                                     Ok(oca_bundle) => {
                                         // TODO
                                         base = Some(oca_bundle.bundle.clone());
@@ -207,6 +207,13 @@ impl Facade {
                                                 message: e.clone(),
                                             })
                                         });
+                                        // A base which is there but cannot be
+                                        // read must not be left out.
+                                        let stored = storage
+                                            .get(Namespace::OCABundlesJSON, &said.to_string());
+                                        if !matches!(stored, Ok(None)) {
+                                            return Err(errors);
+                                        }
                                     }
                                 }
                             }
-- 
2.43.0


From b2ee6d27df68335fa89f2f9b1918232f4ac7709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 46/52] fix: a value whose file cannot be read is not taken for
 absent

---
 oca/src/data_storage.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/oca/src/data_storage.rs b/oca/src/data_storage.rs
index 6b0b455..ac14a33 100644
--- a/oca/src/data_storage.rs
+++ b/oca/src/data_storage.rs
@@ -287,11 +287,14 @@ impl DataStorage for FileSystemStorage {
         if let Some(ref dir) = self.dir {
             let mut path = dir.clone();
             path.push(namespace.as_str());
-            if path.try_exists().unwrap() {
-                path.push(file_name(key));
-                Ok(std::fs::read(path.clone()).ok())
-            } else {
-                Ok(None)
+            path.push(file_name(key));
+            match std::fs::read(&path) {
+                Ok(value) => Ok(Some(value)),
+                // No value can have been stored under a name too long for a file.
+                Err(e) => match e.kind() {
+                    std::io::ErrorKind::NotFound | std::io::ErrorKind::InvalidFilename => Ok(None),
+                    _ => Err(e.to_string()),
+                },
             }
         } else {
             Err("File path is required".to_string())
-- 
2.43.0


From e8402fb176cb0d66593c9d8dc409fa896695f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 47/52] fix: a name that cannot be stored or read is an error,
 not a panic

---
 oca/src/facade/build.rs | 46 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 26787ec..407b6d1 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -18,6 +18,8 @@ use oca_bundle_semantics::Encode;
 use oca_dag_semantics::build_core_db_model;
 use said::derivation::HashFunctionCode;
 use said::sad::SerializationFormats;
+#[cfg(feature = "local-references")]
+use std::cell::RefCell;
 
 #[derive(thiserror::Error, Debug, serde::Serialize)]
 #[serde(untagged)]
@@ -51,6 +53,9 @@ pub enum ValidationError {
     #[cfg(feature = "local-references")]
     #[error("Reference {0} not found")]
     UnknownRefn(String),
+    #[cfg(feature = "local-references")]
+    #[error("Storage error: {0}")]
+    StorageError(String),
 }
 
 #[cfg(feature = "local-references")]
@@ -67,6 +72,36 @@ impl References for Box<dyn DataStorage> {
     }
 }
 
+/// References kept in the storage, with the first failure to read or write them.
+#[cfg(feature = "local-references")]
+struct StoredReferences<'a> {
+    storage: &'a mut Box<dyn DataStorage>,
+    failure: RefCell<Option<String>>,
+}
+
+#[cfg(feature = "local-references")]
+impl References for StoredReferences<'_> {
+    fn find(&self, refn: &str) -> Option<String> {
+        let said = self
+            .storage
+            .get(Namespace::OCAReferences, refn)
+            .unwrap_or_else(|e| {
+                self.failure.borrow_mut().get_or_insert(e);
+                None
+            })?;
+        Some(String::from_utf8(said).unwrap())
+    }
+
+    fn save(&mut self, refn: &str, value: String) {
+        if let Err(e) = self
+            .storage
+            .insert(Namespace::OCAReferences, refn, value.as_bytes())
+        {
+            self.failure.borrow_mut().get_or_insert(e);
+        }
+    }
+}
+
 pub fn build_from_ocafile(ocafile: String) -> Result<OCABundle, Error> {
     let ast = oca_file::ocafile::parse_from_string(ocafile.clone())
         .map_err(|e| Error::ValidationError(vec![ValidationError::OCAFileParse(e)]))?;
@@ -120,7 +155,16 @@ impl Facade {
     #[cfg(feature = "local-references")]
     pub fn validate_ocafile(&mut self, ocafile: String) -> Result<OCABuild, Vec<ValidationError>> {
         let (base, oca_ast) = Self::parse_and_check_base(self.storage(), ocafile)?;
-        Self::oca_ast_to_oca_build_with_references(base, oca_ast, &mut self.db)
+        let mut references = StoredReferences {
+            storage: &mut self.db,
+            failure: RefCell::new(None),
+        };
+        let oca_build =
+            Self::oca_ast_to_oca_build_with_references(base, oca_ast, &mut references);
+        match references.failure.into_inner() {
+            Some(e) => Err(vec![ValidationError::StorageError(e)]),
+            None => oca_build,
+        }
     }
 
     pub fn build(&mut self, oca_build: &OCABuild) -> Result<OCABundle, Error> {
-- 
2.43.0


From a7596b27b2bb0a501689d2dc6b4110d6053fd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 48/52] fix: a listing that cannot be read is an error, not a
 panic

---
 oca/src/facade/build.rs                       |  7 +++---
 oca/src/facade/fetch.rs                       | 15 +++++++------
 .../repositories/capture_base_cache_repo.rs   | 22 ++++++++++---------
 oca/src/repositories/oca_bundle_cache_repo.rs | 22 ++++++++++---------
 4 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 407b6d1..1d59af8 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -159,8 +159,7 @@ impl Facade {
             storage: &mut self.db,
             failure: RefCell::new(None),
         };
-        let oca_build =
-            Self::oca_ast_to_oca_build_with_references(base, oca_ast, &mut references);
+        let oca_build = Self::oca_ast_to_oca_build_with_references(base, oca_ast, &mut references);
         match references.failure.into_inner() {
             Some(e) => Err(vec![ValidationError::StorageError(e)]),
             None => oca_build,
@@ -299,11 +298,11 @@ impl Facade {
     }
 
     fn build_cache(&self, oca_bundle: &OCABundle) -> rusqlite::Result<()> {
-        let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
+        let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection())?;
         let oca_bundle_cache_record = OCABundleCacheRecord::new(oca_bundle);
         oca_bundle_cache_repo.insert(oca_bundle_cache_record)?;
 
-        let capture_base_cache_repo = CaptureBaseCacheRepo::new(self.connection());
+        let capture_base_cache_repo = CaptureBaseCacheRepo::new(self.connection())?;
         let capture_base_cache_record = CaptureBaseCacheRecord::new(&oca_bundle.capture_base);
         capture_base_cache_repo.insert(capture_base_cache_record)
     }
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 7369263..2368288 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -128,8 +128,7 @@ impl Facade {
     pub fn fetch_all_refs(&self) -> Result<HashMap<String, String>, String> {
         let mut refs: HashMap<String, String> = HashMap::new();
         self.db
-            .get_all(Namespace::OCAReferences)
-            .unwrap()
+            .get_all(Namespace::OCAReferences)?
             .iter()
             .for_each(|(k, v)| {
                 refs.insert(k.clone(), String::from_utf8(v.to_vec()).unwrap());
@@ -146,8 +145,9 @@ impl Facade {
         let mut total: usize = 0;
         let mut errors = vec![];
 
-        let oca_bundle_cache_repo = OCABundleCacheRepo::new(self.connection());
-        let all_oca_bundle_records = oca_bundle_cache_repo.fetch_all(limit, page);
+        let all_oca_bundle_records = OCABundleCacheRepo::new(self.connection())
+            .and_then(|repo| repo.fetch_all(limit, page))
+            .map_err(|e| vec![e.to_string()])?;
         for all_oca_bundle_record in all_oca_bundle_records {
             if total == 0 {
                 total = all_oca_bundle_record.total;
@@ -182,9 +182,10 @@ impl Facade {
         let mut total: usize = 0;
         let mut errors = vec![];
 
-        let capture_base_cache_repo =
-            crate::repositories::CaptureBaseCacheRepo::new(self.connection());
-        let all_capture_base_records = capture_base_cache_repo.fetch_all(limit, page);
+        let all_capture_base_records =
+            crate::repositories::CaptureBaseCacheRepo::new(self.connection())
+                .and_then(|repo| repo.fetch_all(limit, page))
+                .map_err(|e| vec![e.to_string()])?;
         for all_capture_base_record in all_capture_base_records {
             if total == 0 {
                 total = all_capture_base_record.total;
diff --git a/oca/src/repositories/capture_base_cache_repo.rs b/oca/src/repositories/capture_base_cache_repo.rs
index 426f284..90c73ba 100644
--- a/oca/src/repositories/capture_base_cache_repo.rs
+++ b/oca/src/repositories/capture_base_cache_repo.rs
@@ -29,15 +29,15 @@ pub struct CaptureBaseCacheRepo {
 }
 
 impl CaptureBaseCacheRepo {
-    pub fn new(connection: Connection) -> Self {
+    pub fn new(connection: Connection) -> rusqlite::Result<Self> {
         let create_table_query = r#"
         CREATE TABLE IF NOT EXISTS capture_base_cache(
             said TEXT PRIMARY KEY,
             capture_base TEXT
         )"#;
-        let _ = connection.execute(create_table_query, ());
+        connection.execute(create_table_query, ())?;
 
-        Self { connection }
+        Ok(Self { connection })
     }
 
     pub fn insert(&self, model: CaptureBaseCacheRecord) -> rusqlite::Result<()> {
@@ -50,9 +50,12 @@ impl CaptureBaseCacheRepo {
         )
     }
 
-    pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllCaptureBaseRecord> {
+    pub fn fetch_all(
+        &self,
+        limit: usize,
+        page: usize,
+    ) -> rusqlite::Result<Vec<AllCaptureBaseRecord>> {
         let (limit, offset) = limit_and_offset(limit, page);
-        let mut results = vec![];
         let query = "
         SELECT results.*, count.total
         FROM
@@ -70,7 +73,7 @@ impl CaptureBaseCacheRepo {
         GROUP BY said";
 
         let connection = self.connection.connection.lock().unwrap();
-        let mut statement = connection.prepare(query).unwrap();
+        let mut statement = connection.prepare(query)?;
 
         let models = statement
             .query_map([limit, offset], |row| {
@@ -85,9 +88,8 @@ impl CaptureBaseCacheRepo {
                     cache_record,
                     total: row.get(2).unwrap(),
                 })
-            })
-            .unwrap();
-        models.for_each(|model| results.push(model.unwrap()));
-        results
+            })?
+            .collect();
+        models
     }
 }
diff --git a/oca/src/repositories/oca_bundle_cache_repo.rs b/oca/src/repositories/oca_bundle_cache_repo.rs
index 8db8a3b..c5d3cb0 100644
--- a/oca/src/repositories/oca_bundle_cache_repo.rs
+++ b/oca/src/repositories/oca_bundle_cache_repo.rs
@@ -32,15 +32,15 @@ pub struct OCABundleCacheRepo {
 }
 
 impl OCABundleCacheRepo {
-    pub fn new(connection: Connection) -> Self {
+    pub fn new(connection: Connection) -> rusqlite::Result<Self> {
         let create_table_query = r#"
         CREATE TABLE IF NOT EXISTS oca_bundle_cache(
             said TEXT PRIMARY KEY,
             oca_bundle TEXT
         )"#;
-        connection.execute(create_table_query, ()).unwrap();
+        connection.execute(create_table_query, ())?;
 
-        Self { connection }
+        Ok(Self { connection })
     }
 
     pub fn insert(&self, model: OCABundleCacheRecord) -> rusqlite::Result<()> {
@@ -53,9 +53,12 @@ impl OCABundleCacheRepo {
         )
     }
 
-    pub fn fetch_all(&self, limit: usize, page: usize) -> Vec<AllOCABundleRecord> {
+    pub fn fetch_all(
+        &self,
+        limit: usize,
+        page: usize,
+    ) -> rusqlite::Result<Vec<AllOCABundleRecord>> {
         let (limit, offset) = limit_and_offset(limit, page);
-        let mut results = vec![];
         let query = "
         SELECT results.*, count.total
         FROM
@@ -73,7 +76,7 @@ impl OCABundleCacheRepo {
         GROUP BY said";
 
         let connection = self.connection.connection.lock().unwrap();
-        let mut statement = connection.prepare(query).unwrap();
+        let mut statement = connection.prepare(query)?;
         let models = statement
             .query_map([limit, offset], |row| {
                 let cache_record =
@@ -87,9 +90,8 @@ impl OCABundleCacheRepo {
                     cache_record,
                     total: row.get(2).unwrap(),
                 })
-            })
-            .unwrap();
-        models.for_each(|model| results.push(model.unwrap()));
-        results
+            })?
+            .collect();
+        models
     }
 }
-- 
2.43.0


From ad7f6a9e27d1239570e12d342baef87c213fa472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 49/52] fix: a build whose storage fails is an error, not a
 panic

---
 oca/src/facade/build.rs                     | 121 +++++++++-----------
 oca/src/facade/fetch.rs                     |   2 +-
 oca/src/repositories/oca_bundle_fts_repo.rs |   6 +-
 3 files changed, 55 insertions(+), 74 deletions(-)

diff --git a/oca/src/facade/build.rs b/oca/src/facade/build.rs
index 1d59af8..324dc66 100644
--- a/oca/src/facade/build.rs
+++ b/oca/src/facade/build.rs
@@ -173,15 +173,14 @@ impl Facade {
         self.build_meta(&oca_build.oca_bundle)
             .map_err(|e| Error::StorageError(e.to_string()))?;
 
-        oca_build
-            .steps
-            .iter()
-            .for_each(|step| self.build_step(step));
+        for step in &oca_build.steps {
+            self.build_step(step).map_err(Error::StorageError)?;
+        }
 
         self.add_relations(oca_build.oca_bundle.clone())
             .map_err(Error::StorageError)?;
 
-        self.build_models(oca_build);
+        self.build_models(oca_build).map_err(Error::StorageError)?;
 
         Ok(oca_build.oca_bundle.clone())
     }
@@ -317,7 +316,7 @@ impl Facade {
             })
             .collect::<Vec<_>>();
         if !meta_overlays.is_empty() {
-            let oca_bundle_fts_repo = OCABundleFTSRepo::new(self.connection());
+            let oca_bundle_fts_repo = OCABundleFTSRepo::new(self.connection())?;
             for meta_overlay in meta_overlays {
                 let oca_bundle_fts_record = OCABundleFTSRecord::new(
                     oca_bundle.said.clone().unwrap().to_string(),
@@ -340,7 +339,7 @@ impl Facade {
         Ok(())
     }
 
-    fn build_step(&mut self, step: &OCABuildStep) {
+    fn build_step(&mut self, step: &OCABuildStep) -> Result<(), String> {
         let mut input: Vec<u8> = vec![];
         match &step.parent_said {
             Some(said) => {
@@ -358,57 +357,44 @@ impl Facade {
         // The same bundle can be reached in more than one way. The first one is
         // its history: replacing it could make a bundle its own ancestor.
         let operation_key = format!("oca.{}.operation", result_bundle.said.clone().unwrap());
-        let is_known = self
-            .db
-            .get(Namespace::OCA, &operation_key)
-            .unwrap()
-            .is_some();
+        let is_known = self.db.get(Namespace::OCA, &operation_key)?.is_some();
         if !is_known {
-            self.db
-                .insert(Namespace::OCA, &operation_key, &input)
-                .unwrap();
+            self.db.insert(Namespace::OCA, &operation_key, &input)?;
         }
 
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
-        self.db_cache
-            .insert(
-                Namespace::OCABundlesJSON,
-                &result_bundle.said.clone().unwrap().to_string(),
-                &result_bundle.encode(&code, &format).unwrap(),
-            )
-            .unwrap();
-        self.db_cache
-            .insert(
+        self.db_cache.insert(
+            Namespace::OCABundlesJSON,
+            &result_bundle.said.clone().unwrap().to_string(),
+            &result_bundle.encode(&code, &format).unwrap(),
+        )?;
+        self.db_cache.insert(
+            Namespace::OCAObjectsJSON,
+            &result_bundle.capture_base.said.clone().unwrap().to_string(),
+            &serde_json::to_string(&result_bundle.capture_base)
+                .unwrap()
+                .into_bytes(),
+        )?;
+        for overlay in &result_bundle.overlays {
+            self.db_cache.insert(
                 Namespace::OCAObjectsJSON,
-                &result_bundle.capture_base.said.clone().unwrap().to_string(),
-                &serde_json::to_string(&result_bundle.capture_base)
-                    .unwrap()
-                    .into_bytes(),
-            )
-            .unwrap();
-        result_bundle.overlays.iter().for_each(|overlay| {
-            self.db_cache
-                .insert(
-                    Namespace::OCAObjectsJSON,
-                    &overlay.said().clone().unwrap().to_string(),
-                    &serde_json::to_string(&overlay).unwrap().into_bytes(),
-                )
-                .unwrap();
-        });
+                &overlay.said().clone().unwrap().to_string(),
+                &serde_json::to_string(&overlay).unwrap().into_bytes(),
+            )?;
+        }
+        Ok(())
     }
 
-    fn build_models(&mut self, oca_build: &OCABuild) {
+    fn build_models(&mut self, oca_build: &OCABuild) -> Result<(), String> {
         let result_models = build_core_db_model(oca_build);
-        result_models.iter().for_each(|model| {
+        for model in &result_models {
             if let Some(command_model) = &model.command {
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", command_model.digest),
-                        &command_model.json.clone().into_bytes(),
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", command_model.digest),
+                    &command_model.json.clone().into_bytes(),
+                )?;
             }
 
             if let Some(capture_base_model) = &model.capture_base {
@@ -433,13 +419,11 @@ impl Facade {
                 );
                 input.extend(capture_base_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", capture_base_model.capture_base_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", capture_base_model.capture_base_said),
+                    &input,
+                )?;
             }
 
             if let Some(overlay_model) = &model.overlay {
@@ -464,13 +448,11 @@ impl Facade {
                 );
                 input.extend(overlay_model.command_digest.to_string().as_bytes());
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", overlay_model.overlay_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", overlay_model.overlay_said),
+                    &input,
+                )?;
             }
 
             if let Some(oca_bundle_model) = &model.oca_bundle {
@@ -500,14 +482,13 @@ impl Facade {
                     input.extend(said.to_string().as_bytes());
                 }
 
-                self.db
-                    .insert(
-                        Namespace::CoreModel,
-                        &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
-                        &input,
-                    )
-                    .unwrap();
+                self.db.insert(
+                    Namespace::CoreModel,
+                    &format!("core_model.{}", oca_bundle_model.oca_bundle_said),
+                    &input,
+                )?;
             }
-        });
+        }
+        Ok(())
     }
 }
diff --git a/oca/src/facade/fetch.rs b/oca/src/facade/fetch.rs
index 2368288..b0bd7eb 100644
--- a/oca/src/facade/fetch.rs
+++ b/oca/src/facade/fetch.rs
@@ -96,7 +96,7 @@ impl Facade {
         limit: usize,
         page: usize,
     ) -> SearchResult {
-        let oca_bundle_fts_repo = OCABundleFTSRepo::new(self.connection());
+        let oca_bundle_fts_repo = OCABundleFTSRepo::new(self.connection()).unwrap();
         let search_result = oca_bundle_fts_repo.search(language, query, limit, page);
         let records = search_result
             .records
diff --git a/oca/src/repositories/oca_bundle_fts_repo.rs b/oca/src/repositories/oca_bundle_fts_repo.rs
index 008c722..27512cf 100644
--- a/oca/src/repositories/oca_bundle_fts_repo.rs
+++ b/oca/src/repositories/oca_bundle_fts_repo.rs
@@ -34,7 +34,7 @@ pub struct OCABundleFTSRepo {
 }
 
 impl OCABundleFTSRepo {
-    pub fn new(connection: Connection) -> Self {
+    pub fn new(connection: Connection) -> rusqlite::Result<Self> {
         let create_table_query = r#"
         CREATE VIRTUAL TABLE IF NOT EXISTS oca_bundle_fts
         USING FTS5(
@@ -44,9 +44,9 @@ impl OCABundleFTSRepo {
             oca_bundle_said UNINDEXED,
             tokenize="trigram"
         )"#;
-        connection.execute(create_table_query, ()).unwrap();
+        connection.execute(create_table_query, ())?;
 
-        Self { connection }
+        Ok(Self { connection })
     }
 
     pub fn insert(&self, model: OCABundleFTSRecord) -> rusqlite::Result<()> {
-- 
2.43.0


From ddb96aba476fdbf9d8b7d36121801fd175eb50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 50/52] fix: encode a combined bundle without a structural part

---
 oca/src/facade/bundle.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 0f0a361..35567ef 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -71,8 +71,12 @@ impl Bundle {
         let code = HashFunctionCode::Blake3_256;
         let format = SerializationFormats::JSON;
 
-        let structural = self.structural.as_ref().unwrap();
-        let structural_str = String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap();
+        let structural_str = match self.structural.as_ref() {
+            Some(structural) => {
+                String::from_utf8(structural.encode(&code, &format).unwrap()).unwrap()
+            }
+            None => "null".to_string(),
+        };
 
         let mut transformations_str = String::new();
         let mut transformations_iter = self.transformations.iter().peekable();
-- 
2.43.0


From a4a60267dbf292be49519f5224d9c07704fd51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 51/52] fix: fill in the identifier which a combined bundle is
 encoded with

---
 oca/src/facade/bundle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oca/src/facade/bundle.rs b/oca/src/facade/bundle.rs
index 35567ef..ff21d53 100644
--- a/oca/src/facade/bundle.rs
+++ b/oca/src/facade/bundle.rs
@@ -62,9 +62,9 @@ impl Bundle {
     }
 
     pub fn fill_said(&mut self) {
-        let code = HashFunctionCode::Blake3_256;
-        let format = SerializationFormats::JSON;
-        self.compute_digest(&code, &format);
+        // the identifier belongs to the encoded form
+        let encoded = self.encode().unwrap();
+        self.said = serde_json::from_str::<Bundle>(&encoded).unwrap().said;
     }
 
     pub fn encode(&self) -> Result<String, serde_json::Error> {
-- 
2.43.0


From 449b504a09c4a791a522aea44b8ba49611d186e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:16 +0000
Subject: [PATCH 52/52] fix: encode every overlay of a bundle, also several of
 one kind

---
 semantics/oca-bundle/src/state/oca.rs | 32 +++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/semantics/oca-bundle/src/state/oca.rs b/semantics/oca-bundle/src/state/oca.rs
index d6b30d9..3491496 100644
--- a/semantics/oca-bundle/src/state/oca.rs
+++ b/semantics/oca-bundle/src/state/oca.rs
@@ -565,7 +565,7 @@ where
     #[serde(untagged)]
     enum OverlayValue {
         Array(Vec<DynOverlay>),
-        Object(Box<dyn Overlay + Send>),
+        Object(DynOverlay),
     }
 
     let overlays_many = [
@@ -581,22 +581,22 @@ where
     for overlay in overlays {
         let o_type_str = overlay.overlay_type().to_string().to_case(Case::Snake);
 
-        if overlays_many.contains(&o_type_str.as_str()) {
-            if let Some(OverlayValue::Array(ov)) =
-                overlays_map.get_mut(&Value::String(o_type_str.clone()))
-            {
-                ov.push(overlay.clone());
-            } else {
-                overlays_map.insert(
-                    Value::String(o_type_str.clone()),
-                    OverlayValue::Array(vec![overlay.clone()]),
-                );
+        match overlays_map.get_mut(&Value::String(o_type_str.clone())) {
+            Some(OverlayValue::Array(ov)) => ov.push(overlay.clone()),
+            // Usually there is only one of the kind, but none of several may be
+            // left out.
+            Some(OverlayValue::Object(ov)) => {
+                let several = OverlayValue::Array(vec![ov.clone(), overlay.clone()]);
+                overlays_map.insert(Value::String(o_type_str), several);
+            }
+            None => {
+                let value = if overlays_many.contains(&o_type_str.as_str()) {
+                    OverlayValue::Array(vec![overlay.clone()])
+                } else {
+                    OverlayValue::Object(overlay.clone())
+                };
+                overlays_map.insert(Value::String(o_type_str), value);
             }
-        } else {
-            overlays_map.insert(
-                Value::String(o_type_str),
-                OverlayValue::Object(overlay.clone()),
-            );
         }
     }
 
-- 
2.43.0

