From 628ee0f6077230b6166f54b3b4b6611a6bfbcf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 01/11] fix: report an error for a comment at the end of a
 schema instead of panicking

---
 src/parser.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 39c70ad..4214567 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -311,6 +311,23 @@ fn parse_schema(
             vec![]
         };
 
+        // Make sure we have a token to parse next. The comment above may have been the last token.
+        if *position == tokens.len() {
+            errors.push(unexpected_token(
+                source_path,
+                source_contents,
+                tokens,
+                *position,
+                "a declaration",
+            ));
+
+            return schema::Schema {
+                comment,
+                imports,
+                declarations,
+            };
+        }
+
         // Parse the keyword [tag:keyword_is_struct_or_choice].
         let keyword =
             if let token::Variant::Struct | token::Variant::Choice = tokens[*position].variant {
-- 
2.43.0


From 5ee8cf847c688f95affeb0b9d61df25fb5e9eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 02/11] fix: detect different files with the same namespace
 instead of merging them

---
 src/schema_loader.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 4dbdb43..03973a9 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -120,12 +120,12 @@ pub fn load_schemas(
     // Initialize the "frontier" with the given path. Paths in the frontier are relative to
     // `base_path` [tag:frontier_paths_based].
     let mut schemas_to_load = vec![(
-        schema_namespace.clone(),
+        schema_namespace,
         based_schema_path.to_owned(),
         None as Option<(PathBuf, String)>,
     )];
-    let mut visited_namespaces = HashSet::new();
-    visited_namespaces.insert(schema_namespace);
+    let mut visited_paths = HashSet::new();
+    visited_paths.insert(based_schema_path.to_owned());
 
     // Perform a depth-first traversal of the transitive dependencies.
     while let Some((namespace, path, origin)) = schemas_to_load.pop() {
@@ -228,9 +228,11 @@ pub fn load_schemas(
             let import_namespace = path_to_namespace(&based_import_path);
             import.namespace = Some(import_namespace.clone());
 
-            // Visit this import if it hasn't been visited already.
-            if !visited_namespaces.contains(&import_namespace) {
-                visited_namespaces.insert(import_namespace.clone());
+            // Visit this import if it hasn't been visited already. Note that we compare paths here
+            // rather than namespaces, since different files may correspond to the same namespace.
+            // That situation is reported as a conflict below.
+            if !visited_paths.contains(&based_import_path) {
+                visited_paths.insert(based_import_path.clone());
                 schemas_to_load.push((
                     import_namespace,
                     based_import_path,
-- 
2.43.0


From 5f56f201e3092df89df531756f65018d2799705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 03/11] fix: keep the sigil of identifiers which coincide with
 keywords when formatting

---
 src/schema.rs    | 51 +++++++++++++++++++++++++++++++++++++++---------
 src/tokenizer.rs |  2 +-
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/schema.rs b/src/schema.rs
index a23bcdb..4a8caed 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -7,6 +7,7 @@ use {
             DELETED_KEYWORD, F64_KEYWORD, IMPORT_KEYWORD, OPTIONAL_KEYWORD, S64_KEYWORD,
             STRING_KEYWORD, STRUCT_KEYWORD, U64_KEYWORD, UNIT_KEYWORD,
         },
+        tokenizer::RAW_IDENTIFIER_SIGIL,
     },
     std::{
         collections::{BTreeMap, BTreeSet},
@@ -17,6 +18,24 @@ use {
 
 const MAX_COLUMNS: usize = 79;
 
+// Identifiers which coincide with one of these need a sigil to not be parsed as keywords.
+const KEYWORDS: &[&str] = &[
+    ASYMMETRIC_KEYWORD,
+    AS_KEYWORD,
+    BOOL_KEYWORD,
+    BYTES_KEYWORD,
+    CHOICE_KEYWORD,
+    DELETED_KEYWORD,
+    F64_KEYWORD,
+    IMPORT_KEYWORD,
+    OPTIONAL_KEYWORD,
+    S64_KEYWORD,
+    STRING_KEYWORD,
+    STRUCT_KEYWORD,
+    U64_KEYWORD,
+    UNIT_KEYWORD,
+];
+
 #[derive(Clone, Debug)]
 pub struct Schema {
     pub comment: Vec<String>,
@@ -135,6 +154,16 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
     Ok(())
 }
 
+// Write an identifier (already converted to the appropriate case) with a sigil if it would otherwise
+// be parsed as a keyword.
+fn write_identifier<W: Write>(identifier: &str, f: &mut W) -> fmt::Result {
+    if KEYWORDS.contains(&identifier) {
+        write!(f, "{RAW_IDENTIFIER_SIGIL}")?;
+    }
+
+    write!(f, "{identifier}")
+}
+
 impl Schema {
     fn write<W: Write>(&self, f: &mut W) -> fmt::Result {
         write_comment("", &self.comment, f)?;
@@ -174,14 +203,15 @@ impl Import {
         {
             writeln!(f, "{} '{}'", IMPORT_KEYWORD, self.path.display())
         } else {
-            writeln!(
+            write!(
                 f,
-                "{} '{}' {} {}",
+                "{} '{}' {} ",
                 IMPORT_KEYWORD,
                 self.path.display(),
                 AS_KEYWORD,
-                name.snake_case(),
-            )
+            )?;
+            write_identifier(&name.snake_case(), f)?;
+            writeln!(f)
         }
     }
 }
@@ -192,7 +222,9 @@ impl Declaration {
 
         self.variant.write(f)?;
 
-        writeln!(f, " {} {{", self.name.pascal_case())?;
+        write!(f, " ")?;
+        write_identifier(&self.name.pascal_case(), f)?;
+        writeln!(f, " {{")?;
 
         let mut previous_field_has_comment = false;
 
@@ -249,7 +281,7 @@ impl Field {
             }
         }
 
-        write!(f, "{}", self.name.snake_case())?;
+        write_identifier(&self.name.snake_case(), f)?;
 
         if let TypeVariant::Unit = self.r#type.variant {
         } else {
@@ -281,10 +313,11 @@ impl TypeVariant {
             }
             Self::Custom(import, name) => {
                 if let Some(import) = import {
-                    write!(f, "{}.{}", import.snake_case(), name.pascal_case())?;
-                } else {
-                    write!(f, "{}", name.pascal_case())?;
+                    write_identifier(&import.snake_case(), f)?;
+                    write!(f, ".")?;
                 }
+
+                write_identifier(&name.pascal_case(), f)?;
             }
             Self::F64 => {
                 write!(f, "{F64_KEYWORD}")?;
diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index d02ca21..e6d5dc7 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -13,7 +13,7 @@ use {
 };
 
 // An identifier can be prefixed with this character to avoid being parsed as a keyword.
-const RAW_IDENTIFIER_SIGIL: char = '$';
+pub const RAW_IDENTIFIER_SIGIL: char = '$';
 
 // Tokenize the contents of a schema file.
 #[allow(clippy::cognitive_complexity)]
-- 
2.43.0


From 9d709b19e1db44798f3a5a5c94bfed396e44e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 04/11] fix: generate valid Rust for names which coincide with
 keywords

---
 src/generate_rust.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/generate_rust.rs b/src/generate_rust.rs
index e5d76d0..30d7161 100644
--- a/src/generate_rust.rs
+++ b/src/generate_rust.rs
@@ -73,6 +73,9 @@ const RUST_KEYWORDS: &[&str] = &[
     "yield",
 ];
 
+// These keywords cannot be used as raw identifiers.
+const RUST_NON_RAW_KEYWORDS: &[&str] = &["Self", "crate", "self", "super"];
+
 // This struct represents a tree of schemas organized in a module hierarchy.
 #[derive(Clone, Debug)]
 struct Module {
@@ -643,7 +646,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "{}", field.name.snake_case())?;
                         match field.rule {
                             schema::Rule::Asymmetric | schema::Rule::Required => {
                                 write!(buffer, " = {{ let payload = &self.")?;
@@ -693,12 +696,12 @@ fn write_schema<T: Write>(
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Required => {
                             write!(buffer, "{{ let payload_atlas = &_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{}", field.name.snake_case())?;
                             write!(buffer, "; let payload_size = ")?;
                         }
                         schema::Rule::Optional => {
                             write!(buffer, "_")?;
-                            write_identifier(buffer, &field.name, Snake, None)?;
+                            write!(buffer, "{}", field.name.snake_case())?;
                             write!(
                                 buffer,
                                 ".as_ref().map_or(0_usize, |payload_atlas| {{ let payload_size = ",
@@ -726,7 +729,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     writeln!(buffer, ",")?;
                 }
                 write_indentation(buffer, indentation + 2)?;
@@ -818,7 +821,7 @@ fn write_schema<T: Write>(
                     for field in &declaration.fields {
                         write_indentation(buffer, indentation + 2)?;
                         write!(buffer, "let mut _")?;
-                        write_identifier(buffer, &field.name, Snake, None)?;
+                        write!(buffer, "{}", field.name.snake_case())?;
                         write!(buffer, ": Option<")?;
                         write_type(buffer, &imports, namespace, &field.r#type.variant, In)?;
                         writeln!(buffer, "> = None;")?;
@@ -875,7 +878,7 @@ fn write_schema<T: Write>(
                     )?;
                     write_indentation(buffer, indentation + 5)?;
                     write!(buffer, "_")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     writeln!(buffer, ".get_or_insert(payload);")?;
                     write_indentation(buffer, indentation + 4)?;
                     writeln!(buffer, "}}")?;
@@ -913,7 +916,7 @@ fn write_schema<T: Write>(
                                     write!(buffer, "|| ")?;
                                 }
                                 write!(buffer, "_")?;
-                                write_identifier(buffer, &field.name, Snake, None)?;
+                                write!(buffer, "{}", field.name.snake_case())?;
                                 write!(buffer, ".is_none()")?;
                             }
                         }
@@ -940,7 +943,7 @@ fn write_schema<T: Write>(
                     write_indentation(buffer, indentation + 3)?;
                     write_identifier(buffer, &field.name, Snake, None)?;
                     write!(buffer, ": _")?;
-                    write_identifier(buffer, &field.name, Snake, None)?;
+                    write!(buffer, "{}", field.name.snake_case())?;
                     match field.rule {
                         schema::Rule::Asymmetric | schema::Rule::Optional => {}
                         schema::Rule::Required => {
@@ -1744,6 +1747,15 @@ fn write_identifier<T: Write>(
         CaseConvention::Snake => identifier_with_suffix.snake_case(),
     };
 
+    if RUST_NON_RAW_KEYWORDS
+        .iter()
+        .any(|keyword| converted_identifier == *keyword)
+    {
+        write!(buffer, "{converted_identifier}_")?;
+
+        return Ok(());
+    }
+
     if RUST_KEYWORDS
         .iter()
         .any(|keyword| converted_identifier == *keyword)
-- 
2.43.0


From 575d550367af6c525b773b318e16f394c1987622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 05/11] fix: only break comments between words when formatting

---
 src/schema.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/schema.rs b/src/schema.rs
index 4a8caed..4d1db67 100644
--- a/src/schema.rs
+++ b/src/schema.rs
@@ -14,6 +14,7 @@ use {
         fmt::{self, Display, Formatter, Write},
         path::PathBuf,
     },
+    textwrap::{word_separators::AsciiSpace, word_splitters::NoHyphenation, Options},
 };
 
 const MAX_COLUMNS: usize = 79;
@@ -146,7 +147,18 @@ fn write_comment<W: Write>(indentation: &str, paragraphs: &[String], f: &mut W)
             writeln!(f, "{indentation}#")?;
         }
 
-        for line in textwrap::fill(paragraph, MAX_COLUMNS - indentation.len() - 2).lines() {
+        // Lines may only be broken between words, since a line break is understood as a space. The
+        // whitespace between words is normalized so that it doesn't depend on where the lines were
+        // broken.
+        for line in textwrap::fill(
+            &paragraph.split_whitespace().collect::<Vec<_>>().join(" "),
+            Options::new(MAX_COLUMNS - indentation.len() - 2)
+                .break_words(false)
+                .word_separator(AsciiSpace)
+                .word_splitter(NoHyphenation),
+        )
+        .lines()
+        {
             writeln!(f, "{indentation}# {line}")?;
         }
     }
-- 
2.43.0


From fee97f6824dd89b838c4e975ac29d3b0b0efaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 06/11] fix: reject identifiers which begin with a digit

---
 src/tokenizer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index e6d5dc7..03a8e51 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -204,6 +204,17 @@ pub fn tokenize(schema_path: &Path, schema_contents: &str) -> Result<Vec<Token>,
                         ));
                     }
 
+                    if schema_contents[start..end]
+                        .starts_with(|d: char| d.is_numeric() && !d.is_alphabetic())
+                    {
+                        errors.push(throw::<Error>(
+                            "Identifiers cannot begin with a digit.",
+                            Some(schema_path),
+                            Some(&listing(schema_contents, SourceRange { start: i, end })),
+                            None,
+                        ));
+                    }
+
                     tokens.push(Token {
                         source_range: SourceRange { start: i, end },
                         variant: Variant::Identifier(schema_contents[start..end].into()),
-- 
2.43.0


From 5bc4f9fed13f506c6270fc46d9b20c7a4555b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 07/11] fix: mark characters rather than bytes under the lines
 of error listings

---
 src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 050610d..deba7d1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -194,9 +194,9 @@ pub fn listing(source_contents: &str, source_range: SourceRange) -> String {
                         } else {
                             "\u{250a}"
                         },
-                        " ".repeat(*section_start),
+                        " ".repeat(line[..*section_start].chars().count()),
                         // [tag:overline_u203e]
-                        "\u{203e}".repeat(section_end - section_start),
+                        "\u{203e}".repeat(line[*section_start..*section_end].chars().count()),
                     )
                 },
             )
-- 
2.43.0


From 850964739f41f99ce240d722b8b39beb43ee3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 08/11] fix: compute the base directory of a schema reached
 through a symbolic link

---
 src/schema_loader.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/schema_loader.rs b/src/schema_loader.rs
index 03973a9..fc2485c 100644
--- a/src/schema_loader.rs
+++ b/src/schema_loader.rs
@@ -7,10 +7,8 @@ use {
         tokenizer::tokenize,
     },
     std::{
-        borrow::ToOwned,
         collections::{BTreeMap, HashSet},
         fs::read_to_string,
-        io::{self, ErrorKind},
         path::PathBuf,
         path::{Component, Path},
     },
@@ -67,18 +65,17 @@ pub fn load_schemas(
     // Canonicalize the path to the base directory. This will be used to calculate namespaces below.
     // Note that even with this we still need `base_path` from above, because canonicalization on
     // Windows adds a `\\?\` prefix to the path, which changes the meaning of `..` and thus prevents
-    // us from joining it with other paths containing `..`. Note also that we can't simply
-    // compute this by canonicalizing `base_path`, since `base_path` might have zero components,
-    // which is considered invalid for canonicalization. So, instead, we canonicalize `schma_path`
-    // and take the parent of the result.
-    let canonical_base_path = match schema_path
-        .canonicalize()
-        .and_then(|canonical_schema_path| {
-            canonical_schema_path
-                .parent()
-                .map(ToOwned::to_owned)
-                .ok_or_else(|| io::Error::from(ErrorKind::Other))
-        }) {
+    // us from joining it with other paths containing `..`. Note also that `base_path` might have
+    // zero components, which is considered invalid for canonicalization. Finally, note that we can't
+    // take the parent of the canonicalized `schema_path` instead, since that would be a different
+    // directory than `base_path` if the schema is a symbolic link to a file in another directory.
+    let canonical_base_path = match schema_path.canonicalize().and_then(|_| {
+        if base_path.as_os_str().is_empty() {
+            Path::new(".").canonicalize()
+        } else {
+            base_path.canonicalize()
+        }
+    }) {
         Ok(canonical_base_path) => canonical_base_path,
         Err(error) => {
             errors.push(throw(
-- 
2.43.0


From 4ff4642349e6b869a9415ae6a025f469d052281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:40 +0000
Subject: [PATCH 09/11] fix: escape TypeScript field names which every object
 inherits a member for

---
 src/generate_typescript.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index 2c24b7a..bbed815 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -93,6 +93,14 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "while",
     "with",
     "yield",
+    // The following are not keywords, but every object inherits members with these names. The generated
+    // code tests whether a field is present by its name, so a field must not have one of these names.
+    "hasOwnProperty",
+    "isPrototypeOf",
+    "propertyIsEnumerable",
+    "toLocaleString",
+    "toString",
+    "valueOf",
 ];
 
 // This struct represents a tree of schemas organized in a module hierarchy.
-- 
2.43.0


From b553e88a8aae2bf746266bc6745574938b94bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 10/11] fix: escape TypeScript namespaces which would shadow
 globals the generated code uses

---
 src/generate_typescript.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index bbed815..b2234a7 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -101,6 +101,18 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "toLocaleString",
     "toString",
     "valueOf",
+    // The following are not keywords either, but the generated code uses the globals with these names, and
+    // a namespace with one of these names would shadow the global.
+    "ArrayBuffer",
+    "BigInt",
+    "DataView",
+    "Error",
+    "Number",
+    "Object",
+    "RangeError",
+    "TextDecoder",
+    "TextEncoder",
+    "Uint8Array",
 ];
 
 // This struct represents a tree of schemas organized in a module hierarchy.
-- 
2.43.0


From e6f456c3360ed3140e982fc13e7292998c2cb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:29 +0000
Subject: [PATCH 11/11] fix: escape a TypeScript namespace named Array, which
 the generated code uses as a global

---
 src/generate_typescript.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generate_typescript.rs b/src/generate_typescript.rs
index b2234a7..19ded80 100644
--- a/src/generate_typescript.rs
+++ b/src/generate_typescript.rs
@@ -103,6 +103,7 @@ const TYPESCRIPT_KEYWORDS: &[&str] = &[
     "valueOf",
     // The following are not keywords either, but the generated code uses the globals with these names, and
     // a namespace with one of these names would shadow the global.
+    "Array",
     "ArrayBuffer",
     "BigInt",
     "DataView",
-- 
2.43.0

