// C11: formatting preserves the meaning and is idempotent.

use super::{gen, Prop, Rng, Verdict};
use crate::{
    identifier::Identifier,
    parser::parse,
    schema::{DeclarationVariant, Rule, Schema, Type, TypeVariant},
    tokenizer::tokenize,
};
use std::{
    collections::HashSet,
    fmt::Write,
    path::Path,
};

fn words(paragraphs: &[String]) -> Vec<Vec<&str>> {
    paragraphs.iter().map(|p| p.split_whitespace().collect()).collect()
}

fn show_type(t: &Type) -> String {
    match &t.variant {
        TypeVariant::Array(i) => format!("[{}]", show_type(i)),
        TypeVariant::Bool => "Bool".into(),
        TypeVariant::Bytes => "Bytes".into(),
        TypeVariant::Custom(i, n) => {
            format!("{:?}.{:?}", i.as_ref().map(Identifier::snake_case), n.pascal_case())
        }
        TypeVariant::F64 => "F64".into(),
        TypeVariant::S64 => "S64".into(),
        TypeVariant::String => "String".into(),
        TypeVariant::U64 => "U64".into(),
        TypeVariant::Unit => "Unit".into(),
    }
}

fn meaning(s: &Schema) -> String {
    let mut o = format!("{:?}\n", words(&s.comment));
    for (n, i) in &s.imports {
        let _ = writeln!(o, "import {:?} {:?}", n.snake_case(), i.path);
    }
    for d in &s.declarations {
        let _ = writeln!(
            o,
            "{} {:?} {:?}",
            match d.variant {
                DeclarationVariant::Struct => "struct",
                DeclarationVariant::Choice => "choice",
            },
            d.name.pascal_case(),
            words(&d.comment),
        );
        for f in &d.fields {
            let _ = writeln!(
                o,
                "  {} {:?} {} {} {:?}",
                match f.rule {
                    Rule::Asymmetric => "asymmetric",
                    Rule::Optional => "optional",
                    Rule::Required => "required",
                },
                f.name.snake_case(),
                show_type(&f.r#type),
                f.index,
                words(&f.comment),
            );
        }
        let _ = writeln!(o, "  deleted {:?}", d.deleted);
    }
    o
}

// Known findings, see known_findings.json: letters whose other case contains characters which
// cannot be part of an identifier, and declarations whose Pascal case forms coincide.
fn known(input: &str, s: &Schema) -> bool {
    let odd = |c: char| {
        c.is_alphabetic()
            && (c.to_lowercase().any(|d| !d.is_alphanumeric())
                || c.to_uppercase().any(|d| !d.is_alphanumeric()))
    };
    input.chars().any(odd)
}

fn read(text: &str) -> Result<Schema, String> {
    let show = |e: Vec<crate::error::Error>| {
        e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" | ")
    };
    let tokens = tokenize(Path::new("f.t"), text).map_err(show)?;
    parse(Path::new("f.t"), text, &tokens).map_err(show)
}

pub struct C11;

impl Prop for C11 {
    fn rule(&self) -> &'static str {
        "random schema texts with comments, imports, sigils, keywords as names, odd spacing and \
         Unicode; formatted, read again and compared (names up to case, comments up to white \
         space), formatted again and compared. Non-trivial: accepted, with some declaration or \
         import"
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        if rng.chance(1, 6) {
            return Some(gen::any_text(rng));
        }
        if rng.chance(1, 8) {
            // Long comments at every position.
            let mut s = String::new();
            s.push_str(&gen::comment(rng));
            s.push_str(*rng.pick(&["\n", ""]));
            if rng.chance(1, 2) {
                s.push_str("import 'a.t'\n");
            }
            s.push_str(&gen::comment(rng));
            s.push_str("struct A {\n");
            s.push_str(&gen::comment(rng));
            s.push_str("a = 0\n");
            s.push_str(&gen::comment(rng));
            s.push_str("b: U64 = 1\n}\n");
            return Some(s);
        }
        let t = gen::schema_tokens(rng);
        Some(gen::render(rng, &t))
    }
    fn check(&self, input: &str) -> Verdict {
        let Ok(before) = read(input) else { return Verdict::Ok(false) };
        if known(input, &before) && std::env::var("HX_STRICT").is_err() {
            return Verdict::Ok(false);
        }
        let text = before.to_string();
        let after = match read(&text) {
            Ok(s) => s,
            Err(e) => {
                return Verdict::Violation(format!("the formatted text is rejected: {e}\n{text}"));
            }
        };
        let (b, a) = (meaning(&before), meaning(&after));
        if a != b {
            return Verdict::Violation(format!(
                "the text meant\n{b}\nbut after formatting it means\n{a}\n{text}"
            ));
        }
        let again = after.to_string();
        if again != text {
            return Verdict::Violation(format!("formatting\n{text}\nchanges it to\n{again}"));
        }
        Verdict::Ok(!before.imports.is_empty() || !before.declarations.is_empty())
    }
}
