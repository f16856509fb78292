// C06: any text yields a schema or errors.

use super::{gen, parse, tok, val, Prop, Rng, Verdict};
use crate::{
    error::Error, error_merger::merge_errors, parser::parse as real_parse, schema::Namespace,
    tokenizer::tokenize, validator::validate,
};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
};

pub struct C06;

// What the tool does with the text of one file without imports, up to code generation.
fn stages(input: &str) -> Result<crate::schema::Schema, Vec<Error>> {
    let path = Path::new("f.t");
    let tokens = tokenize(path, input)?;
    let schema = real_parse(path, input, &tokens)?;
    if schema.imports.is_empty() {
        let mut set = BTreeMap::new();
        set.insert(
            Namespace { components: vec!["f".into()] },
            (schema.clone(), PathBuf::from("f.t"), input.to_owned()),
        );
        validate(&set)?;
        // The text of an accepted schema.
        let _ = schema.to_string();
    }
    Ok(schema)
}

const ALPHABET: &[&str] = &[
    "struct", "choice", "Foo", "{", "}", ":", "=", "0", "[", "]", ".", "import", "'p'", "deleted",
    "#c", "\n", " ", "!", "é",
];

impl Prop for C06 {
    fn enumerated(&self) -> u64 {
        gen::enumeration_size(ALPHABET.len() as u64, 3) * 2
    }
    fn rule(&self) -> &'static str {
        "every text of up to 3 elements of a 19-element alphabet, alone and after the beginning of a \
         declaration, every prefix of random schemas, random mutations and character soups; run \
         through tokenizer, parser, validator and rendering of all errors. Non-trivial: the text is \
         not blank"
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String> {
        let n = gen::enumeration_size(ALPHABET.len() as u64, 3);
        if index < 2 * n {
            let s = gen::enumerated(ALPHABET, 3, index % n)?;
            return Some(if index < n { s } else { format!("struct Foo {{ x: U64 = 0 {s}") });
        }
        let mut s = gen::any_text(rng);
        if rng.chance(1, 3) {
            let cut = rng.below(s.len() + 1);
            if s.is_char_boundary(cut) {
                s.truncate(cut);
            }
        }
        if rng.chance(1, 50) {
            let n = rng.below(400);
            s = format!("struct A {{ x: {}U64{} = 0 }}", "[".repeat(n), "]".repeat(rng.below(n + 1)));
        }
        Some(s)
    }
    fn check(&self, input: &str) -> Verdict {
        match stages(input) {
            Ok(_) => {
                // No stage may have had a reason to complain.
                let Some(_) = tok::reference(input) else {
                    return Verdict::Violation("accepted, although it is not a sequence of tokens".into());
                };
                let tokens = tokenize(Path::new("f.t"), input).unwrap();
                if parse::reference(&tokens).is_none() {
                    return Verdict::Violation("accepted, although it does not follow the grammar".into());
                }
                if !input.contains("import") {
                    if let Some(set) = val::load(&format!("=== f.t\n{input}")) {
                        let o = val::offences(&set);
                        if !o.is_empty() {
                            return Verdict::Violation(format!("accepted, although {}", o.join("; ")));
                        }
                    }
                }
            }
            Err(errors) => {
                if errors.is_empty() {
                    return Verdict::Violation("rejected without any error".into());
                }
                let merged = merge_errors(&errors).to_string();
                if merged.trim().is_empty() {
                    return Verdict::Violation("rejected with an empty report".into());
                }
                for e in &errors {
                    let _ = e.to_string();
                }
            }
        }
        Verdict::Ok(!input.trim().is_empty())
    }
}
