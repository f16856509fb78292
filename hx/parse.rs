// C08: an independent parser over the real tokens, compared with the real one.

use super::{gen, Prop, Rng, Verdict};
use crate::{
    parser::parse,
    schema::{DeclarationVariant, Field, Rule, Schema, Type, TypeVariant},
    token::{Token, Variant},
    tokenizer::tokenize,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write,
    path::Path,
};

fn show_type(t: &Type, o: &mut String) {
    let _ = write!(o, "@{}-{} ", t.source_range.start, t.source_range.end);
    match &t.variant {
        TypeVariant::Array(i) => {
            o.push('[');
            show_type(i, o);
            o.push(']');
        }
        TypeVariant::Bool => o.push_str("Bool"),
        TypeVariant::Bytes => o.push_str("Bytes"),
        TypeVariant::Custom(i, n) => {
            let _ = write!(
                o,
                "{:?}.{:?}",
                i.as_ref().map(|i| i.original().to_owned()),
                n.original()
            );
        }
        TypeVariant::F64 => o.push_str("F64"),
        TypeVariant::S64 => o.push_str("S64"),
        TypeVariant::String => o.push_str("String"),
        TypeVariant::U64 => o.push_str("U64"),
        TypeVariant::Unit => o.push_str("Unit"),
    }
}

pub fn show_schema(s: &Schema) -> String {
    let mut o = format!("comment {:?}\n", s.comment);
    for (n, i) in &s.imports {
        let _ = writeln!(
            o,
            "import {:?} {:?} @{}-{} {:?}",
            n.original(),
            i.path.to_string_lossy(),
            i.source_range.start,
            i.source_range.end,
            i.namespace.is_some(),
        );
    }
    for d in &s.declarations {
        let _ = writeln!(
            o,
            "{} {:?} @{}-{} {:?}",
            match d.variant {
                DeclarationVariant::Struct => "struct",
                DeclarationVariant::Choice => "choice",
            },
            d.name.original(),
            d.source_range.start,
            d.source_range.end,
            d.comment,
        );
        for f in &d.fields {
            let _ = write!(
                o,
                "  {} {:?} @{}-{} {:?} = {}: ",
                match f.rule {
                    Rule::Asymmetric => "asymmetric",
                    Rule::Optional => "optional",
                    Rule::Required => "required",
                },
                f.name.original(),
                f.source_range.start,
                f.source_range.end,
                f.comment,
                f.index,
            );
            show_type(&f.r#type, &mut o);
            o.push('\n');
        }
        let _ = writeln!(o, "  deleted {:?}", d.deleted);
    }
    o
}

struct P<'a> {
    t: &'a [Token],
    k: usize,
}

impl<'a> P<'a> {
    fn v(&self) -> Option<&'a Variant> {
        self.t.get(self.k).map(|t| &t.variant)
    }
    fn eat(&mut self, f: impl Fn(&Variant) -> bool) -> Option<()> {
        if self.v().is_some_and(f) {
            self.k += 1;
            Some(())
        } else {
            None
        }
    }
    fn span(&self, from: usize) -> String {
        format!("@{}-{}", self.t[from].source_range.start, self.t[self.k - 1].source_range.end)
    }
    fn name(&mut self) -> Option<String> {
        if let Some(Variant::Identifier(i)) = self.v() {
            self.k += 1;
            Some(i.original().to_owned())
        } else {
            None
        }
    }
    fn comment(&mut self) -> Vec<String> {
        if let Some(Variant::Comment(p)) = self.v() {
            self.k += 1;
            p.clone()
        } else {
            vec![]
        }
    }
    fn ty(&mut self) -> Option<String> {
        let from = self.k;
        let body = match self.v()? {
            Variant::LeftSquare => {
                self.k += 1;
                let inner = self.ty()?;
                self.eat(|v| matches!(v, Variant::RightSquare))?;
                format!("[{inner}]")
            }
            Variant::Identifier(_) => {
                let a = self.name()?;
                if matches!(self.v(), Some(Variant::Dot)) {
                    self.k += 1;
                    let b = self.name()?;
                    format!("{:?}.{b:?}", Some(a))
                } else {
                    format!("{:?}.{a:?}", None::<String>)
                }
            }
            v => {
                let n = match v {
                    Variant::Bool => "Bool",
                    Variant::Bytes => "Bytes",
                    Variant::F64 => "F64",
                    Variant::S64 => "S64",
                    Variant::String => "String",
                    Variant::U64 => "U64",
                    Variant::Unit => "Unit",
                    _ => return None,
                };
                self.k += 1;
                n.to_owned()
            }
        };
        Some(format!("{} {body}", self.span(from)))
    }
    fn field(&mut self) -> Option<String> {
        let from = self.k;
        let comment = self.comment();
        let rule = if self.eat(|v| matches!(v, Variant::Asymmetric)).is_some() {
            "asymmetric"
        } else if self.eat(|v| matches!(v, Variant::Optional)).is_some() {
            "optional"
        } else {
            "required"
        };
        let name = self.name()?;
        let ty = if self.eat(|v| matches!(v, Variant::Colon)).is_some() {
            self.ty()?
        } else {
            let p = self
                .t
                .get(self.k)
                .map_or_else(|| self.t[self.k - 1].source_range.end, |t| t.source_range.start);
            format!("@{p}-{p} Unit")
        };
        self.eat(|v| matches!(v, Variant::Equals))?;
        let Some(Variant::Integer(n)) = self.v() else { return None };
        self.k += 1;
        Some(format!("  {rule} {name:?} {} {comment:?} = {n}: {ty}\n", self.span(from)))
    }
}

// The meaning of a token stream, or `None` if it must be rejected.
pub fn reference(tokens: &[Token]) -> Option<String> {
    let mut p = P { t: tokens, k: 0 };
    // A leading comment is about the file unless it is directly followed by a declaration.
    let mut about_file = vec![];
    if let Some(Variant::Comment(c)) = p.v() {
        let attached = match tokens.get(1).map(|t| &t.variant) {
            Some(Variant::Struct | Variant::Choice) => {
                tokens[1].source_range.start <= tokens[0].source_range.end + 1
            }
            _ => false,
        };
        if !attached {
            about_file = c.clone();
            p.k = 1;
        }
    }
    let mut o = format!("comment {about_file:?}\n");
    let mut imports = BTreeMap::new();
    while matches!(p.v(), Some(Variant::Import)) {
        let from = p.k;
        p.k += 1;
        let Some(Variant::Path(path)) = p.v() else { return None };
        p.k += 1;
        let name: crate::identifier::Identifier =
            if p.eat(|v| matches!(v, Variant::As)).is_some() {
                let Some(Variant::Identifier(i)) = p.v() else { return None };
                p.k += 1;
                i.clone()
            } else {
                let stem = path.file_stem()?;
                stem.to_str().unwrap().into()
            };
        let line = format!(
            "import {:?} {:?} {} false\n",
            name.original(),
            path.to_string_lossy(),
            p.span(from)
        );
        if imports.insert(name.snake_case(), line).is_some() {
            return None;
        }
    }
    for line in imports.values() {
        o.push_str(line);
    }
    while p.v().is_some() {
        let from = p.k;
        let comment = p.comment();
        let kind = match p.v()? {
            Variant::Struct => "struct",
            Variant::Choice => "choice",
            _ => return None,
        };
        p.k += 1;
        let name = p.name()?;
        p.eat(|v| matches!(v, Variant::LeftCurly))?;
        let mut fields = String::new();
        while !matches!(p.v()?, Variant::Deleted | Variant::RightCurly) {
            fields.push_str(&p.field()?);
        }
        let mut deleted = BTreeSet::new();
        if p.eat(|v| matches!(v, Variant::Deleted)).is_some() {
            while let Some(Variant::Integer(n)) = p.v() {
                p.k += 1;
                if !deleted.insert(*n) {
                    return None;
                }
            }
        }
        p.eat(|v| matches!(v, Variant::RightCurly))?;
        let _ = writeln!(o, "{kind} {name:?} {} {comment:?}", p.span(from));
        o.push_str(&fields);
        let _ = writeln!(o, "  deleted {deleted:?}");
    }
    Some(o)
}

pub struct C08;

const ALPHABET: &[&str] = &[
    "struct ", "Foo ", "{ ", "} ", ": ", "U64 ", "= ", "0 ", "[ ", "] ", ". ", "optional ",
    "deleted ", "import ", "'p' ", "as ", "# c\n", "# c\n\n",
];

impl Prop for C08 {
    fn enumerated(&self) -> u64 {
        gen::enumeration_size(ALPHABET.len() as u64, 3) * 5
    }
    fn rule(&self) -> &'static str {
        "every sequence of up to 3 tokens of an 18-token alphabet in five contexts, then random \
         schemas and token-level mutations; compared with an independent parser (acceptance, and \
         every part with its source range). Non-trivial: the text has at least one token"
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String> {
        let n = gen::enumeration_size(ALPHABET.len() as u64, 3);
        if index < n * 5 {
            let s = gen::enumerated(ALPHABET, 3, index % n)?;
            return Some(match index / n {
                0 => s,
                1 => format!("struct Foo {{ {s}"),
                2 => format!("struct Foo {{ {s}}}"),
                3 => format!("choice Foo {{ x: {s}= 1 }}"),
                _ => format!("struct Foo {{ x {s}}} import 'p'"),
            });
        }
        let mut t = gen::schema_tokens(rng);
        if rng.chance(1, 2) {
            gen::mutate_tokens(rng, &mut t);
        }
        Some(gen::render(rng, &t))
    }
    fn check(&self, input: &str) -> Verdict {
        let Ok(tokens) = tokenize(Path::new("f.t"), input) else { return Verdict::Ok(false) };
        let got = parse(Path::new("f.t"), input, &tokens);
        let want = reference(&tokens);
        match (got, want) {
            (Ok(g), Some(w)) => {
                let g = show_schema(&g);
                if g != w {
                    return Verdict::Violation(format!("should mean\n{w}\nbut was parsed as\n{g}"));
                }
            }
            (Err(e), None) => {
                if e.is_empty() {
                    return Verdict::Violation("rejected without any error".into());
                }
            }
            (Ok(g), None) => {
                return Verdict::Violation(format!(
                    "should be rejected, but accepted as\n{}",
                    show_schema(&g)
                ));
            }
            (Err(e), Some(w)) => {
                return Verdict::Violation(format!(
                    "should be accepted as\n{w}\nbut rejected: {}",
                    e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" | ")
                ));
            }
        }
        Verdict::Ok(!tokens.is_empty())
    }
}
