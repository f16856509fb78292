// C07: an independent tokenizer, compared with the real one.

use super::{gen, Prop, Rng, Verdict};
use crate::{token::Variant, tokenizer::tokenize};
use std::path::Path;

pub fn show(v: &Variant) -> String {
    match v {
        Variant::As => "as".into(),
        Variant::Asymmetric => "asymmetric".into(),
        Variant::Bool => "Bool".into(),
        Variant::Bytes => "Bytes".into(),
        Variant::Choice => "choice".into(),
        Variant::Colon => ":".into(),
        Variant::Comment(p) => format!("#{p:?}"),
        Variant::Deleted => "deleted".into(),
        Variant::Dot => ".".into(),
        Variant::Equals => "=".into(),
        Variant::F64 => "F64".into(),
        Variant::Identifier(i) => format!("ident {:?}", i.original()),
        Variant::Import => "import".into(),
        Variant::Integer(n) => format!("int {n}"),
        Variant::LeftCurly => "{".into(),
        Variant::LeftSquare => "[".into(),
        Variant::Optional => "optional".into(),
        Variant::Path(p) => format!("path {:?}", p.to_string_lossy()),
        Variant::RightCurly => "}".into(),
        Variant::RightSquare => "]".into(),
        Variant::S64 => "S64".into(),
        Variant::String => "String".into(),
        Variant::Struct => "struct".into(),
        Variant::U64 => "U64".into(),
        Variant::Unit => "Unit".into(),
    }
}

const WORDS: &[&str] = &[
    "as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64",
    "String", "struct", "U64", "Unit",
];

// The tokens of a text as (start, end, description), or `None` if the text must be rejected.
pub fn reference(text: &str) -> Option<Vec<(usize, usize, String)>> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let at = |k: usize| cs.get(k).map_or(text.len(), |x| x.0);
    let ch = |k: usize| cs.get(k).map(|x| x.1);
    let mut out = vec![];
    let mut ok = true;
    let mut k = 0;
    while let Some(c) = ch(k) {
        if c.is_whitespace() {
            k += 1;
            continue;
        }
        let start = k;
        if ":.={[}]".contains(c) {
            k += 1;
            out.push((at(start), at(k), c.to_string()));
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            k += 1;
            while ch(k).is_some_and(|d| d.is_alphanumeric() || d == '_') {
                k += 1;
            }
            let covered = &text[at(start)..at(k)];
            if WORDS.contains(&covered) {
                out.push((at(start), at(k), covered.to_owned()));
            } else {
                let name = covered.strip_prefix('$').unwrap_or(covered);
                let first = name.chars().next();
                if !first.is_some_and(char::is_alphabetic) {
                    ok = false;
                }
                out.push((at(start), at(k), format!("ident {name:?}")));
            }
        } else if c.is_ascii_digit() {
            let mut value: u128 = 0;
            while let Some(d) = ch(k).filter(char::is_ascii_digit) {
                value = (value * 10 + u128::from(d as u32 - 48)).min(1 << 100);
                k += 1;
            }
            if value >= 1 << 64 {
                ok = false;
            }
            out.push((at(start), at(k), format!("int {value}")));
        } else if c == '\'' {
            k += 1;
            while ch(k).is_some_and(|d| d != '\'') {
                k += 1;
            }
            if ch(k).is_none() {
                ok = false;
                break;
            }
            out.push((at(start), at(k + 1), format!("path {:?}", &text[at(start + 1)..at(k)])));
            k += 1;
        } else if c == '#' {
            let mut lines: Vec<&str> = vec![];
            let mut end;
            loop {
                let line = k + 1;
                while ch(k).is_some_and(|d| d != '\n') {
                    k += 1;
                }
                end = at(k);
                lines.push(text[at(line)..end].trim());
                // The next line belongs to the comment if it starts with another `#`.
                let mut next = k;
                if ch(next) == Some('\n') {
                    next += 1;
                }
                while ch(next).is_some_and(|d| d.is_whitespace() && d != '\n') {
                    next += 1;
                }
                if k < cs.len() && ch(next) == Some('#') {
                    k = next;
                } else {
                    break;
                }
            }
            let paragraphs: Vec<String> = lines
                .split(|l| l.is_empty())
                .filter(|ls| !ls.is_empty())
                .map(|ls| ls.join(" "))
                .collect();
            out.push((at(start), end, format!("#{paragraphs:?}")));
        } else {
            ok = false;
            k += 1;
        }
    }
    ok.then_some(out)
}

pub struct C07;

const ALPHABET: &[&str] =
    &["a", "_", "$", "0", "'", "#", "\n", " ", ":", "é", "\u{301}", "!", "9", "\r", "F64", "9999999999"];

impl Prop for C07 {
    fn enumerated(&self) -> u64 {
        gen::enumeration_size(ALPHABET.len() as u64, 4)
    }
    fn rule(&self) -> &'static str {
        "every string of up to 4 elements of a 16-element alphabet, then random schema texts, \
         token-level and character-level mutations of them and random character soups; compared \
         with an independent tokenizer (ranges, kinds, contents, acceptance). Non-trivial: the \
         text is not blank"
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String> {
        if let Some(s) = gen::enumerated(ALPHABET, 4, index) {
            return Some(s);
        }
        if rng.chance(1, 12) {
            // Around the limit of integers.
            let base: u128 = *rng.pick(&[1 << 64, 1 << 63, 1 << 32, 10, u128::from(u64::MAX) * 10]);
            let d = rng.below(40) as u128;
            let n = if rng.chance(1, 2) { base + d } else { base.saturating_sub(d) };
            return Some(format!("{}{n}", "0".repeat(rng.below(3))));
        }
        Some(gen::any_text(rng))
    }
    fn check(&self, input: &str) -> Verdict {
        let got = tokenize(Path::new("f.t"), input).map(|ts| {
            ts.iter()
                .map(|t| (t.source_range.start, t.source_range.end, show(&t.variant)))
                .collect::<Vec<_>>()
        });
        let want = reference(input);
        match (got, want) {
            (Ok(g), Some(w)) => {
                if g != w {
                    let k = (0..).find(|k| g.get(*k) != w.get(*k)).unwrap();
                    return Verdict::Violation(format!(
                        "token {k} should be {:?} but the tokenizer produced {:?}",
                        w.get(k),
                        g.get(k)
                    ));
                }
            }
            (Err(e), None) => {
                if e.is_empty() {
                    return Verdict::Violation("rejected without any error".into());
                }
            }
            (Ok(g), None) => {
                return Verdict::Violation(format!("should be rejected, but accepted as {g:?}"));
            }
            (Err(e), Some(w)) => {
                return Verdict::Violation(format!(
                    "should be accepted as {w:?}, but rejected: {}",
                    e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" | ")
                ));
            }
        }
        Verdict::Ok(!input.trim().is_empty())
    }
}
