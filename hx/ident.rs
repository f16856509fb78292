// C14: identifiers.

use super::{gen, Prop, Rng, Verdict};
use crate::identifier::Identifier;
use std::{
    cmp::Ordering,
    collections::{hash_map::DefaultHasher, BTreeSet, HashSet},
    hash::{Hash, Hasher},
};

pub struct C14;

pub fn words(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut current = String::new();
    for c in s.chars() {
        if c == '_' || c == '-' || c.is_uppercase() {
            if !current.is_empty() {
                out.push(std::mem::take(&mut current));
            }
        }
        if c != '_' && c != '-' {
            current.push(c);
        }
    }
    if !current.is_empty() {
        out.push(current);
    }
    out
}

fn lower(w: &str) -> String {
    w.to_lowercase()
}

fn capital(w: &str) -> String {
    let n = w.chars().next().map_or(0, char::len_utf8);
    w[..n].chars().flat_map(char::to_uppercase).collect::<String>() + &w[n..].to_lowercase()
}

fn hash(i: &Identifier) -> u64 {
    let mut h = DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

const ALPHABET: &[&str] = &["a", "B", "_", "-", "1", "é", "Ñ"];
const N: u64 = 1 + 7 + 49 + 343;

fn spelling(rng: &mut Rng) -> String {
    match rng.below(4) {
        0 => (0..rng.below(8))
            .map(|_| {
                *rng.pick(&[
                    "a", "b", "A", "B", "_", "-", "1", "é", "É", "ß", "ẞ", "ǅ", "ǆ", "Ǆ", "Σ", "σ", "ς",
                    "日", "ﬁ", "ŉ", "K", "k", "\u{212a}", "ı", "٣", "ⅷ", "Ⅷ",
                ])
            })
            .collect(),
        _ => gen::ident(rng, rng.0 & 1 == 0),
    }
}

impl Prop for C14 {
    fn enumerated(&self) -> u64 {
        N * 20
    }
    fn rule(&self) -> &'static str {
        "triples of spellings: every spelling of up to 3 elements of a 7-element alphabet with \
         random partners, then random ones with Unicode case mappings, including respellings of \
         the same words; compared with an independent word splitter, and all laws of equality, \
         order and hashing are checked on every pair. Non-trivial: some word"
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String> {
        let a = if index < N * 20 {
            gen::enumerated(ALPHABET, 3, index / 20)?
        } else {
            spelling(rng)
        };
        let respell = |rng: &mut Rng, s: &str| -> String {
            let w = words(s);
            let style = rng.below(4);
            w.iter()
                .enumerate()
                .map(|(i, w)| match style {
                    0 => format!("{}{}", if i > 0 { "_" } else { "" }, lower(w)),
                    1 => capital(w),
                    2 => format!("{}{w}", if i > 0 { "-" } else { "" }),
                    _ => format!("_{w}_"),
                })
                .collect()
        };
        let b = if rng.chance(1, 2) { respell(rng, &a) } else { spelling(rng) };
        let c = match rng.below(3) {
            0 => respell(rng, &b),
            1 => gen::enumerated(ALPHABET, 3, rng.below(N as usize) as u64)?,
            _ => spelling(rng),
        };
        Some(format!("{a}\n{b}\n{c}"))
    }
    fn check(&self, input: &str) -> Verdict {
        let names: Vec<&str> = input.split('\n').collect();
        let ids: Vec<Identifier> = names.iter().map(|n| (*n).into()).collect();
        for (n, i) in names.iter().zip(&ids) {
            let w = words(n);
            let snake = w.iter().map(|w| lower(w)).collect::<Vec<_>>().join("_");
            let pascal: String = w.iter().map(|w| capital(w)).collect();
            let camel: String = w
                .iter()
                .enumerate()
                .map(|(k, w)| if k == 0 { lower(w) } else { capital(w) })
                .collect();
            for (what, got, want) in [
                ("snake case", i.snake_case(), snake),
                ("Pascal case", i.pascal_case(), pascal),
                ("camel case", i.camel_case(), camel),
                ("original", i.original().to_owned(), (*n).to_owned()),
            ] {
                if got != want {
                    return Verdict::Violation(format!("{what} of {n:?} is {got:?} instead of {want:?}"));
                }
            }
        }
        let folded: Vec<Vec<String>> =
            names.iter().map(|n| words(n).iter().map(|w| lower(w)).collect()).collect();
        for a in 0..ids.len() {
            for b in 0..ids.len() {
                let same = folded[a] == folded[b];
                let (x, y) = (&ids[a], &ids[b]);
                if (x == y) != same || (x != y) == same {
                    return Verdict::Violation(format!(
                        "{:?} == {:?} is {}, but their words are {:?} and {:?}",
                        names[a], names[b], x == y, folded[a], folded[b]
                    ));
                }
                if (x.cmp(y) == Ordering::Equal) != same {
                    return Verdict::Violation(format!(
                        "{:?} and {:?} compare as {:?}, but equality is {same}",
                        names[a], names[b], x.cmp(y)
                    ));
                }
                if x.partial_cmp(y) != Some(x.cmp(y)) || x.cmp(y) != y.cmp(x).reverse() {
                    return Verdict::Violation(format!(
                        "the order of {:?} and {:?} is inconsistent",
                        names[a], names[b]
                    ));
                }
                if same && hash(x) != hash(y) {
                    return Verdict::Violation(format!(
                        "{:?} and {:?} are equal but have different hashes",
                        names[a], names[b]
                    ));
                }
                let joined = x.join(y);
                let w: Vec<String> = folded[a].iter().chain(&folded[b]).cloned().collect();
                if joined.snake_case() != w.join("_") {
                    return Verdict::Violation(format!(
                        "{:?} joined with {:?} is {:?}",
                        names[a], names[b], joined.snake_case()
                    ));
                }
                for c in 0..ids.len() {
                    let z = &ids[c];
                    if x.cmp(y) != Ordering::Greater
                        && y.cmp(z) != Ordering::Greater
                        && x.cmp(z) == Ordering::Greater
                    {
                        return Verdict::Violation(format!(
                            "the order of {:?}, {:?} and {:?} is not transitive",
                            names[a], names[b], names[c]
                        ));
                    }
                }
            }
        }
        let sorted: BTreeSet<&Identifier> = ids.iter().collect();
        let hashed: HashSet<&Identifier> = ids.iter().collect();
        let distinct: HashSet<&Vec<String>> = folded.iter().collect();
        if sorted.len() != distinct.len() || hashed.len() != distinct.len() {
            return Verdict::Violation("sets of identifiers have the wrong size".into());
        }
        Verdict::Ok(folded.iter().any(|w| !w.is_empty()))
    }
}
