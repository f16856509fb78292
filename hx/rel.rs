// C13: relative namespaces lead to the right module.

use super::{gen, Prop, Rng, Verdict};
use crate::schema::{relativize_namespace, Namespace};

pub struct C13;

fn parse(line: &str) -> Vec<String> {
    line.split('.').filter(|c| !c.is_empty()).map(str::to_owned).collect()
}

const WORDS: &[&str] = &["a", "b", "foo_bar"];

fn nth(mut i: u64) -> Option<String> {
    for len in 0..=4_u32 {
        let n = (WORDS.len() as u64).pow(len);
        if i < n {
            let mut v = vec![];
            for _ in 0..len {
                v.push(WORDS[(i % 3) as usize]);
                i /= 3;
            }
            return Some(v.join("."));
        }
        i -= n;
    }
    None
}

impl Prop for C13 {
    fn enumerated(&self) -> u64 {
        121 * 121
    }
    fn rule(&self) -> &'static str {
        "every pair of namespaces of up to 4 components over 3 names, then random ones of up to 9; \
         going up and down from the referring module has to lead to the module referred to. \
         Non-trivial: at least one is not empty"
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String> {
        if index < 121 * 121 {
            return Some(format!("{}\n{}", nth(index / 121)?, nth(index % 121)?));
        }
        let a: Vec<&str> = (0..rng.below(10)).map(|_| *rng.pick(WORDS)).collect();
        let mut b = a.clone();
        b.truncate(rng.below(a.len() + 1));
        for _ in 0..rng.below(5) {
            b.push(*rng.pick(WORDS));
        }
        Some(if rng.chance(1, 2) {
            format!("{}\n{}", a.join("."), b.join("."))
        } else {
            format!("{}\n{}", b.join("."), a.join("."))
        })
    }
    fn check(&self, input: &str) -> Verdict {
        let mut lines = input.split('\n');
        let a = parse(lines.next().unwrap_or(""));
        let b = parse(lines.next().unwrap_or(""));
        let ns = |v: &[String]| Namespace { components: v.iter().map(|c| c.as_str().into()).collect() };
        let (rest, up) = relativize_namespace(&ns(&a), &ns(&b));
        let rest: Vec<String> = rest.components.iter().map(|c| c.snake_case()).collect();
        if up > b.len() {
            return Verdict::Violation(format!("{up} levels up from {b:?} is above the root"));
        }
        let mut reached: Vec<String> = ns(&b[..b.len() - up]).components.iter().map(|c| c.snake_case()).collect();
        reached.extend(rest.clone());
        let target: Vec<String> = ns(&a).components.iter().map(|c| c.snake_case()).collect();
        if reached != target {
            return Verdict::Violation(format!(
                "from {b:?}, {up} levels up and then {rest:?} leads to {reached:?} instead of {target:?}"
            ));
        }
        Verdict::Ok(!a.is_empty() || !b.is_empty())
    }
}
