// C09 and C10: independent well-formedness and recursion checks over the real syntax trees.

use super::{gen, Prop, Rng, Verdict};
use crate::{
    parser::parse,
    schema::{Namespace, Schema, Type, TypeVariant},
    tokenizer::tokenize,
    validator::validate,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    path::{Path, PathBuf},
};

pub type Set = BTreeMap<Namespace, (Schema, PathBuf, String)>;

pub fn split_files(input: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for line in input.split_inclusive('\n') {
        if let Some(p) = line.strip_prefix("=== ") {
            out.push((p.trim().to_owned(), String::new()));
        } else if let Some(l) = out.last_mut() {
            l.1.push_str(line);
        }
    }
    out
}

fn namespace(path: &str) -> Namespace {
    Namespace {
        components: path.strip_suffix(".t").unwrap_or(path).split('/').map(|c| c.into()).collect(),
    }
}

fn normalize(dir: &str, path: &str) -> Option<String> {
    let mut parts: Vec<&str> = dir.split('/').filter(|p| !p.is_empty()).collect();
    for p in path.split('/') {
        match p {
            "" | "." => {}
            ".." => {
                parts.pop()?;
            }
            p => parts.push(p),
        }
    }
    Some(parts.join("/"))
}

// Parse the files and resolve their imports; `None` if that is not possible.
pub fn load(input: &str) -> Option<Set> {
    let files = split_files(input);
    let mut set = BTreeMap::new();
    let paths: BTreeSet<String> = files.iter().map(|f| f.0.clone()).collect();
    for (path, text) in files {
        let tokens = tokenize(Path::new(&path), &text).ok()?;
        let mut schema = parse(Path::new(&path), &text, &tokens).ok()?;
        let dir = path.rsplit_once('/').map_or("", |x| x.0);
        for import in schema.imports.values_mut() {
            let target = normalize(dir, import.path.to_str()?)?;
            if !paths.contains(&target) {
                return None;
            }
            import.namespace = Some(namespace(&target));
        }
        if set.insert(namespace(&path), (schema, PathBuf::from(path), text)).is_some() {
            return None;
        }
    }
    Some(set)
}

fn key(n: &Namespace) -> Vec<String> {
    n.components.iter().map(|c| c.snake_case()).collect()
}

type Key = (Vec<String>, String);

fn references(t: &Type, out: &mut Vec<(Option<String>, String)>) {
    match &t.variant {
        TypeVariant::Array(i) => references(i, out),
        TypeVariant::Custom(i, n) => out.push((i.as_ref().map(|i| i.snake_case()), n.snake_case())),
        _ => {}
    }
}

fn resolve(
    here: &Namespace,
    schema: &Schema,
    reference: &(Option<String>, String),
    known: &HashSet<Key>,
) -> Option<Key> {
    let space = match &reference.0 {
        None => key(here),
        Some(i) => {
            let import = schema.imports.iter().find(|(n, _)| n.snake_case() == *i)?.1;
            key(import.namespace.as_ref()?)
        }
    };
    let k = (space, reference.1.clone());
    known.contains(&k).then_some(k)
}

// One line per offence.
pub fn offences(set: &Set) -> Vec<String> {
    let mut known = HashSet::new();
    for (n, (s, _, _)) in set {
        for d in &s.declarations {
            known.insert((key(n), d.name.snake_case()));
        }
    }
    let mut out = vec![];
    for (n, (s, _, _)) in set {
        let here = key(n).join("/");
        let mut names = HashSet::new();
        for d in &s.declarations {
            let dn = d.name.snake_case();
            if !names.insert(dn.clone()) {
                out.push(format!("{here}: declaration {dn} is duplicated"));
            }
            let mut fields = HashSet::new();
            let mut indices = HashSet::new();
            for f in &d.fields {
                let name = f.name.snake_case();
                if !fields.insert(name.clone()) {
                    out.push(format!("{here}.{dn}: field {name} is duplicated"));
                }
                if !indices.insert(f.index) {
                    out.push(format!("{here}.{dn}: index {} is duplicated", f.index));
                }
                if d.deleted.iter().any(|x| *x == f.index) {
                    out.push(format!("{here}.{dn}: index {} is deleted", f.index));
                }
                if f.index as u64 >= 1 << 62 {
                    out.push(format!("{here}.{dn}: index {} is too large", f.index));
                }
                let mut r = vec![];
                references(&f.r#type, &mut r);
                for r in r {
                    if resolve(n, s, &r, &known).is_none() {
                        out.push(format!("{here}.{dn}.{name}: there is no type {r:?}"));
                    }
                }
            }
            // The indices in use and the deleted ones together are 0, 1, 2, ... without a gap.
            let mut all: Vec<usize> = indices.into_iter().chain(d.deleted.iter().copied()).collect();
            all.sort_unstable();
            all.dedup();
            if all.iter().enumerate().any(|(k, i)| k != *i) {
                out.push(format!("{here}.{dn}: gap in {all:?}"));
            }
        }
    }
    out
}

pub fn edges(set: &Set) -> HashMap<Key, HashSet<Key>> {
    let mut known = HashSet::new();
    for (n, (s, _, _)) in set {
        for d in &s.declarations {
            known.insert((key(n), d.name.snake_case()));
        }
    }
    let mut out: HashMap<Key, HashSet<Key>> = HashMap::new();
    for (n, (s, _, _)) in set {
        for d in &s.declarations {
            let from = (key(n), d.name.snake_case());
            let targets = out.entry(from).or_default();
            for f in &d.fields {
                let mut r = vec![];
                references(&f.r#type, &mut r);
                targets.extend(r.iter().filter_map(|r| resolve(n, s, r, &known)));
            }
        }
    }
    out
}

// By elimination of the types which refer to no remaining type.
pub fn recursive(edges: &HashMap<Key, HashSet<Key>>) -> bool {
    let mut left: HashSet<&Key> = edges.keys().collect();
    loop {
        let gone: Vec<&Key> = left
            .iter()
            .filter(|k| edges[**k].iter().all(|t| !left.contains(t)))
            .copied()
            .collect();
        if gone.is_empty() {
            return !left.is_empty();
        }
        for k in gone {
            left.remove(k);
        }
    }
}

pub struct C09 {
    pub cycles: bool,
}

const PATHS: &[&str] = &["a.t", "b.t", "x/a.t", "x/b.t", "x/y/c.t"];

fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k + 1 < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    "../".repeat(f.len() - 1 - k) + &t[k..].join("/")
}

impl C09 {
    fn gen_set(&self, rng: &mut Rng) -> String {
        const NAMES: &[&str] = &["Foo", "Bar", "Baz", "Qux", "A", "B", "C", "D", "E"];
        let wide = rng.chance(1, 2);
        let nf = 1 + rng.below(if wide { 4 } else { 1 });
        let mut paths: Vec<&str> = PATHS.to_vec();
        while paths.len() > nf {
            paths.remove(rng.below(paths.len()));
        }
        let decls: Vec<Vec<&str>> = (0..nf)
            .map(|_| {
                let mut v: Vec<&str> = NAMES.to_vec();
                let n = rng.below(if self.cycles { 6 } else { 5 });
                while v.len() > n {
                    v.remove(rng.below(v.len()));
                }
                v
            })
            .collect();
        // With some probability references only go to later declarations, so that there is no
        // recursion, apart from one extra reference.
        let acyclic = rng.chance(if self.cycles { 3 } else { 4 }, 5);
        let order: Vec<Vec<usize>> =
            decls.iter().map(|d| d.iter().map(|_| rng.below(1000)).collect()).collect();
        let mut out = String::new();
        let total: usize = decls.iter().map(Vec::len).sum();
        let odd = if rng.chance(1, 2) { rng.below(total.max(1) * 3) } else { usize::MAX };
        let mut count = 0;
        for (fi, path) in paths.iter().enumerate() {
            out.push_str(&format!("=== {path}\n"));
            let mut imports = vec![];
            for (ti, to) in paths.iter().enumerate() {
                if rng.chance(2, 3) {
                    let alias = format!("{}{ti}", rng.pick(&["im", "Im", "i_m"]));
                    out.push_str(&format!("import '{}' as {alias}\n", relative(path, to)));
                    imports.push((alias, ti));
                }
            }
            for (di, name) in decls[fi].iter().enumerate() {
                let spelled = if rng.chance(1, 8) { name.to_uppercase() } else { (*name).to_owned() };
                let spelled = if spelled.len() > 1 { (*name).to_owned() } else { spelled };
                out.push_str(&format!("{} {spelled} {{\n", rng.pick(&["struct", "choice"])));
                let nfields = rng.below(5);
                let mut order_of_indices: Vec<usize> = (0..nfields + 2).collect();
                for k in (1..order_of_indices.len()).rev() {
                    order_of_indices.swap(k, rng.below(k + 1));
                }
                let in_order = rng.chance(1, 2);
                let mut used = vec![];
                for k in 0..nfields {
                    let mut ix = if in_order { k } else { order_of_indices[k] };
                    used.push(ix);
                    let mut fname = format!("f{}", (b'a' + k as u8) as char);
                    let mut shown = ix.to_string();
                    count += 1;
                    let mut t = String::new();
                    if count == odd && !self.cycles {
                        match rng.below(7) {
                            0 => fname = "fa".into(),
                            1 => shown = rng.below(nfields + 1).to_string(),
                            2 => shown = "4611686018427387904".into(),
                            3 => shown = "4611686018427387903".into(),
                            4 => t = "Missing".into(),
                            5 => t = format!("nope.{}", NAMES[0]),
                            _ => fname = "Fa".into(),
                        }
                    }
                    if t.is_empty() {
                        let mut targets: Vec<String> = vec![];
                        let free = !acyclic || count == odd;
                        for (k2, n2) in decls[fi].iter().enumerate() {
                            if free || order[fi][k2] > order[fi][di] {
                                targets.push((*n2).to_owned());
                            }
                        }
                        for (alias, ti) in &imports {
                            for (k2, n2) in decls[*ti].iter().enumerate() {
                                if free || order[*ti][k2] > order[fi][di] {
                                    targets.push(format!("{alias}.{n2}"));
                                }
                            }
                        }
                        // A name which exists elsewhere, but maybe not here.
                        if !self.cycles && rng.chance(1, 60) {
                            if let Some((alias, _)) = imports.first() {
                                targets = vec![format!("{alias}.{}", rng.pick(NAMES))];
                            }
                        }
                        t = if targets.is_empty() || rng.chance(1, 3) {
                            (*rng.pick(&["U64", "Bool", "String", "Unit"])).to_owned()
                        } else {
                            rng.pick(&targets).clone()
                        };
                    }
                    for _ in 0..(if rng.chance(1, 4) { 1 + rng.below(3) } else { 0 }) {
                        t = format!("[{t}]");
                    }
                    out.push_str(&format!(
                        "  {}{fname}: {t} = {shown}\n",
                        rng.pick(&["", "", "optional ", "asymmetric "])
                    ));
                }
                let mut deleted: Vec<String> = vec![];
                for ix in 0..nfields + 2 {
                    let below = used.iter().any(|u| *u > ix);
                    if !used.contains(&ix) && (below || rng.chance(1, 4)) {
                        deleted.push(ix.to_string());
                        if rng.chance(1, 12) && !self.cycles {
                            deleted.pop();
                        }
                    }
                }
                if rng.chance(1, 30) && !self.cycles {
                    if let Some(u) = used.first() {
                        deleted.push(u.to_string());
                    }
                }
                if !deleted.is_empty() {
                    out.push_str(&format!("  deleted {}\n", deleted.join(" ")));
                }
                out.push_str("}\n");
            }
            if !self.cycles && rng.chance(1, 30) {
                out.push_str("struct Foo {}\n");
            }
        }
        out
    }

    // The `index`-th graph over `n` types in one file: bit `i * n + j` says that `i` refers to `j`.
    fn graph(n: usize, bits: u64) -> String {
        let mut out = String::from("=== a.t\n");
        for i in 0..n {
            out.push_str(&format!("struct T{} {{\n", (b'a' + i as u8) as char));
            let mut k = 0;
            for j in 0..n {
                if bits >> (i * n + j) & 1 == 1 {
                    out.push_str(&format!(
                        "  f{k}: {}T{}{} = {k}\n",
                        if (i + j) % 2 == 0 { "[" } else { "" },
                        (b'a' + j as u8) as char,
                        if (i + j) % 2 == 0 { "]" } else { "" },
                    ));
                    k += 1;
                }
            }
            out.push_str("}\n");
        }
        out
    }
}

impl Prop for C09 {
    fn enumerated(&self) -> u64 {
        if self.cycles {
            2 + 16 + 512 + 65536
        } else {
            0
        }
    }
    fn rule(&self) -> &'static str {
        if self.cycles {
            "every reference graph over up to 4 types of one file, then random otherwise \
             well-formed sets of up to 4 files which import one another, with arrays, choices and \
             recursion at random; compared with an independent check by elimination, and every \
             reported chain is followed. Non-trivial: some type refers to another"
        } else {
            "random sets of up to 4 files which import one another, with and without an offence of \
             every kind; compared with an independent well-formedness check, counting offences. \
             Non-trivial: some declaration has a field"
        }
    }
    fn gen(&self, rng: &mut Rng, index: u64) -> Option<String> {
        if self.cycles {
            let mut i = index;
            for n in 1..=4 {
                let count = 1_u64 << (n * n);
                if i < count {
                    return Some(Self::graph(n, i));
                }
                i -= count;
            }
        }
        Some(self.gen_set(rng))
    }
    fn check(&self, input: &str) -> Verdict {
        let Some(set) = load(input) else { return Verdict::Ok(false) };
        let offences = offences(&set);
        if self.cycles && !offences.is_empty() {
            return Verdict::Ok(false);
        }
        let edges = edges(&set);
        let recursive = recursive(&edges);
        let result = validate(&set);
        let messages: Vec<String> = match &result {
            Ok(()) => vec![],
            Err(e) => e.iter().map(|e| e.to_string()).collect(),
        };
        if matches!(&result, Err(e) if e.is_empty()) {
            return Verdict::Violation("rejected without any error".into());
        }
        if self.cycles {
            if recursive != result.is_err() {
                return Verdict::Violation(if recursive {
                    "some type contains itself, but the schemas are accepted".into()
                } else {
                    format!("no type contains itself, but: {}", messages.join(" | "))
                });
            }
            for m in &messages {
                if let Some(problem) = bad_chain(m, &set, &edges) {
                    return Verdict::Violation(problem);
                }
            }
            return Verdict::Ok(edges.values().any(|t| !t.is_empty()));
        }
        if offences.is_empty() {
            if result.is_err() && !recursive {
                return Verdict::Violation(format!("well-formed, but: {}", messages.join(" | ")));
            }
        } else if messages.len() < offences.len() {
            return Verdict::Violation(format!(
                "{} offences ({}) but {} errors: {}",
                offences.len(),
                offences.join("; "),
                messages.len(),
                messages.join(" | ")
            ));
        }
        Verdict::Ok(set.values().any(|(s, _, _)| s.declarations.iter().any(|d| !d.fields.is_empty())))
    }
}

// Follow the chain of a cycle error, if the message has the usual form.
fn bad_chain(message: &str, set: &Set, edges: &HashMap<Key, HashSet<Key>>) -> Option<String> {
    let chain = message.split_once("Cycle detected: ")?.1.trim_end_matches('.');
    let names: Vec<&str> = chain.split(" \u{2192} ").map(|n| n.trim_matches('`')).collect();
    let mut keys: Vec<Key> = vec![];
    for n in &names {
        let mut found: Vec<Key> = vec![];
        for (ns, (s, _, _)) in set {
            for d in &s.declarations {
                let shown = format!("{}.{}", key(ns).join("."), d.name.pascal_case());
                if shown == *n {
                    found.push((key(ns), d.name.snake_case()));
                }
            }
        }
        if found.len() != 1 {
            return None;
        }
        keys.push(found[0].clone());
    }
    if keys.len() < 2 {
        return Some(format!("the chain {chain:?} is too short to be a cycle"));
    }
    for w in keys.windows(2) {
        if !edges[&w[0]].contains(&w[1]) {
            return Some(format!("the chain {chain:?} has a step which is no reference"));
        }
    }
    if !keys[..keys.len() - 1].contains(keys.last().unwrap()) {
        return Some(format!("the chain {chain:?} never comes back"));
    }
    None
}
