// C13: in the generated code every module is at its place and every reference resolves to the
// declaration it names. Input: one line per file, `NAMESPACE: INDICES OF THE FILES IT IMPORTS`.
// File number n declares `struct T<n>`, `choice U<n>`, both using the T and U of every imported file,
// and `struct T99`, used for fields `s<m>` where the T99 of file m is meant.

use super::{gen, Prop, Rng, Verdict};
use crate::{
    generate_rust, generate_typescript,
    parser::parse as parse_schema,
    schema::{Namespace, Schema},
    tokenizer::tokenize,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    fmt::Write,
    path::{Path, PathBuf},
};

pub struct Tree;

const WORDS: &[&str] = &["a", "b", "foo_bar", "type", "self", "crate", "x9", "string", "super", "c_d"];

struct File {
    ns: Vec<String>,
    imports: Vec<usize>,
}

fn read(input: &str) -> Option<Vec<File>> {
    let mut files: Vec<File> = vec![];
    for line in input.lines() {
        let (ns, imports) = line.split_once(':')?;
        let ns: Vec<String> = ns.split('.').map(|x| x.trim().to_owned()).collect();
        if ns.iter().any(|w| !WORDS.contains(&w.as_str())) || files.iter().any(|f| f.ns == ns) {
            return None;
        }
        let mut imports: Vec<usize> =
            imports.split_whitespace().map(|x| x.parse::<usize>().ok()).collect::<Option<_>>()?;
        imports.dedup();
        files.push(File { ns, imports });
    }
    let n = files.len();
    if n == 0 || files.iter().any(|f| f.imports.iter().any(|i| *i >= n)) {
        return None;
    }
    Some(files)
}

fn text(n: usize, f: &File) -> String {
    let mut imports: Vec<usize> = f.imports.clone();
    imports.sort_unstable();
    imports.dedup();
    let mut t = String::new();
    for i in &imports {
        let _ = writeln!(t, "import 'f{i}' as i{i}");
    }
    for (kind, name) in [("struct", format!("T{n}")), ("choice", format!("U{n}"))] {
        let _ = writeln!(t, "{kind} {name} {{");
        let mut k = 0;
        for target in imports.iter().map(|i| (format!("i{i}."), *i)).chain([(String::new(), n)]) {
            for letter in ["T", "U"] {
                if target.1 == n && target.0.is_empty() && letter == &name[..1] {
                    continue;
                }
                let ty = format!("{}{}{}", target.0, letter, target.1);
                let _ = writeln!(t, "  a{k}: {ty} = {k}");
                let _ = writeln!(t, "  asymmetric b{k}: [{ty}] = {}", k + 1);
                let _ = writeln!(t, "  optional c{k}: [[{ty}]] = {}", k + 2);
                k += 3;
            }
        }
        for (target, i) in imports.iter().map(|i| (format!("i{i}."), *i)).chain([(String::new(), n)]) {
            if target.is_empty() && imports.contains(&n) {
                continue;
            }
            let _ = writeln!(t, "  s{i}: {target}T99 = {k}");
            k += 1;
        }
        let _ = writeln!(t, "  last = {k}\n}}");
    }
    t.push_str("struct T99 {\n}\n");
    t
}

fn build(files: &[File]) -> Result<BTreeMap<Namespace, (Schema, PathBuf, String)>, String> {
    let mut out = BTreeMap::new();
    let ns = |f: &File| Namespace { components: f.ns.iter().map(|c| c.as_str().into()).collect() };
    for (n, f) in files.iter().enumerate() {
        let t = text(n, f);
        let p = PathBuf::from(format!("f{n}"));
        let tokens = tokenize(&p, &t).map_err(|_| "text not accepted".to_owned())?;
        let mut s = parse_schema(&p, &t, &tokens).map_err(|_| "text not accepted".to_owned())?;
        for i in s.imports.values_mut() {
            let k: usize = i.path.to_string_lossy()[1..].parse().map_err(|_| "import".to_owned())?;
            i.namespace = Some(ns(&files[k]));
        }
        out.insert(ns(f), (s, p, t));
    }
    Ok(out)
}

fn plain(s: &str) -> String {
    s.trim_start_matches("r#").trim_matches('_').replace('_', "").to_lowercase()
}

fn number(s: &str) -> Option<(usize, &str)> {
    let rest = s.strip_prefix('T').or_else(|| s.strip_prefix('U'))?;
    let digits = rest.len() - rest.trim_start_matches(|c: char| c.is_ascii_digit()).len();
    let n: usize = rest[..digits].parse().ok()?;
    let suffix = &rest[digits..];
    matches!(suffix, "" | "In" | "Out" | "Atlas").then_some((n, suffix))
}

// The modules of the text, by indentation, each line with the module it is in.
fn modules<'a>(text: &'a str, open: &str, step: usize) -> Result<Vec<(Vec<String>, &'a str)>, String> {
    let mut stack: Vec<String> = vec![];
    let mut out = vec![];
    for line in text.lines() {
        let depth = line.len() - line.trim_start_matches(' ').len();
        let rest = &line[depth..];
        if let Some(name) = rest.strip_prefix(open).and_then(|r| r.strip_suffix(" {")) {
            if depth == step * stack.len() {
                out.push((stack.clone(), line));
                stack.push(name.to_owned());
                continue;
            }
        }
        if rest == "}" && !stack.is_empty() && depth == step * (stack.len() - 1) {
            stack.pop();
            continue;
        }
        out.push((stack.clone(), line));
    }
    if stack.is_empty() { Ok(out) } else { Err(format!("module {stack:?} is not closed")) }
}

// In a line about the field `s<m>`: the T99 meant is the one of file m.
fn meant(files: &[File], line: &str, name: &str, here: &[String]) -> bool {
    if number(name).map(|x| x.0) != Some(99) {
        return true;
    }
    let fields: Vec<usize> = words(line, "")
        .iter()
        .filter_map(|w| w.strip_prefix('s').and_then(|d| d.parse::<usize>().ok()))
        .collect();
    let [m] = fields[..] else { return true };
    m >= files.len()
        || files[m].ns.iter().map(|c| plain(c)).collect::<Vec<_>>() == here.iter().map(|c| plain(c)).collect::<Vec<_>>()
}

fn words<'a>(line: &'a str, sep: &str) -> Vec<&'a str> {
    line.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#' || sep.contains(c)))
        .filter(|w| !w.is_empty())
        .collect()
}

fn rust(files: &[File], text: &str) -> Result<(), String> {
    let lines = modules(text, "pub mod ", 4)?;
    let mut spaces: HashSet<Vec<String>> = HashSet::from([vec![]]);
    let mut defs: HashMap<(Vec<String>, String), usize> = HashMap::new();
    for (m, line) in &lines {
        spaces.insert(m.clone());
        let w = words(line, "");
        if w.len() >= 3 && w[0] == "pub" && (w[1] == "struct" || w[1] == "enum" || w[1] == "type") && number(w[2]).is_some() {
            *defs.entry((m.clone(), w[2].to_owned())).or_default() += 1;
        }
    }
    place(files, &defs, &["Atlas", "Out", "In"])?;
    for (m, line) in &lines {
        if line.trim_start().starts_with("pub mod ") && line.ends_with('{') {
            continue;
        }
        for w in words(line, ":") {
            let segs: Vec<&str> = w.trim_matches(':').split("::").collect();
            let at = segs.iter().position(|s| number(s).is_some_and(|x| !x.1.is_empty()));
            if at.is_none() && segs[0] != "super" {
                continue;
            }
            let end = at.unwrap_or(segs.len() - 1);
            let mut here = m.clone();
            for s in &segs[..end] {
                if *s == "super" {
                    if here.pop().is_none() {
                        return Err(format!("Rust: `{w}` in module {m:?} goes above the root"));
                    }
                } else {
                    here.push((*s).to_owned());
                    if !spaces.contains(&here) {
                        return Err(format!("Rust: `{w}` in module {m:?} names the module {here:?}, which does not exist"));
                    }
                }
            }
            if at.is_some() {
                if !defs.contains_key(&(here.clone(), segs[end].to_owned())) {
                    return Err(format!("Rust: `{w}` in module {m:?} does not lead to a declaration"));
                }
                if !meant(files, line, segs[end], &here) {
                    return Err(format!("Rust: `{}` in module {m:?} leads to {here:?}", line.trim()));
                }
            } else if !here.is_empty() {
                return Err(format!("Rust: `{w}` in module {m:?} leads to module {here:?} instead of the root"));
            }
        }
    }
    Ok(())
}

// Every type of every file is declared exactly once, in the module of its file.
fn place(files: &[File], defs: &HashMap<(Vec<String>, String), usize>, suffixes: &[&str]) -> Result<(), String> {
    let mut expected = HashSet::new();
    for (n, f) in files.iter().enumerate() {
        for l in ["T", "U"] {
            for s in suffixes {
                expected.insert((f.ns.iter().map(|c| plain(c)).collect::<Vec<_>>(), format!("{l}{n}{s}")));
                expected.insert((f.ns.iter().map(|c| plain(c)).collect::<Vec<_>>(), format!("T99{s}")));
            }
        }
    }
    let mut got = HashSet::new();
    for ((m, d), k) in defs {
        let key = (m.iter().map(|c| plain(c)).collect::<Vec<_>>(), d.clone());
        if *k != 1 || !expected.contains(&key) || !got.insert(key) {
            return Err(format!("{d} is declared {k} time(s) in module {m:?}"));
        }
    }
    for e in &expected {
        if !got.contains(e) {
            return Err(format!("{} is not declared in module {:?}", e.1, e.0));
        }
    }
    Ok(())
}

// A known finding: the path of a reference starts with a name which an enclosing module also has.
fn shadowed(files: &[File]) -> bool {
    let mut spaces: HashSet<Vec<String>> = HashSet::new();
    for f in files {
        for k in 1..=f.ns.len() {
            spaces.insert(f.ns[..k].to_vec());
        }
    }
    files.iter().any(|f| {
        f.imports.iter().map(|i| &files[*i]).chain([f]).any(|t| {
            (1..=f.ns.len()).any(|k| {
                let mut p = f.ns[..k].to_vec();
                p.push(t.ns[0].clone());
                spaces.contains(&p)
            })
        })
    })
}

fn typescript(files: &[File], text: &str) -> Result<(), String> {
    let lines = modules(text, "export namespace ", 2)?;
    let mut spaces: HashSet<Vec<String>> = HashSet::from([vec![]]);
    let mut defs: HashMap<(Vec<String>, String), usize> = HashMap::new();
    for (m, line) in &lines {
        spaces.insert(m.clone());
        let t = line.trim_start();
        if let Some(r) = t.strip_prefix("export type ") {
            let name = words(r, "")[0];
            if number(name).is_some() {
                *defs.entry((m.clone(), name.to_owned())).or_default() += 1;
            }
        }
        if let Some(r) = t.strip_prefix("export namespace ").and_then(|r| r.strip_suffix(" {")) {
            if number(r).is_some() {
                *defs.entry((m.clone(), r.to_owned())).or_default() += 1;
            }
        }
    }
    place(files, &defs, &["Atlas", "Out", "In", ""])?;
    for (m, line) in &lines {
        let t = line.trim_start();
        if t.starts_with("export namespace ") {
            continue;
        }
        for w in words(line, ".") {
            let segs: Vec<&str> = w.trim_matches('.').split('.').collect();
            let Some(end) = segs.iter().position(|s| number(s).is_some()) else { continue };
            // The scope, from the inside, which has the first name.
            let mut here = m.clone();
            loop {
                let mut inner = here.clone();
                inner.push(segs[0].to_owned());
                if if end == 0 { defs.contains_key(&(here.clone(), segs[0].to_owned())) } else { spaces.contains(&inner) } {
                    break;
                }
                if here.pop().is_none() {
                    return Err(format!("TypeScript: `{w}` in namespace {m:?}: nothing is named {}", segs[0]));
                }
            }
            for s in &segs[..end] {
                here.push((*s).to_owned());
            }
            if !defs.contains_key(&(here.clone(), segs[end].to_owned())) {
                return Err(format!("TypeScript: `{w}` in namespace {m:?} does not lead to a declaration"));
            }
            if !meant(files, line, segs[end], &here) {
                return Err(format!("TypeScript: `{}` in namespace {m:?} leads to {here:?}", line.trim()));
            }
        }
    }
    Ok(())
}

impl Prop for Tree {
    fn rule(&self) -> &'static str {
        "up to 7 files at random places of a directory tree of depth up to 4, importing each other at random; \
         the generated Rust and TypeScript are read back: every type is declared once in the module of its file and \
         every path to a type leads to its declaration. Non-trivial: at least one import"
    }
    fn shrinkable(&self) -> bool {
        true
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        let n = 1 + rng.below(7);
        let mut all: Vec<Vec<&str>> = vec![];
        let vocabulary: Vec<&str> = (0..2 + rng.below(4)).map(|_| *rng.pick(WORDS)).collect();
        for _ in 0..n {
            let mut ns: Vec<&str> = if !all.is_empty() && rng.chance(2, 3) {
                let base = rng.pick(&all[..]).clone();
                let keep = rng.below(base.len() + 1);
                base[..keep].to_vec()
            } else {
                vec![]
            };
            for _ in 0..1 + rng.below(3) {
                ns.push(*rng.pick(&vocabulary[..]));
            }
            ns.truncate(4);
            if !all.contains(&ns) {
                all.push(ns);
            }
        }
        let n = all.len();
        let mut out = String::new();
        for ns in &all {
            let _ = write!(out, "{}:", ns.join("."));
            for i in 0..n {
                if rng.chance(1, 3) {
                    let _ = write!(out, " {i}");
                }
            }
            out.push('\n');
        }
        Some(out)
    }
    fn check(&self, input: &str) -> Verdict {
        let Some(files) = read(input) else { return Verdict::Ok(false) };
        let schemas = match build(&files) {
            Ok(s) => s,
            Err(_) => return Verdict::Ok(false),
        };
        if let Err(m) = rust(&files, &generate_rust::generate("1", &schemas)) {
            return Verdict::Violation(m);
        }
        if !shadowed(&files) || std::env::var("HX_STRICT").is_ok() {
            if let Err(m) = typescript(&files, &generate_typescript::generate("1", &schemas)) {
                return Verdict::Violation(m);
            }
        }
        Verdict::Ok(files.iter().any(|f| !f.imports.is_empty()))
    }
}
