// C12, C16, C19: the program itself, run on scratch directories.

use super::{Prop, Rng, Verdict};
use crate::{generate_rust, generate_typescript, schema::Schema, schema_loader::load_schemas, validator::validate};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::atomic::{AtomicU64, Ordering},
    time::{Duration, SystemTime},
};

pub struct C12;
pub struct C16;
pub struct C19;

static COUNT: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let p = std::env::temp_dir().join(format!("hx-cli-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
    fs::create_dir_all(&p).unwrap();
    Scratch(p.canonicalize().unwrap())
}

// A case: `@` lines with settings, then files.
struct Case {
    settings: BTreeMap<String, String>,
    files: Vec<(String, String)>,
}

fn read(input: &str) -> Case {
    let mut c = Case { settings: BTreeMap::new(), files: vec![] };
    for line in input.split_inclusive('\n') {
        if let Some(p) = line.strip_prefix("=== ") {
            c.files.push((p.trim().to_owned(), String::new()));
        } else if let Some(l) = c.files.last_mut() {
            l.1.push_str(line);
        } else if let Some(s) = line.strip_prefix('@') {
            let (a, b) = s.trim().split_once('=').unwrap_or((s.trim(), ""));
            c.settings.insert(a.to_owned(), b.to_owned());
        }
    }
    c
}

fn old() -> SystemTime {
    SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000)
}

fn put(path: &Path, text: &str) {
    if let Some(p) = path.parent() {
        fs::create_dir_all(p).unwrap();
    }
    fs::write(path, text).unwrap();
    fs::File::options().write(true).open(path).unwrap().set_modified(old()).unwrap();
}

// Every file below a directory: contents, and whether it was written since `put`.
fn snapshot(root: &Path) -> BTreeMap<String, (Vec<u8>, bool)> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_owned()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p);
            } else {
                out.insert(
                    p.strip_prefix(root).unwrap().to_string_lossy().into_owned(),
                    (fs::read(&p).unwrap(), fs::metadata(&p).unwrap().modified().unwrap() != old()),
                );
            }
        }
    }
    out
}

struct Run {
    code: Option<i32>,
    out: String,
    err: String,
}

// With `full`, writing to files fails as on a full disk (but not to the standard streams).
fn run(cwd: &Path, args: &[String], full: bool) -> Run {
    let exe = std::env::current_exe().unwrap();
    let mut c = if full {
        let mut c = Command::new("/bin/bash");
        c.args(["-c", "trap '' XFSZ; ulimit -f 0; exec \"$0\" \"$@\""]).arg(exe);
        c
    } else {
        Command::new(exe)
    };
    let o = c
        .args(args)
        .current_dir(cwd)
        .env("HX_CLI", "1")
        .env("NO_COLOR", "1")
        .stdin(Stdio::null())
        .output()
        .unwrap();
    Run {
        code: o.status.code(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

// Something other than the messages on progress was printed.
fn complained(r: &Run) -> bool {
    r.err.lines().any(|l| !l.trim().is_empty() && !l.ends_with('\u{2026}') && !l.ends_with("loaded.") && !l.starts_with("  ") && l != "Done.")
}

const NAMES: &[&str] = &["a", "b", "c", "foo_bar", "x"];
const DIRS: &[&str] = &["", "", "x/", "x/y/", "z/"];

fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k + 1 < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    "../".repeat(f.len() - 1 - k) + &t[k..].join("/")
}

// A directory of schemas. `faults`: some of them are not valid.
fn schemas(rng: &mut Rng, faults: bool) -> String {
    let mut paths: Vec<String> = vec!["base/main.t".to_owned()];
    for _ in 0..rng.below(5) {
        let p = format!("base/{}{}.t", rng.pick(DIRS), rng.pick(NAMES));
        // A name for a file and for a directory would make two modules of one name.
        if !paths.contains(&p) && p != "base/x.t" {
            paths.push(p);
        }
    }
    let mut out = String::new();
    for (i, from) in paths.iter().enumerate() {
        out.push_str(&format!("=== {from}{}\n", if rng.chance(2, 5) { " !" } else { "" }));
        if rng.chance(1, 4) {
            out.push_str(&format!("{}a comment\n\n", if rng.chance(1, 2) { "# " } else { "#" }));
        }
        let mut imported: Vec<usize> = vec![];
        for (j, to) in paths.iter().enumerate() {
            if if i == 0 { rng.chance(4, 5) } else { rng.chance(1, 3) } {
                out.push_str(&format!("import{}'{}' as i{j}\n", rng.pick(&[" ", "  "]), relative(from, to)));
                imported.push(j);
            }
        }
        if faults && rng.chance(1, 14) {
            out.push_str("import 'missing.t'\n");
        }
        if faults && rng.chance(1, 20) {
            out.push_str("$\n");
        }
        for d in 0..1 + rng.below(3) {
            let kind = *rng.pick(&["struct", "choice"]);
            out.push_str(*rng.pick(&["", "\n", "# about it\n"]));
            out.push_str(&format!("{kind} {} {{\n", ["Foo", "BarBaz", "Q"][d]));
            for k in 0..rng.below(5) {
                let rule = *rng.pick(&["", "", "optional ", "asymmetric "]);
                let later: Vec<&usize> = imported.iter().filter(|j| **j > i).collect();
                let base = match rng.below(8) {
                    0 => ": U64".to_owned(),
                    1 => ": [String]".to_owned(),
                    2 => String::new(),
                    3 => ": Bytes".to_owned(),
                    4 if d > 0 => ": Foo".to_owned(),
                    5 | 6 if !later.is_empty() => format!(": {}i{}.Foo", rng.pick(&["", "[", "[["]), rng.pick(&later)),
                    _ => ": S64".to_owned(),
                };
                let base = format!("{base}{}", "]".repeat(base.matches('[').count() - base.matches(']').count()));
                let base = if faults && rng.chance(1, 60) { ": Nope".to_owned() } else { base };
                let index = if faults && rng.chance(1, 60) { k + 7 } else { k };
                out.push_str(&format!("{}{rule}f{k}{base} = {index}\n", rng.pick(&["    ", "  ", ""])));
            }
            out.push_str("}\n");
        }
        if rng.chance(1, 3) {
            out.push_str("\n");
        }
    }
    if rng.chance(1, 4) {
        out.push_str("=== base/unrelated.t\nstruct   Foo {}\n");
    }
    out
}

// Writes the files; `!` after a name asks for the formatted text.
fn lay(c: &Case, root: &Path) {
    for (p, text) in &c.files {
        let (p, tidy) = match p.strip_suffix(" !") {
            Some(p) => (p, true),
            None => (p.as_str(), false),
        };
        let text = match (tidy, tidied(text)) {
            (true, Some(t)) => t,
            _ => text.clone(),
        };
        put(&root.join(p), &text);
    }
}

fn tidied(text: &str) -> Option<String> {
    let tokens = crate::tokenizer::tokenize(Path::new("x.t"), text).ok()?;
    crate::parser::parse(Path::new("x.t"), text, &tokens).ok().map(|s| s.to_string())
}

type Loaded = BTreeMap<crate::schema::Namespace, (Schema, PathBuf, String)>;

fn spellings(c: &Case, root: &Path) -> (PathBuf, String) {
    match c.settings.get("cwd").map(String::as_str) {
        Some("base") => (root.join("base"), "main.t".to_owned()),
        Some("dot") => (root.join("base"), "./main.t".to_owned()),
        Some("up") => (root.join("base"), "../base/main.t".to_owned()),
        Some("abs") => (root.join("other"), root.join("base/main.t").to_string_lossy().into_owned()),
        _ => (root.to_owned(), "base/main.t".to_owned()),
    }
}

const CWDS: &[&str] = &["root", "base", "dot", "up", "abs"];

impl Prop for C12 {
    fn rule(&self) -> &'static str {
        "random directories of up to 6 schema files, some formatted, some not, one in three with faults, the program run from \
         several directories: format --check, format, format --check; compared with the formatted texts of the loaded \
         files; contents and modification times of all files watched; some runs with writes failing. Non-trivial: at \
         least one file to rewrite"
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        let faults = rng.chance(1, 3);
        Some(format!("@cwd={}\n{}{}", rng.pick(CWDS), if rng.chance(1, 10) { "@full\n" } else { "" }, schemas(rng, faults)))
    }
    fn check(&self, input: &str) -> Verdict {
        let c = read(input);
        let s = scratch();
        let root = &s.0;
        fs::create_dir_all(root.join("other")).unwrap();
        lay(&c, root);
        let loaded: Option<Loaded> = load_schemas(&root.join("base/main.t")).ok();
        // What is to be written where.
        let due: BTreeMap<String, Vec<u8>> = loaded
            .iter()
            .flatten()
            .map(|(_, (s, p, t))| (format!("base/{}", p.to_string_lossy()), s.to_string(), t))
            .filter(|(_, new, t)| new != *t)
            .map(|(p, new, _)| (p, new.into_bytes()))
            .collect();
        let before = snapshot(root);
        let (cwd, path) = spellings(&c, root);
        let check = ["format".to_owned(), path.clone(), "--check".to_owned()];
        let format = ["format".to_owned(), path.clone()];
        let fine = |r: &Run, want: bool, what: &str| -> Option<Verdict> {
            if (r.code == Some(0)) != want {
                return Some(Verdict::Violation(format!("{what} ended with {:?}, expected {}: {}", r.code, if want { "success" } else { "failure" }, r.err)));
            }
            if !want && !(r.code.is_some() && r.code != Some(101) && complained(r)) {
                return Some(Verdict::Violation(format!("{what} failed without an error: {:?} {}", r.code, r.err)));
            }
            None
        };
        let first = run(&cwd, &check, false);
        if let Some(v) = fine(&first, loaded.is_some() && due.is_empty(), "format --check") {
            return v;
        }
        if snapshot(root) != before {
            return Verdict::Violation("format --check wrote to a file".into());
        }
        if c.settings.contains_key("full") {
            let r = run(&cwd, &format, true);
            if let Some(v) = fine(&r, loaded.is_some() && due.is_empty(), "format with failing writes") {
                return v;
            }
            for (p, x) in snapshot(root) {
                if before.get(&p) != Some(&x) && !due.contains_key(&p) {
                    return Verdict::Violation(format!("format with failing writes touched {p}"));
                }
            }
            return Verdict::Ok(!due.is_empty());
        }
        let second = run(&cwd, &format, false);
        if let Some(v) = fine(&second, loaded.is_some(), "format") {
            return v;
        }
        let after = snapshot(root);
        if after.keys().ne(before.keys()) {
            return Verdict::Violation("format created or removed a file".into());
        }
        for (p, (text, written)) in &after {
            match due.get(p) {
                Some(new) if new != text => return Verdict::Violation(format!("{p} does not have its formatted text")),
                None if *written || before[p].0 != *text => return Verdict::Violation(format!("{p} was written without need")),
                _ => {}
            }
        }
        if loaded.is_some() {
            let third = run(&cwd, &check, false);
            if let Some(v) = fine(&third, true, "format --check after format") {
                return v;
            }
        }
        Verdict::Ok(!due.is_empty())
    }
}

const TARGETS: &[&str] = &[
    "out.txt", "old.txt", "new/dir/out.txt", "base/out.txt", "dir", "old.txt/out.txt", "new/x.txt", "./out2.txt", "",
];

impl Prop for C16 {
    fn rule(&self) -> &'static str {
        "random directories of schema files, half of them with faults; generate run with any combination of outputs, into \
         new, existing, impossible and coinciding places, and with failing writes; exit status, standard error and all \
         files compared with what loading, validation and the generators give. Non-trivial: an output was requested"
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        let faults = rng.chance(1, 2);
        let mut o = format!("@cwd={}\n", rng.pick(CWDS));
        if rng.chance(3, 4) {
            o.push_str(&format!("@rust={}\n", rng.pick(TARGETS)));
        }
        if rng.chance(3, 4) {
            o.push_str(&format!("@typescript={}\n", rng.pick(TARGETS)));
        }
        if rng.chance(1, 4) {
            o.push_str("@list\n");
        }
        if rng.chance(1, 10) {
            o.push_str("@full\n");
        }
        Some(o + &schemas(rng, faults))
    }
    fn check(&self, input: &str) -> Verdict {
        let c = read(input);
        let s = scratch();
        let root = &s.0;
        fs::create_dir_all(root.join("other")).unwrap();
        fs::create_dir_all(root.join("dir")).unwrap();
        put(&root.join("old.txt"), &"old\n".repeat(60_000));
        lay(&c, root);
        let full = c.settings.contains_key("full");
        let loaded: Option<Loaded> = load_schemas(&root.join("base/main.t")).ok().filter(|m| validate(m).is_ok());
        let before = snapshot(root);
        let (cwd, path) = spellings(&c, root);
        let mut args = vec!["generate".to_owned(), path];
        let mut want: BTreeMap<String, Option<String>> = BTreeMap::new(); // None: cannot be written
        let mut possible = true;
        for (k, flag) in [("rust", "--rust"), ("typescript", "--typescript")] {
            if let Some(t) = c.settings.get(k) {
                let at = if t.is_empty() { String::new() } else { root.join(t).to_string_lossy().into_owned() };
                args.extend([flag.to_owned(), at]);
                let t = t.trim_start_matches("./").to_owned();
                let ok = !full && t != "dir" && t != "old.txt/out.txt" && !t.is_empty();
                if possible {
                    if let Some(m) = &loaded {
                        let text = if k == "rust" {
                            generate_rust::generate(crate::VERSION, m)
                        } else {
                            generate_typescript::generate(crate::VERSION, m)
                        };
                        want.insert(t, ok.then_some(text));
                    }
                }
                possible = possible && ok;
            }
        }
        if c.settings.contains_key("list") {
            args.push("--list-schemas".to_owned());
        }
        let r = run(&cwd, &args, full);
        let good = loaded.is_some() && possible;
        if (r.code == Some(0)) != good {
            return Verdict::Violation(format!("generate ended with {:?}, expected {}: {}", r.code, if good { "success" } else { "failure" }, r.err));
        }
        if !good && !(r.code.is_some() && r.code != Some(101) && complained(&r)) {
            return Verdict::Violation(format!("generate failed without an error: {:?} {}", r.code, r.err));
        }
        let after = snapshot(root);
        for (p, (text, written)) in &after {
            match want.get(p) {
                Some(Some(t)) => {
                    if t.as_bytes() != text {
                        return Verdict::Violation(format!("{p} does not have the code requested"));
                    }
                }
                Some(None) => {}
                None => {
                    if *written || before.get(p).map(|x| &x.0) != Some(text) {
                        return Verdict::Violation(format!("{p} was written to{}", if loaded.is_none() { ", although the schema is not valid" } else { "" }));
                    }
                }
            }
        }
        for (p, t) in &want {
            if t.is_some() && !after.contains_key(p) {
                return Verdict::Violation(format!("{p} was not written"));
            }
        }
        if before.keys().any(|p| !after.contains_key(p)) {
            return Verdict::Violation("a file was removed".into());
        }
        Verdict::Ok(c.settings.contains_key("rust") || c.settings.contains_key("typescript"))
    }
}

impl Prop for C19 {
    fn rule(&self) -> &'static str {
        "random valid directories of schema files; generate run repeatedly, from other directories, with other spellings of the \
         path, on a copy written in another order, with the imports of every file in reverse order, with other \
         environments; all outputs compared byte for byte. Non-trivial: more than one file loaded"
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        Some(schemas(rng, false))
    }
    fn check(&self, input: &str) -> Verdict {
        let mut c = read(input);
        let s = scratch();
        let root = &s.0;
        fs::create_dir_all(root.join("other")).unwrap();
        lay(&c, root);
        let mut outputs: Vec<(String, Option<String>, Option<String>)> = vec![];
        let mut one = |what: &str, cwd: &Path, path: &str, both: bool| -> Option<String> {
            let k = COUNT.fetch_add(1, Ordering::SeqCst);
            let (a, b) = (root.join(format!("o{k}.rs")), root.join(format!("o{k}.ts")));
            let mut runs = vec![vec!["--rust".to_owned(), a.to_string_lossy().into_owned()], vec!["--typescript".to_owned(), b.to_string_lossy().into_owned()]];
            if both {
                let x = runs.pop().unwrap();
                runs[0].extend(x);
            }
            for extra in runs {
                let mut args = vec!["generate".to_owned(), path.to_owned()];
                args.extend(extra);
                let r = run(cwd, &args, false);
                if r.code != Some(0) {
                    return Some(format!("{what}: {:?} {}", r.code, r.err));
                }
            }
            outputs.push((what.to_owned(), fs::read_to_string(&a).ok(), fs::read_to_string(&b).ok()));
            None
        };
        let mut bad = one("first", root, "base/main.t", true);
        for cwd in CWDS {
            c.settings.insert("cwd".into(), (*cwd).to_owned());
            let (d, p) = spellings(&c, root);
            bad = bad.or_else(|| one(cwd, &d, &p, *cwd == "dot"));
        }
        // Another directory, written in another order.
        let moved = root.join("some/where/else");
        let mut d = read(input);
        d.files.reverse();
        lay(&d, &moved);
        bad = bad.or_else(|| one("copy", &moved.join("base"), "main.t", true));
        // Another order of discovery.
        let turned = root.join("turned");
        for f in &mut d.files {
            let (imports, rest): (Vec<&str>, Vec<&str>) = f.1.split_inclusive('\n').partition(|l| l.starts_with("import"));
            if let Some(k) = rest.iter().position(|l| l.contains(" {")) {
                let at = f.1.split_inclusive('\n').position(|l| l.starts_with("import")).unwrap_or(0).min(k);
                let mut lines = rest.clone();
                for i in imports {
                    lines.insert(at, i);
                }
                f.1 = lines.concat();
            }
        }
        lay(&d, &turned);
        bad = bad.or_else(|| one("imports reversed", root, "turned/base/main.t", true));
        if let Some(b) = bad {
            return Verdict::Violation(format!("generate fails: {b}"));
        }
        for o in &outputs[1..] {
            if o.1 != outputs[0].1 || o.2 != outputs[0].2 {
                return Verdict::Violation(format!("the output differs: {}", o.0));
            }
        }
        Verdict::Ok(c.files.len() > 1)
    }
}
