// C15: loading from a scratch directory.

use super::{gen, Prop, Rng, Verdict};
use crate::schema_loader::load_schemas;
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
    sync::atomic::{AtomicU64, Ordering},
};

pub struct C15;

static COUNT: AtomicU64 = AtomicU64::new(0);

fn split_files(input: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for line in input.split_inclusive('\n') {
        if let Some(p) = line.strip_prefix("=== ") {
            out.push((p.trim().to_owned(), String::new()));
        } else if let Some(l) = out.last_mut() {
            l.1.push_str(line);
        }
    }
    out
}

// Where a path leads from a directory, given which directories exist.
fn follow(dirs: &BTreeSet<String>, dir: &str, path: &str) -> Option<String> {
    let mut parts: Vec<&str> = dir.split('/').filter(|p| !p.is_empty()).collect();
    for p in path.split('/') {
        let here = parts.join("/");
        if !dirs.contains(&here) {
            return None;
        }
        match p {
            "" | "." => {}
            ".." => {
                parts.pop()?;
            }
            p => parts.push(p),
        }
    }
    Some(parts.join("/"))
}

fn namespace(path: &str) -> Vec<String> {
    let (dir, file) = path.rsplit_once('/').unwrap_or(("", path));
    let stem = match file.rfind('.') {
        Some(0) | None => file,
        Some(k) => &file[..k],
    };
    dir.split('/')
        .filter(|c| !c.is_empty())
        .chain([stem])
        .map(|c| crate::identifier::Identifier::from(c).snake_case())
        .collect()
}

// The files of the schema directory live below `base/`; everything else is outside. The expected
// result is a map from path to the targets of its imports, or `None` for a failure.
// If the main schema is a symbolic link to a file outside, importing it leads outside.
fn expected(all: &[(String, String)], link: Option<&str>) -> Option<BTreeMap<String, Vec<String>>> {
    // `a -> /b` in place of a name: `a` is a symbolic link to the file `b` below the scratch directory.
    let links: BTreeMap<String, String> = all
        .iter()
        .filter_map(|(p, _)| p.split_once(" -> /").map(|(a, b)| (a.to_owned(), b.to_owned())))
        .collect();
    let files: Vec<(String, String)> = all.iter().filter(|(p, _)| !p.contains(" -> /")).cloned().collect();
    let texts: BTreeMap<String, String> = files.iter().cloned().collect();
    let mut dirs: BTreeSet<String> = BTreeSet::from([String::new()]);
    for (p, _) in all {
        let mut d = p.split(" -> ").next().unwrap_or("");
        while let Some((up, _)) = d.rsplit_once('/') {
            dirs.insert(up.to_owned());
            d = up;
        }
    }
    let mut out = BTreeMap::new();
    let mut todo = vec![files.first()?.0.clone()];
    while let Some(path) = todo.pop() {
        if out.contains_key(&path) {
            continue;
        }
        let text = texts.get(&path)?;
        if text.contains("BAD") || text.contains("BYTES") {
            return None;
        }
        let dir = path.rsplit_once('/').map_or("", |x| x.0);
        let mut targets = vec![];
        for line in text.lines() {
            if let Some(r) = line.strip_prefix("import '") {
                let target = follow(&dirs, dir, r.split('\'').next()?)?;
                let target = links.get(&target).cloned().unwrap_or(target);
                if !target.starts_with("base/") {
                    return None;
                }
                if !texts.contains_key(&target) || (link.is_some() && target == files[0].0) {
                    return None;
                }
                targets.push(target.clone());
                todo.push(target);
            }
        }
        out.insert(path, targets);
    }
    let spaces: BTreeSet<Vec<String>> = out.keys().map(|p| namespace(&p[5..])).collect();
    (spaces.len() == out.len()).then_some(out)
}

const PATHS: &[&str] = &[
    "base/main.t", "base/a.t", "base/b.t", "base/x/a.t", "base/x/b.t", "base/x/y/c.t", "base/x.t",
    "base/A.t", "base/a.u", "base/fooBar.t", "base/foo_bar.t", "base/x/Main.t", "base/n.m.t", "out.t",
    "base/base/a.t", "base/2/x/a.t", "base2/x/a.t", "base.t", "basex/a.t",
];

fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k + 1 < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    "../".repeat(f.len() - 1 - k) + &t[k..].join("/")
}

impl Prop for C15 {
    fn rule(&self) -> &'static str {
        "random directory trees of up to 8 schema files with import chains, diamonds, cycles, \
         spellings with ./ and ../, files outside the base directory (also in directories whose name begins alike), symbolic links to files, \
         missing files, directories, files which are no text, malformed files, \
         main schemas which are symbolic links, and pairs of files with one namespace, loaded from a scratch directory; compared with an \
         independent closure computation. Non-trivial: at least one import"
    }
    fn shrinkable(&self) -> bool {
        false
    }
    fn gen(&self, rng: &mut Rng, _index: u64) -> Option<String> {
        let mut paths: Vec<&str> = PATHS[1..].to_vec();
        let clean = rng.chance(2, 3);
        if clean {
            paths.retain(|p| !["base/A.t", "base/a.u", "base/foo_bar.t"].contains(p) && p.starts_with("base/"));
        }
        let n = rng.below(7);
        while paths.len() > n {
            paths.remove(rng.below(paths.len()));
        }
        paths.insert(0, PATHS[0]);
        let mut out = String::new();
        let mut aims = paths.clone();
        let made = *rng.pick(&["base/l.t", "base/x/l.t", "l.t"]);
        let aim = *rng.pick(&paths);
        if rng.chance(1, 6) && aim != PATHS[0] && (!clean || made.starts_with("base/")) {
            out.push_str(&format!("{made} -> /{aim}\n"));
            aims.push(made);
        }
        if !clean && rng.chance(1, 8) {
            aims.push("base/x");
        }
        let links = std::mem::take(&mut out);
        let link = if links.is_empty() && rng.chance(1, 8) { *rng.pick(&[" -> main.t", " -> real/main.t"]) } else { "" };
        for (i, from) in paths.iter().enumerate() {
            out.push_str(&format!("=== {from}{}\n", if i == 0 { link } else { "" }));
            let k = rng.below(4);
            for j in 0..k {
                let to = if !clean && rng.chance(1, 12) { *rng.pick(PATHS) } else { *rng.pick(&aims) };
                let mut r = relative(from, to);
                if rng.chance(1, 6) {
                    r = format!("./{r}");
                }
                if rng.chance(1, 8) {
                    r = format!("x/../{r}");
                    if !paths.iter().any(|p| p.starts_with("base/x/")) && clean {
                        r = r[5..].to_owned();
                    }
                    if from.contains("x/") && clean {
                        r = r.trim_start_matches("x/../").to_owned();
                    }
                }
                out.push_str(&format!("import '{r}' as i{j}\n"));
            }
            if !clean && rng.chance(1, 12) {
                out.push_str("BAD\n");
            }
            if !clean && rng.chance(1, 20) {
                out.push_str("# BYTES\n");
            }
            out.push_str("struct Foo {}\n");
        }
        if !links.is_empty() {
            out.push_str(&format!("=== {links}"));
        }
        Some(out)
    }
    fn check(&self, input: &str) -> Verdict {
        let mut files = split_files(input);
        if files.is_empty() {
            return Verdict::Ok(false);
        }
        let mut link = None;
        if let Some((p, to)) = files[0].0.clone().split_once(" -> ").filter(|(_, to)| !to.starts_with('/')) {
            files[0].0 = p.to_owned();
            link = Some(to.to_owned());
        }
        let link = link.as_deref();
        let root = std::env::temp_dir().join(format!(
            "hx-load-{}-{}",
            std::process::id(),
            COUNT.fetch_add(1, Ordering::SeqCst)
        ));
        for (p, text) in &files {
            // `BYTES` stands for bytes which are no text.
            let bytes: Vec<u8> = match text.split_once("BYTES") {
                Some((a, b)) => [a.as_bytes(), b"\xff\xfe", b.as_bytes()].concat(),
                None => text.clone().into_bytes(),
            };
            if let Some((p, to)) = p.split_once(" -> /") {
                let p = root.join(p);
                fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(root.join(to), p).unwrap();
                continue;
            }
            let p = root.join(p);
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            if let (Some(to), true) = (link, p == root.join(&files[0].0)) {
                let real = root.join(to);
                fs::create_dir_all(real.parent().unwrap()).unwrap();
                fs::write(&real, &bytes).unwrap();
                std::os::unix::fs::symlink(&real, p).unwrap();
                continue;
            }
            fs::write(p, bytes).unwrap();
        }
        // The file is named the way a user names it, relative to some directory or not.
        let result = std::panic::catch_unwind(|| load_schemas(&root.join(&files[0].0)));
        let _ = fs::remove_dir_all(&root);
        let result = match result {
            Ok(r) => r,
            Err(e) => return Verdict::Violation(format!("panic: {}", super::panic_text(&*e))),
        };
        let want = expected(&files, link);
        match (result, want) {
            (Err(e), None) => {
                if e.is_empty() {
                    return Verdict::Violation("rejected without any error".into());
                }
            }
            (Err(e), Some(w)) => {
                return Verdict::Violation(format!(
                    "should load {:?}, but: {}",
                    w.keys().collect::<Vec<_>>(),
                    e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" | ")
                ));
            }
            (Ok(g), None) => {
                return Verdict::Violation(format!(
                    "should fail, but loaded {:?}",
                    g.values().map(|x| &x.1).collect::<Vec<_>>()
                ));
            }
            (Ok(g), Some(w)) => {
                let texts: BTreeMap<String, String> = files.iter().cloned().collect();
                let got: BTreeMap<String, (Vec<String>, String, Vec<Vec<String>>)> = g
                    .iter()
                    .map(|(n, (s, p, c))| {
                        (
                            format!("base/{}", p.to_string_lossy()),
                            (
                                n.components.iter().map(|c| c.snake_case()).collect(),
                                c.clone(),
                                s.imports
                                    .values()
                                    .map(|i| {
                                        i.namespace.as_ref().map_or(vec!["?".to_owned()], |n| {
                                            n.components.iter().map(|c| c.snake_case()).collect()
                                        })
                                    })
                                    .collect(),
                            ),
                        )
                    })
                    .collect();
                let should: BTreeMap<String, (Vec<String>, String, Vec<Vec<String>>)> = w
                    .iter()
                    .map(|(p, t)| {
                        (
                            p.clone(),
                            (
                                namespace(&p[5..]),
                                texts[p].clone(),
                                t.iter().map(|t| namespace(&t[5..])).collect(),
                            ),
                        )
                    })
                    .collect();
                if got != should || g.len() != should.len() {
                    return Verdict::Violation(format!("should load\n{should:?}\nbut loaded\n{got:?}"));
                }
            }
        }
        Verdict::Ok(input.contains("import"))
    }
}
