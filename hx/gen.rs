// Generators of schema text. They use nothing of the code under test.

use super::Rng;

pub const KEYWORDS: &[&str] = &[
    "as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64",
    "String", "struct", "U64", "Unit", "bool", "string", "u64", "unit",
];

pub const TYPE_WORDS: &[&str] = &["Bool", "Bytes", "F64", "S64", "String", "U64", "Unit"];

const WORDS: &[&str] = &[
    "foo", "bar", "baz", "qux", "a", "b", "c", "x", "email", "body", "user", "id", "to", "élan",
    "ñu", "ßz", "straße", "δx", "v2", "n1", "日本",
];

pub const LATIN: &[&str] = &["foo", "bar", "baz", "qux", "a", "b", "c", "x", "email", "v2"];

pub fn cap(w: &str) -> String {
    let mut cs = w.chars();
    match cs.next() {
        None => String::new(),
        Some(c) => c.to_uppercase().collect::<String>() + cs.as_str(),
    }
}

// An identifier as it may be spelled in a schema, possibly with the sigil.
pub fn ident(rng: &mut Rng, upper: bool) -> String {
    if rng.chance(1, 14) {
        let k = *rng.pick(KEYWORDS);
        return format!("${k}");
    }
    if rng.chance(1, 20) {
        return (*rng.pick(&["As", "Struct", "Choice", "Import", "Deleted", "STRUCT", "U64_", "bool_", "AsIs"]))
            .to_owned();
    }
    let long = rng.chance(1, 3);
    let n = 1 + rng.below(if long { 3 } else { 1 });
    let pool = if rng.chance(1, 3) { WORDS } else { LATIN };
    let style = rng.below(5);
    let mut s = String::new();
    for i in 0..n {
        let w = *rng.pick(pool);
        match style {
            0 | 1 => {
                if upper || i > 0 {
                    s.push_str(&cap(w));
                } else {
                    s.push_str(w);
                }
            }
            2 => {
                if i > 0 {
                    s.push('_');
                }
                s.push_str(w);
            }
            3 => {
                if i > 0 {
                    s.push('_');
                }
                s.push_str(&cap(w));
            }
            _ => {
                s.push_str(&cap(w));
                if rng.chance(1, 6) {
                    s.push('_');
                }
            }
        }
    }
    if rng.chance(1, 12) {
        s.push_str(*rng.pick(&["1", "_2", "2b", "__x", "_", "٣"]));
    }
    if rng.chance(1, 40) {
        s.insert(0, '$');
    }
    s
}

pub fn word(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => "x".repeat(1 + rng.below(120)),
        1 => "foo-bar-baz".to_owned(),
        2 => "naïve—dash/slash".to_owned(),
        3 => "日本語テキスト".to_owned(),
        4 => "a\u{301}b".to_owned(),
        5 => "#".to_owned(),
        6 => "'quoted'".to_owned(),
        7 => "https://example.com/a-b/c?d=e".to_owned(),
        _ => (*rng.pick(WORDS)).to_owned(),
    }
}

// A comment: one or more lines, each starting with `#` and ending in a line feed.
pub fn comment(rng: &mut Rng) -> String {
    let mut s = String::new();
    for i in 0..(1 + rng.below(3)) {
        if i > 0 {
            s.push_str(*rng.pick(&["", "", " ", "    ", "\t", "\r"]));
        }
        s.push('#');
        if rng.chance(4, 5) {
            s.push_str(*rng.pick(&[" ", " ", "", "  "]));
            let n = if rng.chance(1, 4) { 10 + rng.below(30) } else { 1 + rng.below(5) };
            for k in 0..n {
                if k > 0 {
                    s.push_str(*rng.pick(&[" ", " ", " ", " ", "  ", "\t", "\u{a0}", "\u{2003}"]));
                }
                s.push_str(&word(rng));
            }
            s.push_str(*rng.pick(&["", "", " ", "\r"]));
        }
        s.push('\n');
    }
    s
}

pub struct Names {
    pub types: Vec<String>,
    pub imports: Vec<String>,
}

pub fn ty(rng: &mut Rng, names: &Names, out: &mut Vec<String>, depth: usize) {
    if depth > 0 && rng.chance(1, 4) {
        out.push("[".into());
        ty(rng, names, out, depth - 1);
        out.push("]".into());
    } else if rng.chance(1, 2) {
        out.push((*rng.pick(&["bool", "bytes", "f64", "s64", "string", "u64", "unit"])).into());
        fix_case(out);
    } else {
        if !names.imports.is_empty() && rng.chance(1, 3) {
            out.push(rng.pick(&names.imports).clone());
            out.push(".".into());
        }
        if names.types.is_empty() || rng.chance(1, 5) {
            out.push(ident(rng, true));
        } else {
            out.push(rng.pick(&names.types).clone());
        }
    }
}

// The keywords of primitive types are spelled with a capital letter.
fn fix_case(out: &mut [String]) {
    if let Some(l) = out.last_mut() {
        *l = cap(l);
    }
}

pub fn index(rng: &mut Rng, i: usize) -> String {
    match rng.below(30) {
        0 => "4611686018427387903".into(),
        1 => "4611686018427387904".into(),
        2 => "18446744073709551615".into(),
        3 => "18446744073709551616".into(),
        4 => "007".into(),
        5 => "99999999999999999999999".into(),
        _ => i.to_string(),
    }
}

// Tokens of a mostly acceptable schema.
pub fn schema_tokens(rng: &mut Rng) -> Vec<String> {
    let mut t = vec![];
    if rng.chance(1, 4) {
        t.push(comment(rng));
        if rng.chance(1, 2) {
            t.push("\n".into());
        }
    }
    let mut names = Names { types: vec![], imports: vec![] };
    for _ in 0..rng.below(4) {
        if rng.chance(1, 2) {
            break;
        }
        t.push("import".into());
        t.push(
            (*rng.pick(&[
                "'foo.t'", "'bar.t'", "'foo/bar.t'", "'../a.t'", "'FooBar.t'", "'foo_bar.t'", "'..'",
                "''", "'a b.t'", "'élan.t'", "'struct.t'", "'x/y/Z.tt'", "'noext'", "'#.t'",
            ]))
            .into(),
        );
        if rng.chance(1, 2) {
            t.push("as".into());
            let n = ident(rng, false);
            names.imports.push(n.clone());
            t.push(n);
        }
    }
    let n = rng.below(4);
    for _ in 0..n {
        names.types.push(ident(rng, true));
    }
    for k in 0..n {
        if rng.chance(1, 3) {
            t.push(comment(rng));
        }
        t.push((*rng.pick(&["struct", "choice"])).into());
        t.push(names.types[k].clone());
        t.push("{".into());
        let f = rng.below(5);
        for i in 0..f {
            if rng.chance(1, 4) {
                t.push(comment(rng));
            }
            if rng.chance(1, 2) {
                t.push((*rng.pick(&["optional", "asymmetric"])).into());
            }
            t.push(ident(rng, false));
            if rng.chance(4, 5) {
                t.push(":".into());
                ty(rng, &names, &mut t, 3);
            }
            t.push("=".into());
            let x = index(rng, i);
            t.push(x);
        }
        if rng.chance(1, 3) {
            t.push("deleted".into());
            for i in 0..rng.below(4) {
                let x = index(rng, f + i);
                t.push(x);
            }
        }
        t.push("}".into());
    }
    t
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

pub fn render(rng: &mut Rng, tokens: &[String]) -> String {
    let mut s = String::new();
    for t in tokens {
        let need = match (s.chars().last(), t.chars().next()) {
            (Some(a), Some(b)) => wordy(a) && wordy(b),
            _ => false,
        };
        let sep = if need || rng.chance(2, 3) {
            *rng.pick(&[" ", " ", " ", "\n", "\n", "\n    ", "\t", "\n\n", "\r\n", "\u{a0}", "  \n"])
        } else {
            ""
        };
        s.push_str(sep);
        s.push_str(t);
    }
    s.push_str(*rng.pick(&["\n", "", " ", "\n\n", "\n\n#", "\n\n# end", "\r\n"]));
    s
}

pub fn mutate_tokens(rng: &mut Rng, t: &mut Vec<String>) {
    const EXTRA: &[&str] = &[
        ":", ".", "=", "{", "}", "[", "]", "struct", "choice", "import", "as", "deleted",
        "optional", "asymmetric", "U64", "Bool", "Unit", "foo", "Foo", "0", "1", "'p.t'", "# c\n",
        "u64", "unit", "string",
    ];
    for _ in 0..(1 + rng.below(3)) {
        let n = t.len();
        match rng.below(5) {
            0 if n > 0 => {
                t.remove(rng.below(n));
            }
            1 => {
                t.insert(rng.below(n + 1), (*rng.pick(EXTRA)).into());
            }
            2 if n > 1 => {
                let i = rng.below(n - 1);
                t.swap(i, i + 1);
            }
            3 if n > 0 => {
                let i = rng.below(n);
                t[i] = (*rng.pick(EXTRA)).into();
            }
            4 if n > 0 => {
                t.truncate(rng.below(n + 1));
            }
            _ => {}
        }
    }
}

pub const CHARS: &[&str] = &[
    ":", ".", "=", "{", "}", "[", "]", "'", "#", "$", "_", "a", "Z", "é", "日", "0", "9", " ", "\n",
    "\r", "\t", "\u{a0}", "\u{2028}", "\u{301}", "٣", "½", "Ⅰ", "ª", "!", "/", "\\", "\"", "-", "😀",
    "👨‍👩‍👧", "\u{0}", "\u{feff}", "\u{85}", "İ", "as", "u64", "\n#", "# ", "\n\n",
];

pub fn mutate_text(rng: &mut Rng, s: &str) -> String {
    let mut cs: Vec<String> = s.chars().map(|c| c.to_string()).collect();
    for _ in 0..(1 + rng.below(4)) {
        let n = cs.len();
        match rng.below(4) {
            0 if n > 0 => {
                cs.remove(rng.below(n));
            }
            1 => cs.insert(rng.below(n + 1), (*rng.pick(CHARS)).into()),
            2 if n > 0 => {
                let i = rng.below(n);
                cs[i] = (*rng.pick(CHARS)).into();
            }
            3 if n > 0 => cs.truncate(rng.below(n + 1)),
            _ => {}
        }
    }
    cs.concat()
}

pub fn char_soup(rng: &mut Rng) -> String {
    (0..rng.below(24)).map(|_| *rng.pick(CHARS)).collect()
}

// The `index`-th string over `alphabet`, in order of length; `None` past length `max`.
pub fn enumerated(alphabet: &[&str], max: u32, mut index: u64) -> Option<String> {
    let k = alphabet.len() as u64;
    for len in 0..=max {
        let n = k.pow(len);
        if index < n {
            let mut s = Vec::new();
            for _ in 0..len {
                s.push(alphabet[(index % k) as usize]);
                index /= k;
            }
            return Some(s.concat());
        }
        index -= n;
    }
    None
}

pub fn enumeration_size(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

pub fn any_text(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 => char_soup(rng),
        1 | 2 => {
            let mut t = schema_tokens(rng);
            mutate_tokens(rng, &mut t);
            render(rng, &t)
        }
        3 | 4 => {
            let t = schema_tokens(rng);
            let s = render(rng, &t);
            mutate_text(rng, &s)
        }
        _ => {
            let t = schema_tokens(rng);
            render(rng, &t)
        }
    }
}
