@# main.rs (C12, C16)
@@ include common.vspec
@@ include text.vspec
@@ fmt drop
@@ methods
    parent/0 ==> crate::fsys::parent($R)
    join/1 ==> crate::fsys::join(&$R, &$1)
    to_string/0 ==> crate::world::printed(&$R)
    trim_end/0 ==> (*($R).trim_end_())
    trim_start/0 ==> (*($R).trim_start_())
    trim/0 ==> (*($R).trim_())
    map/1 ==> crate::world::opt_path($R, $1)
@@ binops
    == \w+_SUBCOMMAND ==> crate::world::str_is($L, $R)
    != .*contents.* ==> !crate::world::string_is(&$L, &$R)
    == .*contents.* ==> crate::world::string_is(&$L, &$R)
@@ module identifier src/identifier.rs
use vstd::prelude::*;
@@ raw
#[verifier::external_body]
pub struct Identifier { p: u8 }
@@ endmodule
@@ include names.vspec
@@ module schema src/schema.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::identifier::Identifier;
@@ raw
#[verifier::external_body]
pub struct Schema { p: u8 }
@@ take Namespace
@@ endmodule
@@ include fsys.vspec
@@ raw
pub mod world {
use vstd::prelude::*;
use crate::shim::*;
use crate::text::StrShim;
use crate::fsys::*;
use crate::schema::{Namespace, Schema};
pub type Entry = (Schema, PathBuf, String);
pub type Loaded = (Namespace, Entry);
pub type Schemas = Map<Seq<Seq<char>>, Loaded>;
pub type Files = Map<PathBuf, Seq<char>>;
#[verifier::external_body]
pub struct Error { p: u8 }
// ---- what the program can change: the files. `failed`: some access to the file system failed ------------
#[verifier::external_body]
pub struct World { p: u8 }
impl World {
    pub uninterp spec fn files(&self) -> Files;
    pub uninterp spec fn failed(&self) -> bool;
}
// at the path `q` nothing changed
pub open spec fn same_at(f: Files, g: Files, q: PathBuf) -> bool { f.contains_key(q) == g.contains_key(q) && (f.contains_key(q) ==> f[q] == g[q]) }
// std::fs::write: the file has the contents, or the write failed and no other file was touched
#[verifier::external_body]
pub fn write<P: PathLike>(w: &mut World, p: P, contents: String) -> (r: Result<(), Reason>)
    ensures r is Ok ==> final(w).files() == old(w).files().insert(p.pv(), contents@) && final(w).failed() == old(w).failed(),
        r is Err ==> final(w).failed(),
        r is Err ==> forall|q: PathBuf| q != p.pv() ==> #[trigger] final(w).files().contains_key(q) == old(w).files().contains_key(q),
        r is Err ==> forall|q: PathBuf| q != p.pv() && final(w).files().contains_key(q) ==> #[trigger] final(w).files()[q] == old(w).files()[q],
{ unimplemented!() }
#[verifier::external_body]
pub fn create_dir_all<P: PathLike>(w: &mut World, p: P) -> (r: Result<(), Reason>)
    ensures final(w).files() == old(w).files(), r is Ok ==> final(w).failed() == old(w).failed(), r is Err ==> final(w).failed()
{ unimplemented!() }
// ---- the stages (functions of their inputs; their own contracts: C06-C10, C13, C15) -----------------------
pub uninterp spec fn loading(f: Files, p: PathBuf) -> Option<Schemas>;
#[verifier::external_body]
pub fn load_schemas(w: &World, p: &Path) -> (r: Result<NsMap<Entry>, Vec<Error>>)
    ensures r is Ok == loading(w.files(), *p).is_some(), r matches Ok(m) ==> m@ == loading(w.files(), *p).unwrap() && filed(m@) && parent_of(*p).is_some()
{ unimplemented!() }
// each file is loaded once (C15)
pub open spec fn filed(m: Schemas) -> bool {
    &&& forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) ==> clean(m[k].1.1)
    &&& forall|k: Seq<Seq<char>>, l: Seq<Seq<char>>| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(l) && k != l ==> m[k].1.1 != m[l].1.1
}
// different clean paths lead from a directory to different places
pub axiom fn axiom_joined(b: PathBuf, p: PathBuf, q: PathBuf) requires clean(p), clean(q), joined(b, p) == joined(b, q) ensures p == q;
pub uninterp spec fn valid(m: Schemas) -> bool;
#[verifier::external_body]
pub fn validate(m: &NsMap<Entry>) -> (r: Result<(), Vec<Error>>) ensures r is Ok == valid(m@) { unimplemented!() }
#[verifier::external_body]
pub fn merge_errors(e: &Vec<Error>) -> (r: Error) { unimplemented!() }
#[verifier::external_body]
pub fn throw<M: StrShim + ?Sized, E>(message: &M, path: Option<&Path>, listing: Option<&String>, reason: Option<E>) -> (r: Error) { unimplemented!() }
pub uninterp spec fn rust_code(version: Seq<char>, m: Schemas) -> Seq<char>;
pub uninterp spec fn typescript_code(version: Seq<char>, m: Schemas) -> Seq<char>;
pub uninterp spec fn version() -> Seq<char>;
#[verifier::external_body]
pub fn this_version() -> (r: &'static str) ensures r@ == version() { unimplemented!() }
#[verifier::external_body]
pub fn generate_rust(version: &str, m: &NsMap<Entry>) -> (r: String) ensures r@ == rust_code(version@, m@) { unimplemented!() }
#[verifier::external_body]
pub fn generate_typescript(version: &str, m: &NsMap<Entry>) -> (r: String) ensures r@ == typescript_code(version@, m@) { unimplemented!() }
// the formatted text of a schema (C11)
pub uninterp spec fn formatted(s: Schema) -> Seq<char>;
pub trait Printed { spec fn text(&self) -> Seq<char>; }
impl Printed for Schema { open spec fn text(&self) -> Seq<char> { formatted(*self) } }
impl<'a, T: Printed> Printed for &'a T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
#[verifier::external_body]
pub fn printed<T: Printed>(x: &T) -> (r: String) ensures r@ == x.text() { unimplemented!() }
#[verifier::external_body]
pub fn str_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
#[verifier::external_body]
pub fn string_is<T: StrShim + ?Sized, U: StrShim + ?Sized>(s: &T, t: &U) -> (r: bool) ensures r == (s.sv() == t.sv()) { unimplemented!() }
// the entries of a map, each once
pub uninterp spec fn listing_order(m: Schemas) -> Seq<Seq<Seq<char>>>;
pub open spec fn orders(o: Seq<Seq<Seq<char>>>, m: Schemas) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> m.contains_key(#[trigger] o[i])
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> #[trigger] o[i] != #[trigger] o[j]
    &&& forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == k
}
impl NsMap<Entry> {
    #[verifier::external_body]
    pub fn values_(&self) -> (r: Vec<&Entry>)
        ensures orders(listing_order(self@), self@), r@.len() == listing_order(self@).len(),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[listing_order(self@)[i]].1
    { unimplemented!() }
}
// ---- the command line (clap) -----------------------------------------------------------------------------
pub uninterp spec fn command() -> Seq<char>;                       // the subcommand
pub uninterp spec fn value(name: Seq<char>) -> Option<Seq<char>>;  // the value of an option or argument of it
pub uninterp spec fn flag(name: Seq<char>) -> bool;
pub uninterp spec fn as_path(s: Seq<char>) -> PathBuf;
#[verifier::external_body]
pub fn path_of(s: &str) -> (r: &'static PathBuf) ensures *r == as_path(s@) { unimplemented!() }
pub struct ToPath;
#[verifier::external_body]
pub fn opt_path(s: Option<&str>, f: ToPath) -> (r: Option<&'static PathBuf>) ensures r.is_some() == s.is_some(), r.is_some() ==> *r.unwrap() == as_path(s.unwrap()@) { unimplemented!() }
#[verifier::external_body]
pub struct Matches { p: u8 }
#[verifier::external_body]
pub struct SubMatches { p: u8 }
// what `cli` declares: one of three subcommands is given, and each has its required argument
pub open spec fn promised() -> bool {
    &&& command() == "generate"@ || command() == "format"@ || command() == "shell-completion"@
    &&& command() == "generate"@ ==> value("generate-path"@).is_some()
    &&& command() == "format"@ ==> value("format-path"@).is_some()
    &&& command() == "shell-completion"@ ==> value("shell-completion-shell"@).is_some()
}
#[verifier::external_body]
pub fn matches() -> (r: Matches) ensures promised() { unimplemented!() }
impl Matches {
    #[verifier::external_body]
    pub fn subcommand_name(&self) -> (r: Option<&str>) ensures r.is_some(), r.unwrap()@ == command() { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommand_matches(&self, name: &str) -> (r: Option<&SubMatches>) ensures r.is_some() == (name@ == command()) { unimplemented!() }
}
impl SubMatches {
    #[verifier::external_body]
    pub fn value_of(&self, name: &str) -> (r: Option<&str>) ensures r.is_some() == value(name@).is_some(), r matches Some(s) ==> s@ == value(name@).unwrap() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_present(&self, name: &str) -> (r: bool) ensures r == flag(name@) { unimplemented!() }
}
// ---- generate ----------------------------------------------------------------------------------------------
pub open spec fn opt(p: Option<&PathBuf>) -> Option<PathBuf> { match p { Some(x) => Some(*x), None => None } }
// everything requested was written, and nothing else
pub open spec fn emitted(f: Files, m: Schemas, rust: Option<PathBuf>, typescript: Option<PathBuf>) -> Files {
    let g = match rust { Some(p) => f.insert(p, rust_code(version(), m)), None => f };
    match typescript { Some(p) => g.insert(p, typescript_code(version(), m)), None => g }
}
pub open spec fn sound(f: Files, path: PathBuf) -> bool { loading(f, path).is_some() && valid(loading(f, path).unwrap()) }
pub open spec fn generated(w: World, v: World, path: PathBuf, rust: Option<PathBuf>, typescript: Option<PathBuf>, ok: bool) -> bool {
    &&& ok ==> sound(w.files(), path) && v.files() == emitted(w.files(), loading(w.files(), path).unwrap(), rust, typescript)
    &&& !ok ==> !sound(w.files(), path) || v.failed()
    &&& !sound(w.files(), path) ==> v.files() == w.files()
    &&& forall|q: PathBuf| rust != Some(q) && typescript != Some(q) ==> #[trigger] same_at(w.files(), v.files(), q)
}
// ---- format ------------------------------------------------------------------------------------------------
pub open spec fn differs(e: Loaded) -> bool { e.1.2@ != formatted(e.1.0) }
pub open spec fn place(path: PathBuf, e: Loaded) -> PathBuf { joined(parent_of(path).unwrap(), e.1.1) }
// some loaded file which differs from its formatted text is at `q`
pub open spec fn due(path: PathBuf, m: Schemas, q: PathBuf) -> bool { exists|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) && differs(m[k]) && place(path, m[k]) == q }
pub open spec fn none_differs(m: Schemas) -> bool { forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) ==> !differs(m[k]) }
pub open spec fn all_written(f: Files, path: PathBuf, m: Schemas) -> bool {
    forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) && differs(m[k]) ==> f.contains_key(place(path, m[k])) && f[place(path, m[k])] == formatted(m[k].1.0)
}
pub open spec fn reformatted(w: World, v: World, path: PathBuf, check: bool, ok: bool) -> bool {
    let m = loading(w.files(), path).unwrap();
    &&& ok ==> loading(w.files(), path).is_some()
    &&& ok && check ==> none_differs(m)
    &&& ok && !check ==> all_written(v.files(), path, m)
    &&& !ok ==> loading(w.files(), path).is_none() || v.failed() || (check && !none_differs(m))
    &&& check || loading(w.files(), path).is_none() ==> v.files() == w.files()
    &&& forall|q: PathBuf| !(loading(w.files(), path).is_some() && due(path, m, q)) ==> #[trigger] same_at(w.files(), v.files(), q)
}
// what the loop over the first n entries has done
pub open spec fn written_upto(f: Files, g: Files, path: PathBuf, m: Schemas, n: int, check: bool) -> bool {
    let o = listing_order(m);
    &&& check ==> g == f
    &&& !check ==> forall|i: int| 0 <= i < n && differs(m[#[trigger] o[i]]) ==> g.contains_key(place(path, m[o[i]])) && g[place(path, m[o[i]])] == formatted(m[o[i]].1.0)
    &&& forall|q: PathBuf| !due(path, m, q) ==> #[trigger] g.contains_key(q) == f.contains_key(q)
    &&& forall|q: PathBuf| !due(path, m, q) && g.contains_key(q) ==> #[trigger] g[q] == f[q]
}
pub open spec fn some_differ(m: Schemas, n: int) -> bool { exists|i: int| 0 <= i < n && differs(m[#[trigger] listing_order(m)[i]]) }
pub proof fn lemma_rewrite(f: Files, g: Files, h: Files, path: PathBuf, m: Schemas, n: int)
    requires orders(listing_order(m), m), filed(m), 0 <= n < listing_order(m).len(), written_upto(f, g, path, m, n, false), differs(m[listing_order(m)[n]]),
        h == g.insert(place(path, m[listing_order(m)[n]]), formatted(m[listing_order(m)[n]].1.0))
    ensures written_upto(f, h, path, m, n + 1, false)
{
    let o = listing_order(m);
    assert(m.contains_key(o[n]));
    assert forall|i: int| 0 <= i < n + 1 && differs(m[#[trigger] o[i]]) implies h.contains_key(place(path, m[o[i]])) && h[place(path, m[o[i]])] == formatted(m[o[i]].1.0) by {
        if i < n && place(path, m[o[i]]) == place(path, m[o[n]]) {
            assert(m.contains_key(o[i]));
            axiom_joined(parent_of(path).unwrap(), m[o[i]].1.1, m[o[n]].1.1);
            assert(false);
        }
    }
    assert(due(path, m, place(path, m[o[n]])));
}
pub proof fn lemma_all(f: Files, g: Files, path: PathBuf, m: Schemas, check: bool)
    requires orders(listing_order(m), m), written_upto(f, g, path, m, listing_order(m).len() as int, check)
    ensures !check ==> all_written(g, path, m), none_differs(m) == !some_differ(m, listing_order(m).len() as int)
{
    let o = listing_order(m);
    assert forall|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) && differs(m[k]) && !check implies g.contains_key(place(path, m[k])) && g[place(path, m[k])] == formatted(m[k].1.0) by {
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == k;
        assert(differs(m[o[i]]));
    }
    if none_differs(m) { if some_differ(m, o.len() as int) { let i = choose|i: int| 0 <= i < o.len() && differs(m[#[trigger] o[i]]); assert(m.contains_key(o[i])); } }
    else {
        let k = choose|k: Seq<Seq<char>>| #[trigger] m.contains_key(k) && differs(m[k]);
        let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == k;
        assert(differs(m[o[i]]));
    }
}
// ---- the program -------------------------------------------------------------------------------------------
pub open spec fn path_value(name: Seq<char>) -> Option<PathBuf> { match value(name) { Some(s) => Some(as_path(s)), None => None } }
pub open spec fn performed(w: World, v: World, ok: bool) -> bool {
    &&& command() == "generate"@ ==> generated(w, v, as_path(value("generate-path"@).unwrap()), path_value("rust"@), path_value("typescript"@), ok)
    &&& command() == "format"@ ==> reformatted(w, v, as_path(value("format-path"@).unwrap()), flag("check"@), ok)
    &&& command() != "generate"@ && command() != "format"@ ==> v.files() == w.files()
}
// the process ends here
#[verifier::external_body]
pub fn exit(code: i32) -> (r: ()) requires code != 0 ensures false { unimplemented!() }
// A run with the check option accepts what a run without it left behind, provided loading sees the rewritten files as
// the same files with their formatted text, which is formatted again to itself (C11, C15).
pub proof fn lemma_format_then_check(w: World, v: World, u: World, path: PathBuf, ok: bool)
    requires reformatted(w, v, path, false, true), reformatted(v, u, path, true, ok), !u.failed(),
        loading(v.files(), path).is_some(),
        loading(v.files(), path).unwrap().dom() == loading(w.files(), path).unwrap().dom(),
        forall|k: Seq<Seq<char>>| #[trigger] loading(w.files(), path).unwrap().contains_key(k) ==> {
            let (a, b) = (loading(w.files(), path).unwrap()[k], loading(v.files(), path).unwrap()[k]);
            &&& formatted(b.1.0) == formatted(a.1.0)
            &&& b.1.2@ == (if differs(a) { v.files()[place(path, a)] } else { a.1.2@ })
        },
    ensures ok
{
    let (m, n) = (loading(w.files(), path).unwrap(), loading(v.files(), path).unwrap());
    assert forall|k: Seq<Seq<char>>| #[trigger] n.contains_key(k) implies !differs(n[k]) by { assert(m.dom().contains(k)); assert(m.contains_key(k)); }
}
}
@@ subst main
    \bload_schemas\( ==> crate::world::load_schemas(w, 
    \bcreate_dir_all\( ==> crate::world::create_dir_all(w, 
    (?<![\w!.:])write\( ==> crate::world::write(w, 
    generate_rust::generate\( ==> crate::world::generate_rust(
    generate_typescript::generate\( ==> crate::world::generate_typescript(
    (?<!const )\bVERSION\b ==> crate::world::this_version()
    (?<!fn )\bgenerate_code\( ==> generate_code(w, 
    (?<!fn )\bformat_schema\( ==> format_schema(w, 
    (?<!fn )\bshell_completion\( ==> shell_completion(w, 
    (?<!fn )\bentry\( ==> entry(w
    \bcli\(\)\.get_matches\(\) ==> crate::world::matches()
    Path::new\( ==> crate::world::path_of(
    Path::new\) ==> ToPath)
    \bthrow::<Error>\( ==> throw::<_, Reason>(
    <&Path> ==> <&PathBuf>
@@ module main src/main.rs
use vstd::prelude::*;
use crate::shim::*;
use crate::text::StrShim;
use crate::names::*;
use crate::fsys::*;
use crate::world::*;
@@ take GENERATE_SUBCOMMAND GENERATE_SUBCOMMAND_PATH_OPTION GENERATE_SUBCOMMAND_RUST_OPTION GENERATE_SUBCOMMAND_TYPESCRIPT_OPTION GENERATE_SUBCOMMAND_LIST_SCHEMAS_OPTION FORMAT_SUBCOMMAND FORMAT_SUBCOMMAND_PATH_OPTION FORMAT_SUBCOMMAND_CHECK_OPTION SHELL_COMPLETION_SUBCOMMAND SHELL_COMPLETION_SUBCOMMAND_SHELL_OPTION
@@ take generate_code format_schema shell_completion entry main
@@ endmodule
@@ raw
} // verus!
fn main() {}
@@ fn main::generate_code sig
    ^((?:pub )?fn \w+)\( ==> \1(w: &mut World, 
@@ fn main::generate_code ret r
    ensures generated(*old(w), *final(w), *path, opt(rust), opt(typescript), r is Ok)
@@ fn main::format_schema sig
    ^((?:pub )?fn \w+)\( ==> \1(w: &mut World, 
@@ fn main::format_schema ret r
    ensures reformatted(*old(w), *final(w), *path, check, r is Ok)
@@ fn main::shell_completion external
@@ fn main::shell_completion sig
    ^((?:pub )?fn \w+)\( ==> \1(w: &mut World, 
@@ fn main::shell_completion ret r
    ensures final(w).files() == old(w).files()
@@ fn main::entry sig
    ^((?:pub )?fn \w+)\(\) ==> \1(w: &mut World)
@@ fn main::entry ret r
    ensures performed(*old(w), *final(w), r is Ok)
@@ fn main::main sig
    ^((?:pub )?fn \w+)\(\) ==> \1(w: &mut World)
@@ fn main::main ret r
    ensures performed(*old(w), *final(w), true)
@@ fn main::generate_code attr
    #[verifier::loop_isolation(false)]
@@ fn main::generate_code loop 0 inv
    invariant __i0 <= __it0@.len(),
    decreases __it0@.len() - __i0
@@ fn main::format_schema attr
    #[verifier::loop_isolation(false)]
@@ fn main::format_schema loop 0 pre
    let ghost f0 = old(w).files();
    let ghost m = schemas@;
@@ fn main::format_schema loop 0 inv
    invariant __i0 <= __it0@.len(), written_upto(f0, w.files(), *path, m, __i0 as int, check),
        check ==> any_schema_updated == some_differ(m, __i0 as int),
    decreases __it0@.len() - __i0
@@ fn main::format_schema loop 0 start
    let ghost g = w.files();
    let ghost n = (__i0 - 1) as int;
    proof { assert(m.contains_key(listing_order(m)[n])); if differs(m[listing_order(m)[n]]) { assert(due(*path, m, place(*path, m[listing_order(m)[n]]))); } }
@@ fn main::format_schema loop 0 end
    proof {
        let e = m[listing_order(m)[n]];
        if !check && differs(e) { lemma_rewrite(f0, g, w.files(), *path, m, n); }
        if some_differ(m, n + 1) { }
        assert(some_differ(m, n + 1) == (some_differ(m, n) || differs(e)));
    }
@@ fn main::format_schema loop 0 post
    proof { lemma_all(f0, w.files(), *path, m, check); }
@@ fn main::entry entry
    proof { reveal_strlit("generate"); reveal_strlit("format"); reveal_strlit("shell-completion"); assert("generate"@.len() == 8); assert("format"@.len() == 6); assert("shell-completion"@.len() == 16); }
