@# The text of a formatted schema (C11), and the shims its writer needs
@@ raw
pub mod wrap {
use vstd::prelude::*;
use crate::shim::*;
use crate::text::StrShim;
// ---- textwrap: lines of words, as many as fit, broken only between words ---------------------------------
pub struct AsciiSpace;
pub struct NoHyphenation;
pub struct Options { pub width: usize, pub breaks: bool, pub ascii: bool, pub hyphens: bool }
impl Options {
    #[verifier::external_body]
    pub fn new(w: usize) -> (r: Self) ensures r == (Options { width: w, breaks: true, ascii: false, hyphens: true }) { unimplemented!() }
    #[verifier::external_body]
    pub fn break_words(self, b: bool) -> (r: Self) ensures r == (Options { breaks: b, ..self }) { unimplemented!() }
    #[verifier::external_body]
    pub fn word_separator(self, s: AsciiSpace) -> (r: Self) ensures r == (Options { ascii: true, ..self }) { unimplemented!() }
    #[verifier::external_body]
    pub fn word_splitter(self, s: NoHyphenation) -> (r: Self) ensures r == (Options { hyphens: false, ..self }) { unimplemented!() }
}
pub uninterp spec fn filled(t: Seq<char>, o: Options) -> Seq<char>;
#[verifier::external_body]
pub fn fill<T: StrShim + ?Sized>(t: &T, o: Options) -> (r: String) ensures r@ == filled(t.sv(), o) { unimplemented!() }
pub uninterp spec fn lines_of(t: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
pub fn lines<T: StrShim + ?Sized>(t: &T) -> (r: Vec<String>) ensures r@.len() == lines_of(t.sv()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(t.sv())[i] { unimplemented!() }
#[verifier::external_body]
pub struct Parts<'a> { p: &'a u8 }
impl<'a> Parts<'a> { pub uninterp spec fn of(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn split<'a, T: StrShim + ?Sized>(t: &'a T) -> (r: Parts<'a>) ensures r.of() == t.sv() { unimplemented!() }
// the words of a text with something between them
pub uninterp spec fn rejoined(t: Seq<char>, sep: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn join<'a>(p: &Parts<'a>, sep: &str) -> (r: String) ensures r@ == rejoined(p.of(), sep@) { unimplemented!() }
// str::contains on a list
#[verifier::external_body]
pub fn listed(l: &[&str], s: &&str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < l@.len() && (#[trigger] l@[i])@ == s@) { unimplemented!() }
}
pub mod layout {
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::wrap::*;
use crate::text::decimal;
use crate::identifier::Identifier;
use crate::schema::*;
use crate::token::*;
pub open spec fn width() -> int { MAX_COLUMNS as int }
pub broadcast proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == (a + b) + c { assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn lemma_add_none(a: Seq<char>) ensures #[trigger] (a + Seq::<char>::empty()) == a { assert(a + Seq::<char>::empty() =~= a); }
pub broadcast proof fn lemma_none_add(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group sums { lemma_assoc, lemma_add_none, lemma_none_add }
pub proof fn lemma_indentation(s: Seq<char>)
    requires s == ""@ || s == "    "@
    ensures crate::text::blen(s) == s.len(), s.len() <= 4
{
    reveal_strlit(""); reveal_strlit("    ");
    reveal_with_fuel(crate::text::blen, 6);
}
pub open spec fn rows_of(ind: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> {
    lines_of(filled(rejoined(p, " "@), Options { width: (width() - ind.len() - 2) as usize, breaks: false, ascii: true, hyphens: false }))
}
pub open spec fn lines_text(ind: Seq<char>, ls: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { lines_text(ind, ls, n - 1) + (ind + "# "@ + ls[n - 1] + "\n"@) }
}
pub open spec fn comment_upto(ind: Seq<char>, ps: Seq<String>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else {
        comment_upto(ind, ps, n - 1) + (if n > 1 { ind + "#\n"@ } else { Seq::empty() }) + lines_text(ind, rows_of(ind, ps[n - 1]@), rows_of(ind, ps[n - 1]@).len() as int)
    }
}
pub open spec fn comment_text(ind: Seq<char>, ps: Seq<String>) -> Seq<char> { comment_upto(ind, ps, ps.len() as int) }
pub open spec fn is_keyword(s: Seq<char>) -> bool {
    ||| s == ASYMMETRIC_KEYWORD@ ||| s == AS_KEYWORD@ ||| s == BOOL_KEYWORD@ ||| s == BYTES_KEYWORD@ ||| s == CHOICE_KEYWORD@
    ||| s == DELETED_KEYWORD@ ||| s == F64_KEYWORD@ ||| s == IMPORT_KEYWORD@ ||| s == OPTIONAL_KEYWORD@ ||| s == S64_KEYWORD@
    ||| s == STRING_KEYWORD@ ||| s == STRUCT_KEYWORD@ ||| s == U64_KEYWORD@ ||| s == UNIT_KEYWORD@
}
pub open spec fn name_text(s: Seq<char>) -> Seq<char> { if is_keyword(s) { seq!['$'] + s } else { s } }
pub open spec fn type_text(t: Type) -> Seq<char> { variant_text(t.variant) }
pub open spec fn variant_text(v: TypeVariant) -> Seq<char> decreases v {
    match v {
        TypeVariant::Array(u) => "["@ + variant_text((*u).variant) + "]"@,
        TypeVariant::Bool => BOOL_KEYWORD@, TypeVariant::Bytes => BYTES_KEYWORD@, TypeVariant::F64 => F64_KEYWORD@, TypeVariant::S64 => S64_KEYWORD@,
        TypeVariant::String => STRING_KEYWORD@, TypeVariant::U64 => U64_KEYWORD@, TypeVariant::Unit => UNIT_KEYWORD@,
        TypeVariant::Custom(None, n) => name_text(pascal(n)),
        TypeVariant::Custom(Some(m), n) => name_text(snake(m)) + "."@ + name_text(pascal(n)),
    }
}
pub open spec fn field_text(f: Field) -> Seq<char> {
    comment_text("    "@, f.comment@)
    + "    "@ + (match f.rule { Rule::Asymmetric => ASYMMETRIC_KEYWORD@ + " "@, Rule::Optional => OPTIONAL_KEYWORD@ + " "@, Rule::Required => Seq::empty() })
    + name_text(snake(f.name))
    + (if f.type_.variant is Unit { Seq::empty() } else { ": "@ + type_text(f.type_) })
    + " = "@ + decimal(f.index as int) + "\n"@
}
pub open spec fn fields_text(fs: Seq<Field>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else {
        fields_text(fs, n - 1) + (if n > 1 && (fs[n - 2].comment@.len() > 0 || fs[n - 1].comment@.len() > 0) { "\n"@ } else { Seq::empty() }) + field_text(fs[n - 1])
    }
}
pub open spec fn indices_text(ds: Seq<usize>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { indices_text(ds, n - 1) + " "@ + decimal(ds[n - 1] as int) }
}
pub open spec fn deleted_text(ds: Seq<usize>) -> Seq<char> {
    if ds.len() == 0 { Seq::empty() } else { "    "@ + DELETED_KEYWORD@ + indices_text(ds, ds.len() as int) + "\n"@ }
}
pub open spec fn decl_head(d: Declaration) -> Seq<char> {
    comment_text(Seq::empty(), d.comment@) + (if d.variant is Struct { STRUCT_KEYWORD@ } else { CHOICE_KEYWORD@ }) + " "@ + name_text(pascal(d.name)) + " {\n"@
}
pub open spec fn decl_tail(d: Declaration) -> Seq<char> {
    let ds = ascending(d.deleted@);
    (if d.fields@.len() > 0 && ds.len() > 0 { "\n"@ } else { Seq::empty() }) + deleted_text(ds) + "}\n"@
}
pub open spec fn decl_text(d: Declaration) -> Seq<char> { decl_head(d) + fields_text(d.fields@, d.fields@.len() as int) + decl_tail(d) }
pub open spec fn decls_text(ds: Seq<Declaration>, n: int, gap: bool) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { decls_text(ds, n - 1, gap) + (if n > 1 || gap { "\n"@ } else { Seq::empty() }) + decl_text(ds[n - 1]) }
}
pub open spec fn import_text(name: Identifier, i: Import) -> Seq<char> {
    let short = crate::names::stem_of(i.path) matches Some(s) && key(from_text(s)) == key(name);
    IMPORT_KEYWORD@ + " '"@ + path_text(i.path) + (if short { "'\n"@ } else { "' "@ + AS_KEYWORD@ + " "@ + name_text(snake(name)) + "\n"@ })
}
pub open spec fn imports_text(m: Map<Seq<char>, (Identifier, Import)>, ks: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { imports_text(m, ks, n - 1) + import_text(m[ks[n - 1]].0, m[ks[n - 1]].1) }
}
pub open spec fn schema_text(s: Schema) -> Seq<char> {
    let ks = in_order(s.imports@);
    comment_text(Seq::empty(), s.comment@)
    + (if s.comment@.len() > 0 && (ks.len() > 0 || s.declarations@.len() > 0) { "\n"@ } else { Seq::empty() })
    + imports_text(s.imports@, ks, ks.len() as int)
    + decls_text(s.declarations@, s.declarations@.len() as int, ks.len() > 0)
}
// ---- what the parts print as ------------------------------------------------------------------------
pub uninterp spec fn snake(i: Identifier) -> Seq<char>;
pub uninterp spec fn pascal(i: Identifier) -> Seq<char>;
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
// iteration order of BTreeSet and BTreeMap
pub uninterp spec fn ascending(s: Set<usize>) -> Seq<usize>;
pub uninterp spec fn in_order(m: Map<Seq<char>, (Identifier, Import)>) -> Seq<Seq<char>>;
impl Identifier {
    #[verifier::external_body]
    pub fn snake_case(&self) -> (r: String) ensures r@ == snake(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn pascal_case(&self) -> (r: String) ensures r@ == pascal(*self) { unimplemented!() }
}
#[verifier::external_body]
pub fn elements(s: &BTreeSet<usize>) -> (r: Vec<usize>) ensures r@ == ascending(s@) { unimplemented!() }
#[verifier::external_body]
pub fn entries<'a>(m: &'a NameMap<Import>) -> (r: Vec<(&'a Identifier, &'a Import)>)
    ensures r@.len() == in_order(m@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == m@[in_order(m@)[i]].0 && *r@[i].1 == m@[in_order(m@)[i]].1
{ unimplemented!() }
impl crate::lst::Emptiness for NameMap<Import> { open spec fn none(&self) -> bool { in_order(self@).len() == 0 } }
impl crate::lst::Emptiness for BTreeSet<usize> { open spec fn none(&self) -> bool { ascending(self@).len() == 0 } }
#[verifier::external_body]
pub fn display(p: &PathBuf) -> (r: &PathBuf) ensures r == p { unimplemented!() }
#[verifier::external_body]
pub fn same_name(a: Option<&Identifier>, b: Option<&Identifier>) -> (r: bool)
    ensures r == match (a, b) { (Some(x), Some(y)) => key(*x) == key(*y), (None, None) => true, _ => false }
{ unimplemented!() }
// ---- the formatter a text is written to -------------------------------------------------------------
#[verifier::external_body]
pub struct Out { p: String }
impl View for Out { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct FmtError { p: u8 }
#[verifier::external_body]
pub struct Text { p: String }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait Shown { spec fn text(&self) -> Seq<char>; }
impl Shown for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl Shown for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl Shown for char { open spec fn text(&self) -> Seq<char> { seq![*self] } }
impl Shown for usize { open spec fn text(&self) -> Seq<char> { decimal(*self as int) } }
impl Shown for PathBuf { open spec fn text(&self) -> Seq<char> { path_text(*self) } }
impl Shown for Type { open spec fn text(&self) -> Seq<char> { type_text(*self) } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
impl<T: Shown> Shown for Box<T> { open spec fn text(&self) -> Seq<char> { (**self).text() } }
#[verifier::external_body]
pub fn put(f: &mut Out, t: Text) -> (r: Result<(), FmtError>) ensures r is Ok, final(f)@ == old(f)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn show<T: Shown + ?Sized>(t: &T) -> (r: Text) ensures r@ == t.text() { unimplemented!() }
#[verifier::external_body]
pub fn cat(a: Text, b: Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
}
