@# The text buffer of the generators, with ghost state (C13): the text, the outline of module
@# openings, closings and schemas, and the schema being written.
@@ raw
pub mod out {
use vstd::prelude::*;
use crate::shim::*;
use crate::identifier::Identifier;
use crate::schema;
pub struct Ctx { pub ns: Seq<Identifier>, pub imports: Map<Identifier, schema::Namespace> }
pub enum Item { C(char), Schema(Seq<Identifier>, schema::Schema) }
pub open spec fn chars(t: Seq<char>) -> Seq<Item> { t.map_values(|c: char| Item::C(c)) }
pub proof fn lemma_chars(a: Seq<char>, b: Seq<char>) ensures chars(a + b) == chars(a) + chars(b) { assert(chars(a + b) =~= chars(a) + chars(b)); }
pub proof fn lemma_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures ((a + b) + c) == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub struct BufState { pub text: Seq<char>, pub outline: Seq<Item>, pub inside: Option<Ctx> }
#[verifier::external_body]
pub struct Buf { p: String }
impl View for Buf { type V = BufState; uninterp spec fn view(&self) -> BufState; }
#[derive(Debug)]
#[verifier::external_body]
pub struct FmtError { p: u8 }
#[verifier::external_body]
pub fn new_buf() -> (r: Buf) ensures r@ == (BufState { text: Seq::empty(), outline: Seq::empty(), inside: None }) { unimplemented!() }
#[verifier::external_body]
pub struct Text { p: String }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// Values rendered with `{}`.
pub trait Show { spec fn shown(&self) -> Seq<char>; }
impl Show for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl Show for bool { uninterp spec fn shown(&self) -> Seq<char>; }
impl Show for usize { uninterp spec fn shown(&self) -> Seq<char>; }
impl<T: Show + ?Sized> Show for &T { open spec fn shown(&self) -> Seq<char> { (*self).shown() } }
#[verifier::opaque]
pub open spec fn after_put(b: BufState, t: Seq<char>) -> BufState {
    BufState { text: b.text + t, outline: if b.inside.is_some() { b.outline } else { b.outline + chars(t) }, inside: b.inside }
}
// What was written between two states of the buffer.
pub open spec fn since(new: BufState, old: BufState) -> Seq<char> { new.text.skip(old.text.len() as int) }
pub broadcast proof fn lemma_put(b: BufState, s: Seq<char>, t: Seq<char>)
    ensures #[trigger] after_put(after_put(b, s), t) == after_put(b, s + t)
{
    lemma_assoc(b.text, s, t); lemma_chars(s, t); lemma_assoc(b.outline, chars(s), chars(t));
    assert(after_put(after_put(b, s), t) == after_put(b, s + t)) by { reveal(after_put); }
}
pub broadcast proof fn lemma_since(b: BufState, t: Seq<char>)
    ensures #[trigger] since(after_put(b, t), b) == t
{ reveal(after_put); assert((b.text + t).skip(b.text.len() as int) =~= t); }
pub broadcast proof fn lemma_put_state(b: BufState, t: Seq<char>)
    ensures (#[trigger] after_put(b, t)).inside == b.inside, b.inside.is_some() ==> after_put(b, t).outline == b.outline,
        b.inside.is_none() ==> after_put(b, t).outline == b.outline + chars(t), after_put(b, t).text == b.text + t,
{
    reveal(after_put);
}
pub proof fn lemma_put_nothing(b: BufState)
    ensures after_put(b, Seq::empty()) == b
{
    reveal(after_put);
    assert(b.text + Seq::<char>::empty() =~= b.text); assert(b.outline + chars(Seq::empty()) =~= b.outline);
}
// Inside a schema only text is written.
pub open spec fn kept(new: BufState, old: BufState) -> bool { new.inside == old.inside && (old.inside.is_some() ==> new.outline == old.outline) }
pub broadcast group text_lemmas { lemma_put, lemma_since, lemma_put_state }
// A schema begins or ends: ghost only, nothing is written.
#[verifier::external_body]
pub fn enter(b: &mut Buf, Ghost(ns): Ghost<Seq<Identifier>>, Ghost(s): Ghost<schema::Schema>)
    ensures final(b)@ == (BufState { text: old(b)@.text, outline: old(b)@.outline.push(Item::Schema(ns, s)),
        inside: Some(Ctx { ns, imports: import_map(s) }) })
{ unimplemented!() }
#[verifier::external_body]
pub fn leave(b: &mut Buf)
    ensures final(b)@ == (BufState { text: old(b)@.text, outline: old(b)@.outline, inside: None })
{ unimplemented!() }
pub open spec fn import_map(s: schema::Schema) -> Map<Identifier, schema::Namespace> {
    s.imports@.map_values(|i: schema::Import| i.namespace.unwrap())
}
pub open spec fn known(imports: Map<Identifier, schema::Namespace>, t: schema::TypeVariant) -> bool
    decreases t
{
    match t {
        schema::TypeVariant::Array(inner) => known(imports, inner.variant),
        schema::TypeVariant::Custom(Some(i), _) => imports.contains_key(i),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn fields_known(imports: Map<Identifier, schema::Namespace>, fields: Seq<schema::Field>) -> bool {
    forall|i: int| 0 <= i < fields.len() ==> known(imports, (#[trigger] fields[i]).type_.variant)
}
pub broadcast proof fn lemma_field_known(imports: Map<Identifier, schema::Namespace>, fields: Seq<schema::Field>, i: int)
    requires #[trigger] fields_known(imports, fields), 0 <= i < fields.len()
    ensures known(imports, (#[trigger] fields[i]).type_.variant)
{ reveal(fields_known); }
// What validation and loading guarantee about a schema.
pub open spec fn schema_known(s: schema::Schema) -> bool {
    &&& forall|k: Identifier| #[trigger] s.imports@.contains_key(k) ==> s.imports@[k].namespace.is_some()
    &&& forall|i: int| 0 <= i < s.declarations@.len() ==> fields_known(import_map(s), (#[trigger] s.declarations@[i]).fields@)
}
}
@@ raw
pub mod shimt {
use vstd::prelude::*;
use crate::out::*;
#[verifier::external_body]
pub fn put(b: &mut Buf, t: Text) -> (r: Result<(), FmtError>)
    ensures r.is_ok(), final(b)@ == after_put(old(b)@, t@), final(b)@.inside == old(b)@.inside, old(b)@.inside.is_some() ==> final(b)@.outline == old(b)@.outline
{ unimplemented!() }
#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn show<T: Show + ?Sized>(t: &T) -> (r: Text) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn cat(a: Text, b: Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
// Indentation and nesting depth stay far below 2^64.
#[verifier::external_body]
pub fn add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn joined(a: &[&str]) -> String { unimplemented!() }
#[verifier::external_body]
pub fn text_eq(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
}
