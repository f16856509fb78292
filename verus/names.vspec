@# Names, and maps keyed by names
@@ raw
impl Clone for crate::shim::PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub mod names {
use vstd::prelude::*;
use crate::text::*;
use crate::shim::*;
use crate::identifier::Identifier;
// derived Clone implementations yield equal values
pub trait Dup: Sized { fn dup_(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T { #[verifier::external_body] fn dup_(&self) -> (r: Self) { unimplemented!() } }
// From<&str> for Identifier: a function of the text
pub uninterp spec fn from_text(s: Seq<char>) -> Identifier;
#[verifier::external_body]
pub fn named<T: StrShim + ?Sized>(s: &T) -> (r: Identifier) ensures r == from_text(s.sv()) { unimplemented!() }
// what decides whether two names are the same (C14: the snake case form)
pub uninterp spec fn key(i: Identifier) -> Seq<char>;
// a BTreeMap with names as keys
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct NameMap<V> { p: Vec<V> }
impl<V> View for NameMap<V> { type V = Map<Seq<char>, (Identifier, V)>; uninterp spec fn view(&self) -> Map<Seq<char>, (Identifier, V)>; }
impl<V> NameMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, (Identifier, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Identifier) -> (r: bool) ensures r == self@.contains_key(key(*k)) { unimplemented!() }
    // std: an existing key is kept, its value replaced
    #[verifier::external_body]
    pub fn insert(&mut self, k: Identifier, v: V) -> (r: Option<V>)
        ensures r.is_some() == old(self)@.contains_key(key(k)),
            final(self)@ == old(self)@.insert(key(k), (if old(self)@.contains_key(key(k)) { old(self)@[key(k)].0 } else { k }, v))
    { unimplemented!() }
    // the names, each once, in some order
    #[verifier::external_body]
    pub fn keys_(&self) -> (r: Vec<Identifier>)
        ensures listed(self@, r@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn value_mut_(&mut self, k: &Identifier) -> (r: &mut V)
        requires old(self)@.contains_key(key(*k))
        ensures *r == old(self)@[key(*k)].1, final(self)@ == old(self)@.insert(key(*k), (old(self)@[key(*k)].0, *final(r)))
    { unimplemented!() }
}
pub open spec fn listed<V>(m: Map<Seq<char>, (Identifier, V)>, ks: Seq<Identifier>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(key(#[trigger] ks[i])) && m[key(ks[i])].0 == ks[i]
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> key(#[trigger] ks[i]) != key(#[trigger] ks[j])
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && key(#[trigger] ks[i]) == k
}
// Path::file_stem of a path taken from UTF-8 text, which is UTF-8 itself
pub uninterp spec fn stem_of(p: PathBuf) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn stem(p: &PathBuf) -> (r: Option<String>) ensures r.is_some() == stem_of(*p).is_some(), r.is_some() ==> r.unwrap()@ == stem_of(*p).unwrap() { unimplemented!() }
#[verifier::external_body]
pub fn text<T: ?Sized>(x: &T) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn code<T: ?Sized>(s: &T) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn last<'a, T>(v: &'a Vec<T>) -> (r: Option<&'a T>) ensures v@.len() > 0 ==> r == Some(&v@.last()), v@.len() == 0 ==> r.is_none() { unimplemented!() }
pub const REPLACEMENT_CHARACTER: char = '\u{fffd}';
}
