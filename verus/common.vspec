@# Shims shared by the units: contract-bearing stand-ins for std operations (assumptions, all listed in evidence)
@@ raw
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unreachable_code, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub mod shim {
use vstd::prelude::*;

// ---- rendered text: arbitrary strings ------------------------------------------------------
#[verifier::external_body]
pub fn fmt_any() -> String { unimplemented!() }
#[verifier::external_body]
pub fn shown<T: ?Sized>(t: &T) { }
#[verifier::external_body]
pub fn eprintln() { }
#[verifier::external_body]
pub fn println() { }
#[verifier::external_body]
pub fn never<T>() -> T requires false { unimplemented!() }

// [T]::get
#[verifier::external_body]
pub fn vec_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>)
    ensures i < v@.len() ==> r == Some(&v@[i as int]), i >= v@.len() ==> r.is_none(), v@.len() <= usize::MAX
{ v.get(i) }

// vec![x]
#[verifier::external_body]
pub fn vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
// Vec<T>::clone for a T whose clone is an equal value
#[verifier::external_body]
pub fn clone_vec<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@, r == *v { unimplemented!() }

// tuple clone: clones the components (their contract is "equal value")
#[verifier::external_body]
pub fn clone_pair<A, B>(p: &(A, B)) -> (r: (A, B)) ensures r == *p { unimplemented!() }

// ---- std::path -----------------------------------------------------------------------------
#[verifier::external_body]
pub struct PathBuf { p: std::path::PathBuf }
pub type Path = PathBuf;   // a borrowed path; same abstract value

// ---- maps and sets: mathematical finite maps/sets over the key's equality -------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { p: std::collections::BTreeMap<K, V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures self@.contains_key(*k) ==> r == Some(&self@[*k]), !self@.contains_key(*k) ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]), !old(self)@.contains_key(k) ==> r.is_none() { unimplemented!() }
    // `map[key]`
    #[verifier::external_body]
    pub fn index(&self, k: &K) -> (r: &V) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            match r {
                Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@ =~= Map::<K, V>::empty()) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: std::collections::HashMap<K, V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures self@.contains_key(*k) ==> r == Some(&self@[*k]), !self@.contains_key(*k) ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]), !old(self)@.contains_key(k) ==> r.is_none() { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { p: std::collections::HashSet<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { p: std::collections::BTreeSet<K> }
impl<K> View for BTreeSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> BTreeSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
}


// a position in a slice: std::slice::Iter, possibly peekable
pub struct Cursor<'a, T> { pub s: &'a Vec<T>, pub pos: usize }
impl<'a, T> Cursor<'a, T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() && self.s@.len() <= usize::MAX }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).s == old(self).s,
            old(self).pos < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos >= old(self).s@.len() ==> r.is_none() && final(self).pos == old(self).pos,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&'a T>)
        requires self.wf()
        ensures self.pos < self.s@.len() ==> r == Some(&self.s@[self.pos as int]),
            self.pos >= self.s@.len() ==> r.is_none(),
    { unimplemented!() }
    // `.cloned().collect::<Vec<_>>()`; the clones equal the originals
    #[verifier::external_body]
    pub fn rest_cloned(&self) -> (r: Vec<T>)
        requires self.wf()
        ensures r@ == self.s@.skip(self.pos as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn cursor<T>(v: &Vec<T>) -> (r: Cursor<'_, T>) ensures r.wf(), r.pos == 0, r.s == v { unimplemented!() }

// the entries of a map, each exactly once, in the map's iteration order
pub open spec fn is_entries<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1)
    &&& (forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0)
    &&& (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k)
}
// the iteration order is a function of the map (BTreeMap: ascending keys)
pub uninterp spec fn entry_seq<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub open spec fn is_entry_seq<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    s.len() == entry_seq(m).len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).0 == entry_seq(m)[i].0 && *s[i].1 == entry_seq(m)[i].1
}
#[verifier::external_body]
pub fn entries<'a, K, V>(m: &'a BTreeMap<K, V>) -> (r: Vec<(&'a K, &'a V)>) ensures is_entries(r@, m@), is_entry_seq(r@, m@), r@.len() == m@.dom().len() { unimplemented!() }
}
