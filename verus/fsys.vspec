@# The file system as the loader sees it
@@ raw
pub mod fsys {
use vstd::prelude::*;
use crate::shim::*;
use crate::names::*;
use crate::identifier::Identifier;
use crate::schema::Namespace;
pub struct Reason { p: u8 }   // std::io::Error
// ---- paths -----------------------------------------------------------------------------------
#[verifier::external_body]
pub struct OsStr { p: u8 }
pub uninterp spec fn os_text(s: &OsStr) -> Seq<char>;   // to_string_lossy
pub enum Component<'a> { Prefix, RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
pub ghost enum Comp { Normal(Seq<char>), Other }
pub uninterp spec fn comps(p: PathBuf) -> Seq<Comp>;
pub open spec fn normal(p: PathBuf) -> bool { forall|i: int| 0 <= i < comps(p).len() ==> #[trigger] comps(p)[i] is Normal }
// relative paths made of names only, spelled without repeated or trailing separators
pub uninterp spec fn plain(p: PathBuf) -> bool;
pub open spec fn clean(p: PathBuf) -> bool { plain(p) && normal(p) }
// Path equality, and hashing, go by components
pub axiom fn axiom_plain(a: PathBuf, b: PathBuf) requires clean(a), clean(b), comps(a) == comps(b) ensures a == b;
pub uninterp spec fn parent_of(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn name_of(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn joined(a: PathBuf, b: PathBuf) -> PathBuf;
pub uninterp spec fn bare(p: PathBuf) -> PathBuf;                         // without extension
pub uninterp spec fn below(p: PathBuf, b: PathBuf) -> Option<PathBuf>;    // strip_prefix
pub trait PathLike { spec fn pv(&self) -> PathBuf; }
impl PathLike for PathBuf { open spec fn pv(&self) -> PathBuf { *self } }
impl<'a, T: PathLike> PathLike for &'a T { open spec fn pv(&self) -> PathBuf { (**self).pv() } }
#[verifier::external_body]
pub fn parent<'a, T: PathLike>(p: &'a T) -> (r: Option<&'a PathBuf>)
    ensures r.is_some() == parent_of(p.pv()).is_some(), r.is_some() ==> *r.unwrap() == parent_of(p.pv()).unwrap(),
        normal(p.pv()) && comps(p.pv()).len() > 0 ==> r.is_some()
{ unimplemented!() }
#[verifier::external_body]
pub fn file_name<'a, T: PathLike>(p: &'a T) -> (r: Option<&'a PathBuf>)
    ensures r.is_some() == name_of(p.pv()).is_some(), r.is_some() ==> *r.unwrap() == name_of(p.pv()).unwrap() && clean(*r.unwrap())
{ unimplemented!() }
#[verifier::external_body]
pub fn join<A: PathLike, B: PathLike>(a: &A, b: &B) -> (r: PathBuf) ensures r == joined(a.pv(), b.pv()) { unimplemented!() }
// what remains of a canonical path below a canonical directory consists of names only
#[verifier::external_body]
pub fn strip_prefix<'a, A: PathLike, B: PathLike>(a: &'a A, b: B) -> (r: Result<&'a PathBuf, Reason>)
    ensures r is Ok == below(a.pv(), b.pv()).is_some(),
        r matches Ok(x) ==> *x == below(a.pv(), b.pv()).unwrap() && (is_canonical(a.pv()) && is_canonical(b.pv()) ==> clean(*x))
{ unimplemented!() }
#[verifier::external_body]
pub fn set_extension<T: PathLike>(p: &mut T, e: &str)
    ensures e@.len() == 0 ==> final(p).pv() == bare(old(p).pv()) && (normal(old(p).pv()) ==> normal(final(p).pv()))
{ unimplemented!() }
#[verifier::external_body]
pub struct OsText { p: u8 }
pub uninterp spec fn blank(t: OsText) -> bool;
#[verifier::external_body]
pub fn os_str<T: PathLike>(p: &T) -> (r: OsText) ensures blank(r) == (comps(p.pv()).len() == 0) { unimplemented!() }
pub trait None_ { spec fn nothing(&self) -> bool; }
impl None_ for OsText { open spec fn nothing(&self) -> bool { blank(*self) } }
impl<T> None_ for Vec<T> { open spec fn nothing(&self) -> bool { self@.len() == 0 } }
#[verifier::external_body]
pub fn is_empty<T: None_>(x: &T) -> (r: bool) ensures r == x.nothing() { unimplemented!() }
pub uninterp spec fn dot() -> PathBuf;
#[verifier::external_body]
pub fn dot_path() -> (r: PathBuf) ensures r == dot() { unimplemented!() }
pub trait Lossy { spec fn text_of(&self) -> Seq<char>; }
impl Lossy for OsStr { open spec fn text_of(&self) -> Seq<char> { os_text(self) } }
impl Lossy for PathBuf { uninterp spec fn text_of(&self) -> Seq<char>; }
impl<'a, T: Lossy> Lossy for &'a T { open spec fn text_of(&self) -> Seq<char> { (**self).text_of() } }
#[verifier::external_body]
pub fn lossy<T: Lossy>(p: &T) -> (r: String) ensures r@ == p.text_of() { unimplemented!() }
#[verifier::external_body]
pub struct Parts<'a> { p: &'a u8 }
impl<'a> Parts<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Comp>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component<'a>>)
        ensures old(self).rest().len() == 0 ==> r.is_none() && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r.is_some() && final(self).rest() == old(self).rest().skip(1) && match (r.unwrap(), old(self).rest()[0]) {
                (Component::Normal(s), Comp::Normal(t)) => os_text(s) == t,
                (Component::Normal(_), _) => false,
                (_, Comp::Normal(_)) => false,
                _ => true,
            }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn components<'a, T: PathLike>(p: &'a T) -> (r: Parts<'a>) ensures r.rest() == comps(p.pv()) { unimplemented!() }
// ---- files (they do not change while loading) -------------------------------------------------
pub uninterp spec fn canonical(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn content(p: PathBuf) -> Option<Seq<char>>;
pub open spec fn is_canonical(p: PathBuf) -> bool { exists|q: PathBuf| #[trigger] canonical(q) == Some(p) }
#[verifier::external_body]
pub fn canonicalize<T: PathLike>(p: &T) -> (r: Result<PathBuf, Reason>)
    ensures r is Ok == canonical(p.pv()).is_some(), r matches Ok(x) ==> x == canonical(p.pv()).unwrap()
{ unimplemented!() }
#[verifier::external_body]
pub fn read_to_string<T: PathLike>(p: T) -> (r: Result<String, Reason>)
    ensures r is Ok == content(p.pv()).is_some(), r matches Ok(x) ==> x@ == content(p.pv()).unwrap()
{ unimplemented!() }
// there are finitely many files
pub uninterp spec fn existing() -> Set<PathBuf>;
pub axiom fn axiom_existing(p: PathBuf) ensures canonical(p) matches Some(c) ==> existing().contains(c);
// the directory a schema stands in: the empty path is the current directory
pub open spec fn dir_of(base: PathBuf) -> PathBuf { if comps(base).len() == 0 { dot() } else { base } }
// a clean path leads to the same file from a directory and from its canonical path, and to no file if it is empty
pub axiom fn axiom_same_file(base: PathBuf, cbase: PathBuf, p: PathBuf)
    requires canonical(dir_of(base)) == Some(cbase), clean(p)
    ensures content(joined(base, p)) == content(joined(cbase, p)), comps(p).len() == 0 ==> content(joined(base, p)) is None;
// what remains of a canonical path below a directory leads back to it
pub axiom fn axiom_below(c: PathBuf, cbase: PathBuf)
    requires is_canonical(c), is_canonical(cbase)
    ensures below(c, cbase) matches Some(p) ==> joined(cbase, p) == c;
// a canonical path designates the same file as the path it was made from
pub axiom fn axiom_canonical(p: PathBuf) ensures canonical(p) matches Some(c) ==> content(c) == content(p);
// ---- collections ---------------------------------------------------------------------------------
#[verifier::external_body]
pub struct PathSet { p: u8 }
impl View for PathSet { type V = Set<PathBuf>; uninterp spec fn view(&self) -> Set<PathBuf>; }
impl PathSet {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<PathBuf>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &PathBuf) -> (r: bool) requires clean(*k) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: PathBuf) -> (r: bool) requires clean(k) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
}
// namespaces are compared by the names in them
pub open spec fn keys(names: Seq<Identifier>) -> Seq<Seq<char>> { names.map_values(|i: Identifier| key(i)) }
pub open spec fn nkey(n: Namespace) -> Seq<Seq<char>> { keys(n.components@) }
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
pub struct NsMap<V> { p: Vec<V> }
impl<V> View for NsMap<V> { type V = Map<Seq<Seq<char>>, (Namespace, V)>; uninterp spec fn view(&self) -> Map<Seq<Seq<char>>, (Namespace, V)>; }
impl<V> NsMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Seq<Seq<char>>, (Namespace, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Namespace, v: V) -> (r: Option<V>)
        ensures r.is_some() == old(self)@.contains_key(nkey(k)),
            final(self)@ == old(self)@.insert(nkey(k), (if old(self)@.contains_key(nkey(k)) { old(self)@[nkey(k)].0 } else { k }, v))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Namespace) -> (r: bool) ensures r == self@.contains_key(nkey(*k)) { unimplemented!() }
}
#[verifier::external_body]
pub fn no_origin() -> (r: Option<(PathBuf, String)>) ensures r.is_none() { unimplemented!() }
#[verifier::external_body]
pub fn pop<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures match r { Some(x) => old(v)@ == final(v)@.push(x), None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ unimplemented!() }
#[verifier::external_body]
pub fn extend<T>(v: &mut Vec<T>, w: &Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
}
