@# Messages on the wire (README, `Structs`, `Choices`): what the generated units share
@@ raw
pub mod msg {
use vstd::prelude::*;
use crate::wire::*;
// ---- strings as UTF-8, floating-point numbers as bits ---------------------------------------------------
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn fbits(x: f64) -> u64;
pub open spec fn le8(n: u64) -> Seq<u8> { octets(n, 8) }
// ---- integers and floating-point numbers as fields ---------------------------------------------------------
pub open spec fn f_u64(n: u64) -> Seq<u8> { if n == 0 { Seq::empty() } else if n < 567_382_630_219_904 { encoded(n) } else { le8(n) } }
pub open spec fn f_f64(x: u64) -> Seq<u8> { if x == 0 { Seq::empty() } else { le8(x) } }
pub open spec fn one(index: u64, varint: bool, payload: Seq<u8>) -> Seq<u8> { header(index, payload.len() as usize, varint) + payload }
// an element of an array which is not of fixed kind: its size, then the element
pub open spec fn item(e: Seq<u8>) -> Seq<u8> { encoded(e.len() as u64) + e }
// what is behind w + p once a header h and the bytes q have been written
pub proof fn lemma_chain(w: Seq<u8>, p: Seq<u8>, h: Seq<u8>, q: Seq<u8>)
    ensures ((w + p) + h) + q == w + (p + (h + q)), q.len() == 0 ==> (w + p) + h == w + (p + (h + q))
{
    assert(((w + p) + h) + q =~= w + (p + (h + q)));
    if q.len() == 0 { assert((w + p) + h =~= w + (p + (h + q))); }
}
pub proof fn lemma_assoc()
    ensures forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) == a + (b + c), forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 ==> #[trigger] (a + b) == a
{
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    assert forall|a: Seq<u8>, b: Seq<u8>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); }
}
// the conversions there are: of everything into itself, and those the generated code gives by `From`
pub trait Turn<T>: Sized { spec fn turns(self, r: T) -> bool; fn turn(self) -> (r: T) ensures self.turns(r); }
impl<T> Turn<T> for T { open spec fn turns(self, r: T) -> bool { r == self } fn turn(self) -> (r: T) { self } }
pub proof fn lemma_none(w: Seq<u8>) ensures w + Seq::<u8>::empty() == w { assert(w + Seq::<u8>::empty() =~= w); }
pub proof fn lemma_width(n: u64) ensures encoded(n).len() == width(n), 1 <= width(n) <= 9 { }
pub proof fn lemma_small(n: u64) ensures encoded((n & 1) as u64).len() == 1 { assert(n & 1 <= 1) by (bit_vector); }
// ---- what generated code calls -----------------------------------------------------------------------------
pub trait Count { spec fn count(&self) -> int; fn count_(&self) -> (r: usize) ensures r == self.count(); }
impl<T> Count for Vec<T> { open spec fn count(&self) -> int { self@.len() as int } fn count_(&self) -> (r: usize) { self.len() } }
impl Count for String { open spec fn count(&self) -> int { utf8(self@).len() as int } #[verifier::external_body] fn count_(&self) -> (r: usize) { self.len() } }
impl<T: Count> Count for &T { open spec fn count(&self) -> int { (**self).count() } fn count_(&self) -> (r: usize) { (**self).count_() } }
pub fn length<T: Count>(x: &T) -> (r: usize) ensures r == x.count() { x.count_() }
pub trait Bits { spec fn of(&self) -> u64; fn of_(&self) -> (r: u64) ensures r == self.of(); }
impl Bits for f64 { open spec fn of(&self) -> u64 { fbits(*self) } #[verifier::external_body] fn of_(&self) -> (r: u64) { self.to_bits() } }
impl Bits for u64 { open spec fn of(&self) -> u64 { *self } fn of_(&self) -> (r: u64) { *self } }
impl<T: Bits> Bits for &T { open spec fn of(&self) -> u64 { (**self).of() } fn of_(&self) -> (r: u64) { (**self).of_() } }
pub fn to_bits<T: Bits>(x: T) -> (r: u64) ensures r == x.of() { x.of_() }
#[verifier::external_body]
pub fn to_le_bytes<T: Bits>(x: T) -> (r: [u8; 8]) ensures r@ == le8(x.of()) { unimplemented!() }
pub trait Text { spec fn text(&self) -> Seq<u8>; fn text_(&self) -> (r: &[u8]) ensures r@ == self.text(); }
impl Text for String { open spec fn text(&self) -> Seq<u8> { utf8(self@) } #[verifier::external_body] fn text_(&self) -> (r: &[u8]) { self.as_bytes() } }
impl<T: Text> Text for &T { open spec fn text(&self) -> Seq<u8> { (**self).text() } fn text_(&self) -> (r: &[u8]) { (**self).text_() } }
pub fn as_bytes<T: Text>(x: &T) -> (r: &[u8]) ensures r@ == x.text() { x.text_() }
// ---- reading -------------------------------------------------------------------------------------------------
// what the bytes stand for, and how many of them; an error; or neither is said
pub enum Got<V> { Is(V, int), Bad, Any }
pub open spec fn upto<V>(g: Got<V>, w: Seq<u8>) -> Got<V> { match g { Got::Is(v, _) => Got::Is(v, w.len() as int), Got::Bad => Got::Bad, Got::Any => Got::Any } }
// the bytes of a field or an element: no more than its size, no more than there are
pub open spec fn bounded(rest: Seq<u8>, size: usize) -> Seq<u8> { if size <= rest.len() { rest.take(size as int) } else { rest } }
// what follows the heading
pub open spec fn behind(s: Seq<u8>) -> Seq<u8> { match heading(s) { Some((i, size, rest)) => rest, None => s } }
pub uninterp spec fn text_of(b: Seq<u8>) -> Option<Seq<char>>;
pub open spec fn zagzig(n: u64) -> i64 { if n % 2 == 0 { (n / 2) as i64 } else { (-1 - (n / 2) as int) as i64 } }
pub proof fn lemma_zag() ensures forall|r: i64| zagzig(#[trigger] zigzag(r)) == r { }
pub open spec fn ge_u64(w: Seq<u8>) -> Got<u64> { if whole(w) { Got::Is(decoded(w.take(reach(w[0]))), reach(w[0])) } else { Got::Bad } }
pub open spec fn gf_u64(size: usize, w: Seq<u8>) -> Got<u64> {
    if size == 0 { Got::Is(0, 0) } else if size == 8 { if w.len() < 8 { Got::Bad } else { Got::Is(value(w.take(8)), 8) } } else { ge_u64(w) }
}
pub open spec fn got_s64(g: Got<u64>) -> Got<i64> { match g { Got::Is(n, k) => Got::Is(zagzig(n), k), Got::Bad => Got::Bad, Got::Any => Got::Any } }
pub open spec fn got_bool(g: Got<u64>) -> Got<bool> { match g { Got::Is(n, k) => Got::Is(n != 0, k), Got::Bad => Got::Bad, Got::Any => Got::Any } }
pub open spec fn got_units(g: Got<u64>) -> Got<int> { match g { Got::Is(n, k) => Got::Is(n as int, k), Got::Bad => Got::Bad, Got::Any => Got::Any } }
pub open spec fn ge_f64(w: Seq<u8>) -> Got<u64> { if w.len() < 8 { Got::Bad } else { Got::Is(value(w.take(8)), 8) } }
pub open spec fn gf_f64(size: usize, w: Seq<u8>) -> Got<u64> { if size == 0 { Got::Is(0, 0) } else { ge_f64(w) } }
pub open spec fn g_bytes(w: Seq<u8>) -> Got<Seq<u8>> { Got::Is(w, w.len() as int) }
pub open spec fn g_text(w: Seq<u8>) -> Got<Seq<char>> { match text_of(w) { Some(t) => Got::Is(t, w.len() as int), None => Got::Bad } }
// std::io::Take over a borrowed reader
pub struct Take<'a, T> { pub inner: &'a mut T, pub limit: u64 }
impl<'a, T: BufRead> BufRead for Take<'a, T> {
    open spec fn rest(&self) -> Seq<u8> { bounded(self.inner.rest(), self.limit as usize) }
    open spec fn sound(&self) -> bool { self.inner.sound() }
    #[verifier::prophetic]
    open spec fn moved(pre: Self, post: Self) -> bool { T::moved(*pre.inner, *post.inner) && post.limit == pre.limit - (pre.inner.rest().len() - post.inner.rest().len()) && *final(post.inner) == *final(pre.inner) }
    proof fn lemma_moved(pre: Self, post: Self) { T::lemma_moved(*pre.inner, *post.inner); assert(post.rest() =~= pre.rest().skip(pre.rest().len() - post.rest().len())); }
    proof fn lemma_stays(pre: Self) { T::lemma_stays(*pre.inner); }
    proof fn lemma_joins(a: Self, b: Self, c: Self) { T::lemma_joins(*a.inner, *b.inner, *c.inner); }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body]
    fn fill_buf(&mut self) -> (r: Result<&[u8], Error>) { unimplemented!() }
    #[verifier::external_body]
    fn consume(&mut self, n: usize) { unimplemented!() }
}
pub open spec fn now<'a, T: BufRead>(q: Take<'a, T>) -> T { *q.inner }
pub proof fn stays<'a, T: BufRead>(q: Take<'a, T>) ensures Take::moved(q, q), T::moved(now(q), now(q)) { T::lemma_stays(*q.inner); Take::lemma_stays(q); }
#[verifier::external_body]
pub fn read8<T: BufRead>(reader: &mut T, buf: &mut [u8; 8]) -> (r: Result<(), Error>)
    ensures r is Ok ==> old(reader).rest().len() >= 8 && taken(*old(reader), *final(reader), 8) && final(buf)@ == old(reader).rest().take(8),
        T::moved(*old(reader), *final(reader)),
        old(reader).sound() ==> r is Ok == (old(reader).rest().len() >= 8), old(reader).sound() ==> (r matches Err(e) ==> eof(e))
{ unimplemented!() }
#[verifier::external_body]
pub fn read_to_end<T: BufRead>(reader: &mut T, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
    ensures T::moved(*old(reader), *final(reader)), old(reader).sound() ==> r is Ok && final(buf)@ == old(buf)@ + old(reader).rest() && final(reader).rest().len() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn read_to_string<T: BufRead>(reader: &mut T, buf: &mut String) -> (r: Result<usize, Error>)
    ensures T::moved(*old(reader), *final(reader)),
        old(reader).sound() ==> match text_of(old(reader).rest()) { Some(t) => r is Ok && final(buf)@ == old(buf)@ + t && final(reader).rest().len() == 0, None => r is Err }
{ unimplemented!() }
// memory is assumed to suffice
pub trait Reserve: Sized { spec fn kept(a: Self, b: Self) -> bool; fn reserve_(&mut self, n: usize) ensures Self::kept(*old(self), *final(self)); }
impl<V> Reserve for Vec<V> { open spec fn kept(a: Self, b: Self) -> bool { a@ == b@ } #[verifier::external_body] fn reserve_(&mut self, n: usize) { } }
impl Reserve for String { open spec fn kept(a: Self, b: Self) -> bool { a@ == b@ } #[verifier::external_body] fn reserve_(&mut self, n: usize) { } }
pub fn reserve<X: Reserve>(x: &mut X, n: usize) ensures X::kept(*old(x), *final(x)) { x.reserve_(n) }
#[verifier::external_body]
pub fn units(n: usize) -> (r: Vec<()>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn f64_of(b: [u8; 8]) -> (r: f64) ensures fbits(r) == value(b@) { unimplemented!() }
#[verifier::external_body]
pub fn zero() -> (r: f64) ensures fbits(r) == 0 { 0.0 }
pub fn keep<V>(o: &mut Option<V>, v: V) ensures *final(o) == (if *old(o) is Some { *old(o) } else { Some(v) }) { if o.is_none() { *o = Some(v); } }
}
