@# The wire format of integers and field headers, as the documentation describes it (C01), and readers and writers
@@ raw
pub mod wire {
use vstd::prelude::*;
// ---- variable-width integers (README, `Unsigned variable-width integers`) --------------------------------
pub open spec fn base(k: int) -> int {
    if k <= 1 { 0 } else if k == 2 { 128 } else if k == 3 { 16_512 } else if k == 4 { 2_113_664 } else if k == 5 { 270_549_120 } else if k == 6 { 34_630_287_488 }
    else if k == 7 { 4_432_676_798_592 } else if k == 8 { 567_382_630_219_904 } else if k == 9 { 72_624_976_668_147_840 } else { 18_446_744_073_709_551_616 }
}
// how many bytes the integer n takes
pub open spec fn width(n: u64) -> int {
    if n < base(2) { 1 } else if n < base(3) { 2 } else if n < base(4) { 3 } else if n < base(5) { 4 } else if n < base(6) { 5 } else if n < base(7) { 6 }
    else if n < base(8) { 7 } else if n < base(9) { 8 } else { 9 }
}
pub open spec fn octet(x: u64, i: u64) -> u8 { (x >> (8 * i) as u64) as u8 }
// the bits of w above k - 1 zeros and a one
pub open spec fn packed(w: u64, k: u64) -> u64 { (w << k) | (1u64 << (k - 1) as u64) }
pub open spec fn octets(x: u64, k: nat) -> Seq<u8> { Seq::new(k, |i: int| octet(x, i as u64)) }
pub open spec fn encoded(n: u64) -> Seq<u8> {
    let k = width(n);
    let w = (n - base(k)) as u64;
    if k == 9 { seq![0u8] + octets(w, 8) } else { octets(packed(w, k as u64), k as nat) }
}
// trailing zero bits
pub open spec fn zeros(b: u8) -> int {
    if b & 1 != 0 { 0 } else if b & 2 != 0 { 1 } else if b & 4 != 0 { 2 } else if b & 8 != 0 { 3 } else if b & 16 != 0 { 4 } else if b & 32 != 0 { 5 } else if b & 64 != 0 { 6 }
    else if b & 128 != 0 { 7 } else { 8 }
}
// the length of an encoding, from its first byte
pub open spec fn reach(b: u8) -> int { zeros(b) + 1 }
// little-endian value of up to eight bytes
pub open spec fn at(s: Seq<u8>, i: int) -> u64 { if 0 <= i < s.len() { s[i] as u64 } else { 0 } }
pub open spec fn value(s: Seq<u8>) -> u64 {
    at(s, 0) | (at(s, 1) << 8) | (at(s, 2) << 16) | (at(s, 3) << 24) | (at(s, 4) << 32) | (at(s, 5) << 40) | (at(s, 6) << 48) | (at(s, 7) << 56)
}
// what an encoding of the length its first byte tells stands for
pub open spec fn decoded(s: Seq<u8>) -> u64 {
    let k = reach(s[0]);
    let w = if k == 9 { value(s.skip(1)) } else { value(s) >> (k as u64) };
    if base(k) + w < 0x1_0000_0000_0000_0000 { (base(k) + w) as u64 } else { (base(k) + w - 0x1_0000_0000_0000_0000) as u64 }
}
// the bytes begin with an encoding
pub open spec fn whole(s: Seq<u8>) -> bool { s.len() > 0 && s.len() >= reach(s[0]) }
// ---- ZigZag (README, `Signed variable-width integers`) ---------------------------------------------------
pub open spec fn zigzag(n: i64) -> u64 { if n >= 0 { (2 * n) as u64 } else { (-2 * n - 1) as u64 } }
// ---- field headers (README, `Structs`) --------------------------------------------------------------------
pub open spec fn mode(size: usize, varint: bool) -> int { if size == 0 { 0 } else if size == 8 { 1 } else if varint { 2 } else { 3 } }
pub open spec fn tag(index: u64, size: usize, varint: bool) -> u64 { (4 * index + mode(size, varint)) as u64 }
pub open spec fn header(index: u64, size: usize, varint: bool) -> Seq<u8> {
    encoded(tag(index, size, varint)) + (if mode(size, varint) == 3 { encoded(size as u64) } else { Seq::empty() })
}
// what a reader learns from the beginning of a field: the index, the size, and the bytes of the field and what follows
pub open spec fn heading(s: Seq<u8>) -> Option<(u64, usize, Seq<u8>)> {
    if !whole(s) { None } else {
        let t = decoded(s.take(reach(s[0])));
        let rest = s.skip(reach(s[0]));
        let m = t & 3;
        if m == 0 { Some((t >> 2u32, 0usize, rest)) } else if m == 1 { Some((t >> 2u32, 8usize, rest)) }
        else if m == 2 { if rest.len() == 0 { None } else { Some((t >> 2u32, reach(rest[0]) as usize, rest)) } }
        else if !whole(rest) { None } else { Some((t >> 2u32, decoded(rest.take(reach(rest[0]))) as usize, rest.skip(reach(rest[0])))) }
    }
}
// ---- writers and readers --------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct Error { p: u8 }
pub enum ErrorKind { UnexpectedEof, InvalidData, Other }
impl Error {
    pub uninterp spec fn kind_of(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn new(k: ErrorKind, m: &str) -> (r: Error) ensures r.kind_of() == k { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.kind_of() { unimplemented!() }
}
pub open spec fn eof(e: Error) -> bool { e.kind_of() is UnexpectedEof }
pub trait Write {
    spec fn written(&self) -> Seq<u8>;
    // it never fails
    spec fn sound(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).written() == old(self).written() + buf@, final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok;
}
pub trait BufRead: Sized {
    // the bytes it still has
    spec fn rest(&self) -> Seq<u8>;
    // it fails at the end of its bytes only
    spec fn sound(&self) -> bool;
    // post is what pre becomes when some of its bytes are taken
    #[verifier::prophetic]
    spec fn moved(pre: Self, post: Self) -> bool;
    proof fn lemma_moved(pre: Self, post: Self)
        requires Self::moved(pre, post)
        ensures post.rest().len() <= pre.rest().len(), post.rest() == pre.rest().skip(pre.rest().len() - post.rest().len()), post.sound() == pre.sound();
    proof fn lemma_stays(pre: Self)
        ensures Self::moved(pre, pre);
    proof fn lemma_joins(a: Self, b: Self, c: Self)
        requires Self::moved(a, b), Self::moved(b, c)
        ensures Self::moved(a, c);
    // like std's: at the end of the bytes an error of the kind UnexpectedEof
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> old(self).rest().len() >= old(buf)@.len() && final(buf)@ == old(self).rest().take(old(buf)@.len() as int) && Self::moved(*old(self), *final(self)) && old(buf)@.len() as int <= old(self).rest().len() && final(self).rest() == old(self).rest().skip(old(buf)@.len() as int) && final(self).sound() == old(self).sound(),
            Self::moved(*old(self), *final(self)),
            old(self).sound() ==> r is Ok == (old(self).rest().len() >= old(buf)@.len()), old(self).sound() ==> (r matches Err(e) ==> eof(e));
    fn fill_buf(&mut self) -> (r: Result<&[u8], Error>)
        ensures Self::moved(*old(self), *final(self)) && 0 <= old(self).rest().len() && final(self).rest() == old(self).rest().skip(0) && final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok,
            r matches Ok(b) ==> b@.len() <= old(self).rest().len() && b@ == old(self).rest().take(b@.len() as int) && (b@.len() == 0 ==> old(self).rest().len() == 0);
    fn consume(&mut self, n: usize)
        requires n <= old(self).rest().len()
        ensures Self::moved(*old(self), *final(self)) && n as int <= old(self).rest().len() && final(self).rest() == old(self).rest().skip(n as int) && final(self).sound() == old(self).sound();
}
// n bytes are taken
#[verifier::prophetic]
pub open spec fn taken<T: BufRead>(pre: T, post: T, n: int) -> bool { T::moved(pre, post) && 0 <= n <= pre.rest().len() && post.rest() == pre.rest().skip(n) && post.sound() == pre.sound() }
pub proof fn lemma_moved<T: BufRead>()
    ensures forall|a: T, b: T| #[trigger] T::moved(a, b) ==> b.rest().len() <= a.rest().len() && b.sound() == a.sound(),
        forall|a: T, b: T, c: T| #[trigger] T::moved(a, b) && #[trigger] T::moved(b, c) ==> T::moved(a, c),
{
    assert forall|a: T, b: T| #[trigger] T::moved(a, b) implies b.rest().len() <= a.rest().len() && b.sound() == a.sound() by { T::lemma_moved(a, b); }
    assert forall|a: T, b: T, c: T| #[trigger] T::moved(a, b) && #[trigger] T::moved(b, c) implies T::moved(a, c) by { T::lemma_joins(a, b, c); }
}
pub proof fn lemma_behind<T: BufRead>()
    ensures forall|a: T, b: T| #[trigger] T::moved(a, b) ==> b.rest() == a.rest().skip(a.rest().len() - b.rest().len()),
{
    assert forall|a: T, b: T| #[trigger] T::moved(a, b) implies b.rest() == a.rest().skip(a.rest().len() - b.rest().len()) by { T::lemma_moved(a, b); }
}
#[verifier::external_body]
pub fn trailing_zeros(b: u8) -> (r: u32) ensures r == zeros(b), r <= 8 { b.trailing_zeros() }
#[verifier::external_body]
pub fn from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == value(b@) { u64::from_le_bytes(b) }
// transmute between the 64-bit integers: the same bits, two's complement
#[verifier::external_body]
pub fn bits(x: i64) -> (r: u64) ensures r == x as u64 { x as u64 }
#[verifier::external_body]
pub fn signed(x: u64) -> (r: i64) ensures r == x as i64 { x as i64 }
pub mod io { pub type Result<T> = core::result::Result<T, super::Error>; }
// Read::read_exact into a part of an array
#[verifier::external_body]
pub fn read_part<T: BufRead, const N: usize>(reader: &mut T, buf: &mut [u8; N], from: usize, to: usize) -> (r: Result<(), Error>)
    requires from <= to <= N
    ensures r is Ok ==> old(reader).rest().len() >= to - from && taken(*old(reader), *final(reader), to - from)
            && final(buf)@ == old(buf)@.take(from as int) + old(reader).rest().take(to - from) + old(buf)@.skip(to as int),
        T::moved(*old(reader), *final(reader)),
        old(reader).sound() ==> r is Ok == (old(reader).rest().len() >= to - from), old(reader).sound() ==> (r matches Err(e) ==> eof(e))
{ unimplemented!() }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r <= a, r <= b, r == a || r == b { if a < b { a } else { b } }
}
