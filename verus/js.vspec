@# JavaScript numbers, bigints, buffers and views, as ECMAScript has them (C05)
@@ raw
pub mod js {
use vstd::prelude::*;
use crate::wire::*;
// ---- bigint ----------------------------------------------------------------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Big { p: u8 }
impl View for Big { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
pub fn big(n: u128) -> (r: Big) ensures r@ == n { unimplemented!() }
#[verifier::external_body]
pub fn big_of(n: u64) -> (r: Big) ensures r@ == n { unimplemented!() }
#[verifier::external_body]
pub fn sum(a: Big, b: Big) -> (r: Big) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn difference(a: Big, b: Big) -> (r: Big) ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body]
pub fn neg(a: Big) -> (r: Big) ensures r@ == -a@ { unimplemented!() }
// a << k with n == 2^k
#[verifier::external_body]
pub fn times(a: Big, n: u128) -> (r: Big) ensures r@ == a@ * n { unimplemented!() }
// a >> k with n == 2^k: rounds down
#[verifier::external_body]
pub fn over(a: Big, n: u128) -> (r: Big) requires n > 0 ensures r@ == a@ / n as int { unimplemented!() }
#[verifier::external_body]
pub fn rem(a: Big, n: u128) -> (r: Big) requires n > 0, a@ >= 0 ensures r@ == a@ % n as int { unimplemented!() }
// a & (n - 1) with n a power of two, in two's complement
#[verifier::external_body]
pub fn low(a: Big, n: u128) -> (r: Big) requires n > 0 ensures r@ == a@ % n as int { unimplemented!() }
// a | c with p the power of two above c
#[verifier::external_body]
pub fn or(a: Big, c: u128, p: u128) -> (r: Big) requires p > c, a@ >= 0 ensures a@ % p as int == 0 ==> r@ == a@ + c { unimplemented!() }
impl Big {
    #[verifier::external_body]
    pub fn lt(self, b: Big) -> (r: bool) ensures r == (self@ < b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn le(self, b: Big) -> (r: bool) ensures r == (self@ <= b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn gt(self, b: Big) -> (r: bool) ensures r == (self@ > b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ge(self, b: Big) -> (r: bool) ensures r == (self@ >= b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn eq(self, b: Big) -> (r: bool) ensures r == (self@ == b@) { unimplemented!() }
}
// ---- number: an integer, exact up to 2^53 -----------------------------------------------------------------
pub spec const EXACT: int = 0x20_0000_0000_0000;
#[verifier::external_body]
pub fn number(a: Big) -> (r: u64) requires a@ >= 0 ensures a@ <= EXACT ==> r == a@, a@ > EXACT ==> r >= EXACT { unimplemented!() }
pub fn plus(a: u64, b: u64) -> (r: u64) requires a + b <= EXACT ensures r == a + b { a + b }
pub fn minus(a: u64, b: u64) -> (r: u64) requires b <= a <= EXACT ensures r == a - b { a - b }
#[verifier::external_body]
pub fn product(a: u64, b: u64) -> (r: u64) requires a * b <= EXACT ensures r == a * b { a * b }
// the 32-bit operators
#[verifier::external_body]
pub fn shr(a: u64, n: u64) -> (r: u64) requires a < 0x8000_0000, n > 0 ensures r == a / n { unimplemented!() }
#[verifier::external_body]
pub fn low_number(a: u64, n: u64) -> (r: u64) requires a < 0x8000_0000, n > 0 ensures r == a % n { unimplemented!() }
#[verifier::external_body]
pub fn or_number(a: u64, c: u64, p: u64) -> (r: u64) requires a < 0x8000_0000, c < p ensures a % p == 0 ==> r == a + c { unimplemented!() }
// ---- objects ------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn share<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn unreachable<T>() -> T requires false { unimplemented!() }
// ---- buffers and views ---------------------------------------------------------------------------------------
pub enum Thrown { Range, Other }
// s with the bytes from at replaced
pub open spec fn put(s: Seq<u8>, at: int, b: Seq<u8>) -> Seq<u8> { s.take(at) + b + s.skip(at + b.len()) }
pub struct ArrayBuffer { pub b: Vec<u8> }
impl View for ArrayBuffer { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.b@ } }
impl ArrayBuffer {
    #[verifier::external_body]
    pub fn new(n: u64) -> (r: ArrayBuffer) requires n <= EXACT ensures r@.len() == n { unimplemented!() }
}
#[verifier::external_body]
pub struct DataView { p: u8 }
impl View for DataView { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
// eight bytes that may hold anything
#[verifier::external_body]
pub fn scratch() -> (r: DataView) ensures r@.len() == 8 { unimplemented!() }
impl DataView {
    #[verifier::external_body]
    pub fn of(b: ArrayBuffer) -> (r: DataView) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn buffer(self) -> (r: ArrayBuffer) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn set_uint8(&mut self, at: u64, v: u64) requires at + 1 <= old(self)@.len() ensures final(self)@ == put(old(self)@, at as int, octets(v, 1)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_uint16(&mut self, at: u64, v: u64) requires at + 2 <= old(self)@.len(), v <= EXACT ensures final(self)@ == put(old(self)@, at as int, octets(v, 2)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_uint32(&mut self, at: u64, v: u64) requires at + 4 <= old(self)@.len(), v <= EXACT ensures final(self)@ == put(old(self)@, at as int, octets(v, 4)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_big_uint64(&mut self, at: u64, v: Big) requires at + 8 <= old(self)@.len(), 0 <= v@ < 0x1_0000_0000_0000_0000 ensures final(self)@ == put(old(self)@, at as int, octets(v@ as u64, 8)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_uint8(&self, at: u64) -> (r: Result<u64, Thrown>) ensures r is Ok == (at < self@.len()), r matches Ok(x) ==> x == self@[at as int], r matches Err(e) ==> e is Range { unimplemented!() }
    #[verifier::external_body]
    pub fn get_big_uint64(&self, at: u64) -> (r: Result<Big, Thrown>) ensures r is Ok == (at + 8 <= self@.len()), r matches Ok(x) ==> x@ == value(self@.subrange(at as int, at + 8)), r matches Err(e) ==> e is Range { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_big_uint64(&self, at: u64) -> (r: Big) requires at + 8 <= self@.len() ensures r@ == value(self@.subrange(at as int, at + 8)) { unimplemented!() }
}
}
