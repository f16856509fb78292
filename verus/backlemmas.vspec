@# What is written is read back (C02, C03): values of the primitive types, fields and elements
@@ raw
pub mod back {
use vstd::prelude::*;
use crate::wire::*;
use crate::wirelemmas::*;
use crate::msg::*;
// UTF-8: the bytes of a string are those of no other
#[verifier::external_body]
pub proof fn axiom_text() ensures forall|s: Seq<char>| #[trigger] text_of(utf8(s)) == Some(s) { }
#[verifier::external_body]
pub proof fn axiom_length<T>(v: Vec<T>) ensures v@.len() <= usize::MAX { }
pub proof fn back_le(x: u64) ensures value(le8(x)) == x, le8(x).len() == 8 { lemma_back_9(x); }
pub proof fn back_ge(n: u64, t: Seq<u8>) ensures ge_u64(encoded(n) + t) == Got::Is(n, encoded(n).len() as int), 1 <= encoded(n).len() <= 9 { lemma_round_trip(n, t); }
pub proof fn back_ge8(x: u64, t: Seq<u8>) ensures ge_f64(le8(x) + t) == Got::Is(x, 8), le8(x).len() == 8, (le8(x) + t).skip(8) == t { back_le(x); assert((le8(x) + t).take(8) =~= le8(x)); assert((le8(x) + t).skip(8) =~= t); }
pub proof fn back_int(n: u64)
    ensures f_u64(n).len() <= 8, gf_u64(f_u64(n).len() as usize, f_u64(n)) == Got::Is(n, f_u64(n).len() as int),
        f_u64(n).len() == 0 || f_u64(n).len() == 8 || reach(f_u64(n)[0]) == f_u64(n).len()
{
    if n == 0 { } else if n < 567_382_630_219_904 { lemma_round_trip(n, Seq::empty()); assert(encoded(n) + Seq::<u8>::empty() =~= encoded(n)); back_ge(n, Seq::empty()); }
    else { back_le(n); assert(le8(n).take(8) =~= le8(n)); }
}
pub proof fn back_float(x: u64) ensures f_f64(x).len() <= 8, gf_f64(f_f64(x).len() as usize, f_f64(x)) == Got::Is(x, f_f64(x).len() as int) { if x != 0 { back_le(x); assert(le8(x).take(8) =~= le8(x)); } }
pub proof fn back_one(i: u64, v: bool, p: Seq<u8>, t: Seq<u8>)
    requires i < 0x4000_0000_0000_0000, p.len() <= usize::MAX, v ==> p.len() == 0 || p.len() == 8 || reach(p[0]) == p.len()
    ensures heading(one(i, v, p) + t) == Some((i, p.len() as usize, p + t)), bounded(p + t, p.len() as usize) == p, (p + t).skip(p.len() as int) == t, (p + t).len() < (one(i, v, p) + t).len(), p.len() <= (p + t).len()
{
    let size = p.len() as usize;
    assert(one(i, v, p) + t =~= header(i, size, v) + (p + t));
    if mode(size, v) == 2 { assert((p + t)[0] == p[0]); }
    lemma_heading(i, size, v, p + t);
    lemma_header(i, size, v);
    assert((p + t).take(size as int) =~= p);
    assert((p + t).skip(size as int) =~= t);
}
pub proof fn back_item(e: Seq<u8>, t: Seq<u8>)
    requires e.len() <= usize::MAX
    ensures whole(item(e) + t), decoded((item(e) + t).take(reach((item(e) + t)[0]))) as usize == e.len(), (item(e) + t).skip(reach((item(e) + t)[0])) == e + t, bounded(e + t, e.len() as usize) == e, (e + t).skip(e.len() as int) == t,
        (item(e) + t).len() > (e + t).len()
{
    assert(item(e) + t =~= encoded(e.len() as u64) + (e + t));
    lemma_round_trip(e.len() as u64, e + t);
    assert((e + t).take(e.len() as int) =~= e);
    assert((e + t).skip(e.len() as int) =~= t);
}
pub proof fn at_end() ensures heading(Seq::<u8>::empty()) is None { }
// these are in the text of every unit, so that they can be hidden there
pub open spec fn same<T>(x: T) -> bool { x == x }
pub proof fn mention() ensures same(item(Seq::empty())), same(encoded(0)), same(le8(0)), same(whole(Seq::empty())), same(decoded(Seq::empty())), same(bounded(Seq::empty(), 0)), same(heading(Seq::empty())), same(header(0, 0, true)), same(f_u64(0)), same(gf_u64(0, Seq::empty())), same(f_f64(0)), same(gf_f64(0, Seq::empty())) { }
}
