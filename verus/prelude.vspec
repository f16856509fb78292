@# The functions every generated Rust file begins with (C01)
@@ include common.vspec
@@ include wire.vspec
@@ include wirelemmas.vspec
@@ truncate u8
@@ methods
    trailing_zeros/0 ==> crate::wire::trailing_zeros($R)
@@ subst gen
    transmute::<i64, u64>\( ==> bits(
    transmute::<u64, i64>\( ==> signed(
    \bunsafe \{ ==> {
    (\w+)\.read_exact\(&mut crate::shim::slice\(&(\w+), (.*)\)\)\? ==> read_part(\1, &mut \2, \3)?
    (\w+)\.read_exact\(&mut (\w+)\[\.\.\]\) ==> read_part(\1, &mut \2, 0, 1)
    u64::from_le_bytes\( ==> from_le_bytes(
@@ module gen gen:prelude
use vstd::prelude::*;
use crate::wire::*;
use crate::wirelemmas::*;
@@ take zigzag_encode zigzag_decode varint_size_from_value varint_size_from_first_byte serialize_varint deserialize_varint field_header_size serialize_field_header deserialize_field_header skip finish
@@ endmodule
@@ fn gen::zigzag_encode ret r
    ensures r == zigzag(value)
@@ fn gen::zigzag_encode entry
    proof { lemma_zigzag(value); }
@@ fn gen::zigzag_decode ret r
    ensures value == zigzag(r)
@@ fn gen::zigzag_decode entry
    proof { lemma_zagzig(value); }
@@ fn gen::varint_size_from_value ret r
    ensures r == width(value)
@@ fn gen::varint_size_from_first_byte ret r
    ensures r == reach(first_byte)
@@ fn gen::serialize_varint ret r
    ensures r is Ok ==> final(writer).written() =~= old(writer).written() + encoded(value), final(writer).sound() == old(writer).sound(), old(writer).sound() ==> r is Ok
@@ fn gen::serialize_varint entry
    proof { lemma_put(value); }
@@ fn gen::deserialize_varint ret r
    ensures r matches Ok(v) ==> whole(old(reader).rest()) && v == decoded(old(reader).rest().take(reach(old(reader).rest()[0]))) && taken(*old(reader), *final(reader), reach(old(reader).rest()[0])),
        T::moved(*old(reader), *final(reader)),
        old(reader).sound() ==> r is Ok == whole(old(reader).rest()), old(reader).sound() ==> (r matches Err(e) ==> eof(e))
@@ fn gen::deserialize_varint entry
    proof { lemma_moved::<T>(); lemma_behind::<T>(); lemma_skips(); lemma_decode(reader.rest()); }
@@ fn gen::field_header_size ret r
    requires index < 0x4000_0000_0000_0000
    ensures r == header(index, payload_size, integer_encoded).len()
@@ fn gen::field_header_size entry
    proof { lemma_header(index, payload_size, integer_encoded); }
@@ fn gen::serialize_field_header ret r
    requires index < 0x4000_0000_0000_0000
    ensures r is Ok ==> final(writer).written() =~= old(writer).written() + header(index, payload_size, integer_encoded), final(writer).sound() == old(writer).sound(), old(writer).sound() ==> r is Ok
@@ fn gen::serialize_field_header entry
    proof { lemma_header(index, payload_size, integer_encoded); }
@@ fn gen::deserialize_field_header ret r
    ensures r matches Ok(h) ==> heading(old(reader).rest()) == Some((h.0, h.1, final(reader).rest())) && final(reader).rest().len() < old(reader).rest().len(),
        T::moved(*old(reader), *final(reader)),
        old(reader).sound() ==> r is Ok == heading(old(reader).rest()) is Some, old(reader).sound() ==> (r matches Err(e) ==> eof(e))
@@ fn gen::deserialize_field_header entry
    proof { lemma_moved::<T>(); lemma_behind::<T>(); lemma_skips(); lemma_modes(if whole(reader.rest()) { decoded(reader.rest().take(reach(reader.rest()[0]))) } else { 0 }); lemma_decode(reader.rest()); }
@@ fn gen::skip attr
    #[verifier::exec_allows_no_decreases_clause]
@@ fn gen::skip ret r
    ensures r is Ok ==> taken(*old(reader), *final(reader), amount as int),
        T::moved(*old(reader), *final(reader)),
        old(reader).sound() && old(reader).rest().len() >= amount ==> r is Ok
@@ fn gen::skip entry
    let ghost whole_amount = amount;
    proof { lemma_moved::<T>(); lemma_behind::<T>(); T::lemma_stays(*reader); }
@@ fn gen::skip loop 0 inv
    invariant amount <= whole_amount, taken(*old(reader), *reader, whole_amount - amount)
@@ fn gen::skip loop 0 start
    proof { lemma_moved::<T>(); lemma_behind::<T>(); }
@@ fn gen::finish ret r
    ensures r is Ok ==> final(reader).rest().len() == 0,
        T::moved(*old(reader), *final(reader)),
        old(reader).sound() ==> r is Ok
@@ fn gen::finish entry
    proof { lemma_moved::<T>(); lemma_behind::<T>(); T::lemma_stays(*reader); }
@@ fn gen::finish loop 0 inv
    invariant T::moved(*old(reader), *reader), reader.sound() == old(reader).sound()
    decreases reader.rest().len()
@@ fn gen::finish loop 0 start
    proof { lemma_moved::<T>(); lemma_behind::<T>(); }
@@ raw
} // verus!
fn main() {}
