@# The functions every generated TypeScript file begins with (C05)
@@ include common.vspec
@@ include wire.vspec
@@ include wirelemmas.vspec
@@ include js.vspec
@@ include tslemmas.vspec
@@ module ts gen:ts
use vstd::prelude::*;
use crate::wire::*;
use crate::wirelemmas::*;
use crate::js::*;
use crate::tslemmas::*;
// a view as long as JavaScript has them
pub open spec fn fair(v: &DataView) -> bool { v@.len() <= 0x1f_ffff_ffff_ff00 }
@@ take zigzag_encode zigzag_decode varint_size_from_value varint_size_from_first_byte serialize_varint deserialize_varint field_header_size serialize_field_header deserialize_field_header
@@ endmodule
@@ fn ts::zigzag_encode ret r
    requires -0x8000_0000_0000_0000 <= value@ < 0x8000_0000_0000_0000
    ensures r@ == zigzag(value@ as i64)
@@ fn ts::zigzag_decode ret r
    requires 0 <= value@ < 0x1_0000_0000_0000_0000
    ensures -0x8000_0000_0000_0000 <= r@ < 0x8000_0000_0000_0000, value@ == zigzag(r@ as i64)
@@ fn ts::varint_size_from_value ret r
    requires 0 <= value@ < 0x1_0000_0000_0000_0000
    ensures r == width(value@ as u64)
@@ fn ts::varint_size_from_first_byte ret r
    requires first_byte < 256
    ensures r == reach(first_byte as u8)
@@ fn ts::varint_size_from_first_byte entry
    let ghost all = first_byte as u8;
    proof { lemma_halved(all); }
@@ fn ts::varint_size_from_first_byte loop 0 inv
    invariant 0 <= trailing_zeros <= 8, zeros(all) >= trailing_zeros, first_byte == halved(all, trailing_zeros as int), first_byte < 256
    decreases 8 - trailing_zeros
@@ fn ts::varint_size_from_first_byte loop 0 start
    proof { lemma_halved(all); assert(zeros(all) >= trailing_zeros + 1); }
@@ fn ts::varint_size_from_first_byte loop 0 post
    proof { lemma_halved(all); assert(halved(all, trailing_zeros as int) % 2 == 1 || trailing_zeros == 8); }
@@ fn ts::serialize_varint ret r
    requires 0 <= value@ < 0x1_0000_0000_0000_0000, offset + width(value@ as u64) <= old(data_view)@.len(), fair(old(data_view))
    ensures final(data_view)@ =~= put(old(data_view)@, offset as int, encoded(value@ as u64)), r == offset + width(value@ as u64)
@@ fn ts::serialize_varint entry
    proof { lemma_ts_put(value@ as u64); lemma_puts(); }
@@ fn ts::deserialize_varint ret r
    requires fair(data_view)
    ensures r is Ok == (offset <= data_view@.len() && whole(data_view@.skip(offset as int))),
        r matches Ok(x) ==> x.0 == offset + reach(data_view@[offset as int]) && x.1@ == decoded(data_view@.skip(offset as int).take(reach(data_view@[offset as int]))) && x.0 <= data_view@.len(),
        r matches Err(e) ==> e is Range
@@ fn ts::deserialize_varint entry
    proof {
        let s = if offset <= data_view@.len() { data_view@.skip(offset as int) } else { Seq::empty() };
        lemma_decode(s); lemma_ts_octet();
        if whole(s) { lemma_ts_get(s[0], value(s.take(reach(s[0])).skip(1))); if reach(s[0]) <= 8 { lemma_ts_small(s); } }
    }
@@ fn ts::deserialize_varint loop 0 inv
    invariant 0 <= i <= size_minus_one <= 8, offset + 1 + i <= data_view@.len(), fair(data_view), offset_plus_one == offset + 1, size_minus_one == reach(data_view@[offset as int]) - 1,
        holds(data_view64@, data_view@.skip(offset as int).skip(1), i as int), data_view@.skip(offset as int)[0] == data_view@[offset as int]
    decreases size_minus_one - i
@@ fn ts::deserialize_varint loop 0 start
    proof { assert(0 <= octet(data_view@[offset as int + 1 + i] as u64, 0)); lemma_ts_octet(); }
@@ fn ts::deserialize_varint loop 0 post
    proof { assert(data_view64@.subrange(0, 8) =~= data_view64@); assert(holds(data_view64@, data_view@.skip(offset as int).skip(1), reach(data_view@[offset as int]) - 1)); }
@@ fn ts::field_header_size ret r
    requires 0 <= index@ < 0x4000_0000_0000_0000
    ensures r == header(index@ as u64, payload_size as usize, integer_encoded).len()
@@ fn ts::field_header_size entry
    proof { lemma_header(index@ as u64, payload_size as usize, integer_encoded); }
@@ fn ts::serialize_field_header ret r
    requires 0 <= index@ < 0x4000_0000_0000_0000, offset + header(index@ as u64, payload_size as usize, integer_encoded).len() <= old(data_view)@.len(), fair(old(data_view))
    ensures final(data_view)@ =~= put(old(data_view)@, offset as int, header(index@ as u64, payload_size as usize, integer_encoded)),
        r == offset + header(index@ as u64, payload_size as usize, integer_encoded).len()
@@ fn ts::serialize_field_header entry
    proof { lemma_header(index@ as u64, payload_size as usize, integer_encoded); }
@@ fn ts::deserialize_field_header ret r
    requires fair(data_view)
    ensures r is Ok == (offset <= data_view@.len() && heading(data_view@.skip(offset as int)) is Some),
        r matches Ok(x) ==> { let h = heading(data_view@.skip(offset as int))->Some_0; x.1@ == h.0 && offset < x.0 <= data_view@.len() && data_view@.skip(x.0 as int) == h.2 && (h.1 <= EXACT ==> x.2 == h.1) && (h.1 > EXACT ==> x.2 >= EXACT) },
        r matches Err(e) ==> e is Range
@@ fn ts::deserialize_field_header entry
    proof { lemma_skips(); let s = if offset <= data_view@.len() { data_view@.skip(offset as int) } else { Seq::empty() }; lemma_decode(s); if whole(s) { lemma_ts_tag(decoded(s.take(reach(s[0])))); lemma_decode(s.skip(reach(s[0]))); } }
@@ raw
} // verus!
fn main() {}
