@# Arithmetic behind the variable-width encoding (C01)
@@ raw
pub mod wirelemmas {
use vstd::prelude::*;
use crate::wire::*;
// what the arms of the encoder write
pub proof fn lemma_put_1(w: u64)
    requires w < 128
    ensures octet(packed(w, 1), 0) == ((w << 1u32) as u8) | 1u8
{
    assert((((w << 1u64) | (1u64 << 0u64)) >> 0u64) as u8 == (((w << 1u32) as u8) | 1u8)) by (bit_vector) requires w < 128u64;
}
pub proof fn lemma_put_2(w: u64)
    requires w < 16384
    ensures octet(packed(w, 2), 0) == ((w << 2u32) as u8) | 2u8, octet(packed(w, 2), 1) == (w >> 6u32) as u8
{
    assert((((w << 2u64) | (1u64 << 1u64)) >> 0u64) as u8 == (((w << 2u32) as u8) | 2u8)) by (bit_vector) requires w < 16384u64;
    assert((((w << 2u64) | (1u64 << 1u64)) >> 8u64) as u8 == ((w >> 6u32) as u8)) by (bit_vector) requires w < 16384u64;
}
pub proof fn lemma_put_3(w: u64)
    requires w < 2097152
    ensures octet(packed(w, 3), 0) == ((w << 3u32) as u8) | 4u8, octet(packed(w, 3), 1) == (w >> 5u32) as u8, octet(packed(w, 3), 2) == (w >> 13u32) as u8
{
    assert((((w << 3u64) | (1u64 << 2u64)) >> 0u64) as u8 == (((w << 3u32) as u8) | 4u8)) by (bit_vector) requires w < 2097152u64;
    assert((((w << 3u64) | (1u64 << 2u64)) >> 8u64) as u8 == ((w >> 5u32) as u8)) by (bit_vector) requires w < 2097152u64;
    assert((((w << 3u64) | (1u64 << 2u64)) >> 16u64) as u8 == ((w >> 13u32) as u8)) by (bit_vector) requires w < 2097152u64;
}
pub proof fn lemma_put_4(w: u64)
    requires w < 268435456
    ensures octet(packed(w, 4), 0) == ((w << 4u32) as u8) | 8u8, octet(packed(w, 4), 1) == (w >> 4u32) as u8, octet(packed(w, 4), 2) == (w >> 12u32) as u8, octet(packed(w, 4), 3) == (w >> 20u32) as u8
{
    assert((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8 == (((w << 4u32) as u8) | 8u8)) by (bit_vector) requires w < 268435456u64;
    assert((((w << 4u64) | (1u64 << 3u64)) >> 8u64) as u8 == ((w >> 4u32) as u8)) by (bit_vector) requires w < 268435456u64;
    assert((((w << 4u64) | (1u64 << 3u64)) >> 16u64) as u8 == ((w >> 12u32) as u8)) by (bit_vector) requires w < 268435456u64;
    assert((((w << 4u64) | (1u64 << 3u64)) >> 24u64) as u8 == ((w >> 20u32) as u8)) by (bit_vector) requires w < 268435456u64;
}
pub proof fn lemma_put_5(w: u64)
    requires w < 34359738368
    ensures octet(packed(w, 5), 0) == ((w << 5u32) as u8) | 16u8, octet(packed(w, 5), 1) == (w >> 3u32) as u8, octet(packed(w, 5), 2) == (w >> 11u32) as u8, octet(packed(w, 5), 3) == (w >> 19u32) as u8, octet(packed(w, 5), 4) == (w >> 27u32) as u8
{
    assert((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8 == (((w << 5u32) as u8) | 16u8)) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 8u64) as u8 == ((w >> 3u32) as u8)) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 16u64) as u8 == ((w >> 11u32) as u8)) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 24u64) as u8 == ((w >> 19u32) as u8)) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 32u64) as u8 == ((w >> 27u32) as u8)) by (bit_vector) requires w < 34359738368u64;
}
pub proof fn lemma_put_6(w: u64)
    requires w < 4398046511104
    ensures octet(packed(w, 6), 0) == ((w << 6u32) as u8) | 32u8, octet(packed(w, 6), 1) == (w >> 2u32) as u8, octet(packed(w, 6), 2) == (w >> 10u32) as u8, octet(packed(w, 6), 3) == (w >> 18u32) as u8, octet(packed(w, 6), 4) == (w >> 26u32) as u8, octet(packed(w, 6), 5) == (w >> 34u32) as u8
{
    assert((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8 == (((w << 6u32) as u8) | 32u8)) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 8u64) as u8 == ((w >> 2u32) as u8)) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 16u64) as u8 == ((w >> 10u32) as u8)) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 24u64) as u8 == ((w >> 18u32) as u8)) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 32u64) as u8 == ((w >> 26u32) as u8)) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 40u64) as u8 == ((w >> 34u32) as u8)) by (bit_vector) requires w < 4398046511104u64;
}
pub proof fn lemma_put_7(w: u64)
    requires w < 562949953421312
    ensures octet(packed(w, 7), 0) == ((w << 7u32) as u8) | 64u8, octet(packed(w, 7), 1) == (w >> 1u32) as u8, octet(packed(w, 7), 2) == (w >> 9u32) as u8, octet(packed(w, 7), 3) == (w >> 17u32) as u8, octet(packed(w, 7), 4) == (w >> 25u32) as u8, octet(packed(w, 7), 5) == (w >> 33u32) as u8, octet(packed(w, 7), 6) == (w >> 41u32) as u8
{
    assert((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8 == (((w << 7u32) as u8) | 64u8)) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 8u64) as u8 == ((w >> 1u32) as u8)) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 16u64) as u8 == ((w >> 9u32) as u8)) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 24u64) as u8 == ((w >> 17u32) as u8)) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 32u64) as u8 == ((w >> 25u32) as u8)) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 40u64) as u8 == ((w >> 33u32) as u8)) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 48u64) as u8 == ((w >> 41u32) as u8)) by (bit_vector) requires w < 562949953421312u64;
}
pub proof fn lemma_put_8(w: u64)
    requires w < 72057594037927936
    ensures octet(packed(w, 8), 0) == 128u8, octet(packed(w, 8), 1) == w as u8, octet(packed(w, 8), 2) == (w >> 8u32) as u8, octet(packed(w, 8), 3) == (w >> 16u32) as u8, octet(packed(w, 8), 4) == (w >> 24u32) as u8, octet(packed(w, 8), 5) == (w >> 32u32) as u8, octet(packed(w, 8), 6) == (w >> 40u32) as u8, octet(packed(w, 8), 7) == (w >> 48u32) as u8
{
    assert((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8 == (128u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 8u64) as u8 == (w as u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 16u64) as u8 == ((w >> 8u32) as u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 24u64) as u8 == ((w >> 16u32) as u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 32u64) as u8 == ((w >> 24u32) as u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 40u64) as u8 == ((w >> 32u32) as u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 48u64) as u8 == ((w >> 40u32) as u8)) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 56u64) as u8 == ((w >> 48u32) as u8)) by (bit_vector) requires w < 72057594037927936u64;
}
pub proof fn lemma_put_9(w: u64)
    ensures octet(w, 0) == w as u8, octet(w, 1) == (w >> 8u32) as u8, octet(w, 2) == (w >> 16u32) as u8, octet(w, 3) == (w >> 24u32) as u8, octet(w, 4) == (w >> 32u32) as u8, octet(w, 5) == (w >> 40u32) as u8, octet(w, 6) == (w >> 48u32) as u8, octet(w, 7) == (w >> 56u32) as u8
{
    assert((w >> 0u64) as u8 == (w as u8)) by (bit_vector);
    assert((w >> 8u64) as u8 == ((w >> 8u32) as u8)) by (bit_vector);
    assert((w >> 16u64) as u8 == ((w >> 16u32) as u8)) by (bit_vector);
    assert((w >> 24u64) as u8 == ((w >> 24u32) as u8)) by (bit_vector);
    assert((w >> 32u64) as u8 == ((w >> 32u32) as u8)) by (bit_vector);
    assert((w >> 40u64) as u8 == ((w >> 40u32) as u8)) by (bit_vector);
    assert((w >> 48u64) as u8 == ((w >> 48u32) as u8)) by (bit_vector);
    assert((w >> 56u64) as u8 == ((w >> 56u32) as u8)) by (bit_vector);
}
pub proof fn lemma_put(n: u64)
    ensures width(n) == 1 ==> { let w = (n - base(1)) as u64; octet(packed(w, 1), 0) == (((w << 1u32) as u8) | 1u8) },
        width(n) == 2 ==> { let w = (n - base(2)) as u64; octet(packed(w, 2), 0) == (((w << 2u32) as u8) | 2u8) && octet(packed(w, 2), 1) == ((w >> 6u32) as u8) },
        width(n) == 3 ==> { let w = (n - base(3)) as u64; octet(packed(w, 3), 0) == (((w << 3u32) as u8) | 4u8) && octet(packed(w, 3), 1) == ((w >> 5u32) as u8) && octet(packed(w, 3), 2) == ((w >> 13u32) as u8) },
        width(n) == 4 ==> { let w = (n - base(4)) as u64; octet(packed(w, 4), 0) == (((w << 4u32) as u8) | 8u8) && octet(packed(w, 4), 1) == ((w >> 4u32) as u8) && octet(packed(w, 4), 2) == ((w >> 12u32) as u8) && octet(packed(w, 4), 3) == ((w >> 20u32) as u8) },
        width(n) == 5 ==> { let w = (n - base(5)) as u64; octet(packed(w, 5), 0) == (((w << 5u32) as u8) | 16u8) && octet(packed(w, 5), 1) == ((w >> 3u32) as u8) && octet(packed(w, 5), 2) == ((w >> 11u32) as u8) && octet(packed(w, 5), 3) == ((w >> 19u32) as u8) && octet(packed(w, 5), 4) == ((w >> 27u32) as u8) },
        width(n) == 6 ==> { let w = (n - base(6)) as u64; octet(packed(w, 6), 0) == (((w << 6u32) as u8) | 32u8) && octet(packed(w, 6), 1) == ((w >> 2u32) as u8) && octet(packed(w, 6), 2) == ((w >> 10u32) as u8) && octet(packed(w, 6), 3) == ((w >> 18u32) as u8) && octet(packed(w, 6), 4) == ((w >> 26u32) as u8) && octet(packed(w, 6), 5) == ((w >> 34u32) as u8) },
        width(n) == 7 ==> { let w = (n - base(7)) as u64; octet(packed(w, 7), 0) == (((w << 7u32) as u8) | 64u8) && octet(packed(w, 7), 1) == ((w >> 1u32) as u8) && octet(packed(w, 7), 2) == ((w >> 9u32) as u8) && octet(packed(w, 7), 3) == ((w >> 17u32) as u8) && octet(packed(w, 7), 4) == ((w >> 25u32) as u8) && octet(packed(w, 7), 5) == ((w >> 33u32) as u8) && octet(packed(w, 7), 6) == ((w >> 41u32) as u8) },
        width(n) == 8 ==> { let w = (n - base(8)) as u64; octet(packed(w, 8), 0) == (128u8) && octet(packed(w, 8), 1) == (w as u8) && octet(packed(w, 8), 2) == ((w >> 8u32) as u8) && octet(packed(w, 8), 3) == ((w >> 16u32) as u8) && octet(packed(w, 8), 4) == ((w >> 24u32) as u8) && octet(packed(w, 8), 5) == ((w >> 32u32) as u8) && octet(packed(w, 8), 6) == ((w >> 40u32) as u8) && octet(packed(w, 8), 7) == ((w >> 48u32) as u8) },
        width(n) == 9 ==> { let w = (n - base(9)) as u64; octet(w, 0) == (w as u8) && octet(w, 1) == ((w >> 8u32) as u8) && octet(w, 2) == ((w >> 16u32) as u8) && octet(w, 3) == ((w >> 24u32) as u8) && octet(w, 4) == ((w >> 32u32) as u8) && octet(w, 5) == ((w >> 40u32) as u8) && octet(w, 6) == ((w >> 48u32) as u8) && octet(w, 7) == ((w >> 56u32) as u8) }
{
    if width(n) == 1 { lemma_put_1((n - base(1)) as u64); }
    if width(n) == 2 { lemma_put_2((n - base(2)) as u64); }
    if width(n) == 3 { lemma_put_3((n - base(3)) as u64); }
    if width(n) == 4 { lemma_put_4((n - base(4)) as u64); }
    if width(n) == 5 { lemma_put_5((n - base(5)) as u64); }
    if width(n) == 6 { lemma_put_6((n - base(6)) as u64); }
    if width(n) == 7 { lemma_put_7((n - base(7)) as u64); }
    if width(n) == 8 { lemma_put_8((n - base(8)) as u64); }
    if width(n) == 9 { lemma_put_9((n - base(9)) as u64); }
}
// what the arms of the decoder compute: first byte b, value r of the further bytes (k - 1 of them)
pub proof fn lemma_get_1(b: u8, r: u64)
    requires r < 1
    ensures ((b as u64) | (r << 8u64)) >> 1u64 == ((b >> 1u32) as u64) + (r << 7u32), ((b >> 1u32) as u64) + (r << 7u32) < 256
{
    assert(((b as u64) | (r << 8u64)) >> 1u64 == add((b >> 1u32) as u64, r << 7u32)) by (bit_vector) requires r < 1u64;
    assert(((b >> 1u32) as u64) < 128u64 && (r << 7u32) < 1u64) by (bit_vector) requires r < 1u64;
}
pub proof fn lemma_get_2(b: u8, r: u64)
    requires r < 256
    ensures ((b as u64) | (r << 8u64)) >> 2u64 == ((b >> 2u32) as u64) + (r << 6u32), ((b >> 2u32) as u64) + (r << 6u32) < 16448
{
    assert(((b as u64) | (r << 8u64)) >> 2u64 == add((b >> 2u32) as u64, r << 6u32)) by (bit_vector) requires r < 256u64;
    assert(((b >> 2u32) as u64) < 64u64 && (r << 6u32) < 16384u64) by (bit_vector) requires r < 256u64;
}
pub proof fn lemma_get_3(b: u8, r: u64)
    requires r < 65536
    ensures ((b as u64) | (r << 8u64)) >> 3u64 == ((b >> 3u32) as u64) + (r << 5u32), ((b >> 3u32) as u64) + (r << 5u32) < 2097184
{
    assert(((b as u64) | (r << 8u64)) >> 3u64 == add((b >> 3u32) as u64, r << 5u32)) by (bit_vector) requires r < 65536u64;
    assert(((b >> 3u32) as u64) < 32u64 && (r << 5u32) < 2097152u64) by (bit_vector) requires r < 65536u64;
}
pub proof fn lemma_get_4(b: u8, r: u64)
    requires r < 16777216
    ensures ((b as u64) | (r << 8u64)) >> 4u64 == ((b >> 4u32) as u64) + (r << 4u32), ((b >> 4u32) as u64) + (r << 4u32) < 268435472
{
    assert(((b as u64) | (r << 8u64)) >> 4u64 == add((b >> 4u32) as u64, r << 4u32)) by (bit_vector) requires r < 16777216u64;
    assert(((b >> 4u32) as u64) < 16u64 && (r << 4u32) < 268435456u64) by (bit_vector) requires r < 16777216u64;
}
pub proof fn lemma_get_5(b: u8, r: u64)
    requires r < 4294967296
    ensures ((b as u64) | (r << 8u64)) >> 5u64 == ((b >> 5u32) as u64) + (r << 3u32), ((b >> 5u32) as u64) + (r << 3u32) < 34359738376
{
    assert(((b as u64) | (r << 8u64)) >> 5u64 == add((b >> 5u32) as u64, r << 3u32)) by (bit_vector) requires r < 4294967296u64;
    assert(((b >> 5u32) as u64) < 8u64 && (r << 3u32) < 34359738368u64) by (bit_vector) requires r < 4294967296u64;
}
pub proof fn lemma_get_6(b: u8, r: u64)
    requires r < 1099511627776
    ensures ((b as u64) | (r << 8u64)) >> 6u64 == ((b >> 6u32) as u64) + (r << 2u32), ((b >> 6u32) as u64) + (r << 2u32) < 4398046511108
{
    assert(((b as u64) | (r << 8u64)) >> 6u64 == add((b >> 6u32) as u64, r << 2u32)) by (bit_vector) requires r < 1099511627776u64;
    assert(((b >> 6u32) as u64) < 4u64 && (r << 2u32) < 4398046511104u64) by (bit_vector) requires r < 1099511627776u64;
}
pub proof fn lemma_get_7(b: u8, r: u64)
    requires r < 281474976710656
    ensures ((b as u64) | (r << 8u64)) >> 7u64 == ((b >> 7u32) as u64) + (r << 1u32), ((b >> 7u32) as u64) + (r << 1u32) < 562949953421314
{
    assert(((b as u64) | (r << 8u64)) >> 7u64 == add((b >> 7u32) as u64, r << 1u32)) by (bit_vector) requires r < 281474976710656u64;
    assert(((b >> 7u32) as u64) < 2u64 && (r << 1u32) < 562949953421312u64) by (bit_vector) requires r < 281474976710656u64;
}
pub proof fn lemma_get_8(b: u8, r: u64)
    requires r < 72057594037927936
    ensures ((b as u64) | (r << 8u64)) >> 8u64 == r
{
    assert(((b as u64) | (r << 8u64)) >> 8u64 == r) by (bit_vector) requires r < 72057594037927936u64;
}
// ---- bytes and values
pub open spec fn join8(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, h: u64) -> u64 { a | (b << 8) | (c << 16) | (d << 24) | (e << 32) | (f << 40) | (g << 48) | (h << 56) }
pub proof fn lemma_join(x: u64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64)
    ensures join8(x, a, b, c, d, e, f, g) == x | (join8(a, b, c, d, e, f, g, 0) << 8u64)
{
    assert((x | (a << 8u64) | (b << 16u64) | (c << 24u64) | (d << 32u64) | (e << 40u64) | (f << 48u64) | (g << 56u64))
        == x | ((a | (b << 8u64) | (c << 16u64) | (d << 24u64) | (e << 32u64) | (f << 40u64) | (g << 48u64) | (0u64 << 56u64)) << 8u64)) by (bit_vector);
}
pub proof fn lemma_bound_1(a: u64)
    requires a < 256
    ensures join8(a, 0, 0, 0, 0, 0, 0, 0) < 256
{
    assert((a | (0u64 << 8u64) | (0u64 << 16u64) | (0u64 << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) < 256u64) by (bit_vector) requires a < 256;
}
pub proof fn lemma_bound_2(a: u64, b: u64)
    requires a < 256 && b < 256
    ensures join8(a, b, 0, 0, 0, 0, 0, 0) < 65536
{
    assert((a | (b << 8u64) | (0u64 << 16u64) | (0u64 << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) < 65536u64) by (bit_vector) requires a < 256, b < 256;
}
pub proof fn lemma_bound_3(a: u64, b: u64, c: u64)
    requires a < 256 && b < 256 && c < 256
    ensures join8(a, b, c, 0, 0, 0, 0, 0) < 16777216
{
    assert((a | (b << 8u64) | (c << 16u64) | (0u64 << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) < 16777216u64) by (bit_vector) requires a < 256, b < 256, c < 256;
}
pub proof fn lemma_bound_4(a: u64, b: u64, c: u64, d: u64)
    requires a < 256 && b < 256 && c < 256 && d < 256
    ensures join8(a, b, c, d, 0, 0, 0, 0) < 4294967296
{
    assert((a | (b << 8u64) | (c << 16u64) | (d << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) < 4294967296u64) by (bit_vector) requires a < 256, b < 256, c < 256, d < 256;
}
pub proof fn lemma_bound_5(a: u64, b: u64, c: u64, d: u64, e: u64)
    requires a < 256 && b < 256 && c < 256 && d < 256 && e < 256
    ensures join8(a, b, c, d, e, 0, 0, 0) < 1099511627776
{
    assert((a | (b << 8u64) | (c << 16u64) | (d << 24u64) | (e << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) < 1099511627776u64) by (bit_vector) requires a < 256, b < 256, c < 256, d < 256, e < 256;
}
pub proof fn lemma_bound_6(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64)
    requires a < 256 && b < 256 && c < 256 && d < 256 && e < 256 && f < 256
    ensures join8(a, b, c, d, e, f, 0, 0) < 281474976710656
{
    assert((a | (b << 8u64) | (c << 16u64) | (d << 24u64) | (e << 32u64) | (f << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) < 281474976710656u64) by (bit_vector) requires a < 256, b < 256, c < 256, d < 256, e < 256, f < 256;
}
pub proof fn lemma_bound_7(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64)
    requires a < 256 && b < 256 && c < 256 && d < 256 && e < 256 && f < 256 && g < 256
    ensures join8(a, b, c, d, e, f, g, 0) < 72057594037927936
{
    assert((a | (b << 8u64) | (c << 16u64) | (d << 24u64) | (e << 32u64) | (f << 40u64) | (g << 48u64) | (0u64 << 56u64)) < 72057594037927936u64) by (bit_vector) requires a < 256, b < 256, c < 256, d < 256, e < 256, f < 256, g < 256;
}
pub proof fn lemma_back_1(w: u64)
    requires w < 128
    ensures ({ let x = packed(w, 1); join8(octet(x, 0) as u64, 0, 0, 0, 0, 0, 0, 0) >> 1u64 == w }), zeros(octet(packed(w, 1), 0)) == 0
{
    assert(((((((w << 1u64) | (1u64 << 0u64)) >> 0u64) as u8) as u64) | (0u64 << 8u64) | (0u64 << 16u64) | (0u64 << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) >> 1u64 == w) by (bit_vector) requires w < 128u64;
    assert(((((w << 1u64) | (1u64 << 0u64)) >> 0u64) as u8) & 1u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_2(w: u64)
    requires w < 16384
    ensures ({ let x = packed(w, 2); join8(octet(x, 0) as u64, octet(x, 1) as u64, 0, 0, 0, 0, 0, 0) >> 2u64 == w }), zeros(octet(packed(w, 2), 0)) == 1
{
    assert(((((((w << 2u64) | (1u64 << 1u64)) >> 0u64) as u8) as u64) | ((((((w << 2u64) | (1u64 << 1u64)) >> 8u64) as u8) as u64) << 8u64) | (0u64 << 16u64) | (0u64 << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) >> 2u64 == w) by (bit_vector) requires w < 16384u64;
    assert(((((w << 2u64) | (1u64 << 1u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 2u64) | (1u64 << 1u64)) >> 0u64) as u8) & 2u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_3(w: u64)
    requires w < 2097152
    ensures ({ let x = packed(w, 3); join8(octet(x, 0) as u64, octet(x, 1) as u64, octet(x, 2) as u64, 0, 0, 0, 0, 0) >> 3u64 == w }), zeros(octet(packed(w, 3), 0)) == 2
{
    assert(((((((w << 3u64) | (1u64 << 2u64)) >> 0u64) as u8) as u64) | ((((((w << 3u64) | (1u64 << 2u64)) >> 8u64) as u8) as u64) << 8u64) | ((((((w << 3u64) | (1u64 << 2u64)) >> 16u64) as u8) as u64) << 16u64) | (0u64 << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) >> 3u64 == w) by (bit_vector) requires w < 2097152u64;
    assert(((((w << 3u64) | (1u64 << 2u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 3u64) | (1u64 << 2u64)) >> 0u64) as u8) & 2u8 == 0u8) by (bit_vector);
    assert(((((w << 3u64) | (1u64 << 2u64)) >> 0u64) as u8) & 4u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_4(w: u64)
    requires w < 268435456
    ensures ({ let x = packed(w, 4); join8(octet(x, 0) as u64, octet(x, 1) as u64, octet(x, 2) as u64, octet(x, 3) as u64, 0, 0, 0, 0) >> 4u64 == w }), zeros(octet(packed(w, 4), 0)) == 3
{
    assert(((((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8) as u64) | ((((((w << 4u64) | (1u64 << 3u64)) >> 8u64) as u8) as u64) << 8u64) | ((((((w << 4u64) | (1u64 << 3u64)) >> 16u64) as u8) as u64) << 16u64) | ((((((w << 4u64) | (1u64 << 3u64)) >> 24u64) as u8) as u64) << 24u64) | (0u64 << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) >> 4u64 == w) by (bit_vector) requires w < 268435456u64;
    assert(((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8) & 2u8 == 0u8) by (bit_vector);
    assert(((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8) & 4u8 == 0u8) by (bit_vector);
    assert(((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8) & 8u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_5(w: u64)
    requires w < 34359738368
    ensures ({ let x = packed(w, 5); join8(octet(x, 0) as u64, octet(x, 1) as u64, octet(x, 2) as u64, octet(x, 3) as u64, octet(x, 4) as u64, 0, 0, 0) >> 5u64 == w }), zeros(octet(packed(w, 5), 0)) == 4
{
    assert(((((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8) as u64) | ((((((w << 5u64) | (1u64 << 4u64)) >> 8u64) as u8) as u64) << 8u64) | ((((((w << 5u64) | (1u64 << 4u64)) >> 16u64) as u8) as u64) << 16u64) | ((((((w << 5u64) | (1u64 << 4u64)) >> 24u64) as u8) as u64) << 24u64) | ((((((w << 5u64) | (1u64 << 4u64)) >> 32u64) as u8) as u64) << 32u64) | (0u64 << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) >> 5u64 == w) by (bit_vector) requires w < 34359738368u64;
    assert(((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8) & 2u8 == 0u8) by (bit_vector);
    assert(((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8) & 4u8 == 0u8) by (bit_vector);
    assert(((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8) & 8u8 == 0u8) by (bit_vector);
    assert(((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8) & 16u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_6(w: u64)
    requires w < 4398046511104
    ensures ({ let x = packed(w, 6); join8(octet(x, 0) as u64, octet(x, 1) as u64, octet(x, 2) as u64, octet(x, 3) as u64, octet(x, 4) as u64, octet(x, 5) as u64, 0, 0) >> 6u64 == w }), zeros(octet(packed(w, 6), 0)) == 5
{
    assert(((((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) as u64) | ((((((w << 6u64) | (1u64 << 5u64)) >> 8u64) as u8) as u64) << 8u64) | ((((((w << 6u64) | (1u64 << 5u64)) >> 16u64) as u8) as u64) << 16u64) | ((((((w << 6u64) | (1u64 << 5u64)) >> 24u64) as u8) as u64) << 24u64) | ((((((w << 6u64) | (1u64 << 5u64)) >> 32u64) as u8) as u64) << 32u64) | ((((((w << 6u64) | (1u64 << 5u64)) >> 40u64) as u8) as u64) << 40u64) | (0u64 << 48u64) | (0u64 << 56u64)) >> 6u64 == w) by (bit_vector) requires w < 4398046511104u64;
    assert(((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) & 2u8 == 0u8) by (bit_vector);
    assert(((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) & 4u8 == 0u8) by (bit_vector);
    assert(((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) & 8u8 == 0u8) by (bit_vector);
    assert(((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) & 16u8 == 0u8) by (bit_vector);
    assert(((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8) & 32u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_7(w: u64)
    requires w < 562949953421312
    ensures ({ let x = packed(w, 7); join8(octet(x, 0) as u64, octet(x, 1) as u64, octet(x, 2) as u64, octet(x, 3) as u64, octet(x, 4) as u64, octet(x, 5) as u64, octet(x, 6) as u64, 0) >> 7u64 == w }), zeros(octet(packed(w, 7), 0)) == 6
{
    assert(((((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) as u64) | ((((((w << 7u64) | (1u64 << 6u64)) >> 8u64) as u8) as u64) << 8u64) | ((((((w << 7u64) | (1u64 << 6u64)) >> 16u64) as u8) as u64) << 16u64) | ((((((w << 7u64) | (1u64 << 6u64)) >> 24u64) as u8) as u64) << 24u64) | ((((((w << 7u64) | (1u64 << 6u64)) >> 32u64) as u8) as u64) << 32u64) | ((((((w << 7u64) | (1u64 << 6u64)) >> 40u64) as u8) as u64) << 40u64) | ((((((w << 7u64) | (1u64 << 6u64)) >> 48u64) as u8) as u64) << 48u64) | (0u64 << 56u64)) >> 7u64 == w) by (bit_vector) requires w < 562949953421312u64;
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 2u8 == 0u8) by (bit_vector);
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 4u8 == 0u8) by (bit_vector);
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 8u8 == 0u8) by (bit_vector);
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 16u8 == 0u8) by (bit_vector);
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 32u8 == 0u8) by (bit_vector);
    assert(((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8) & 64u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_8(w: u64)
    requires w < 72057594037927936
    ensures ({ let x = packed(w, 8); join8(octet(x, 0) as u64, octet(x, 1) as u64, octet(x, 2) as u64, octet(x, 3) as u64, octet(x, 4) as u64, octet(x, 5) as u64, octet(x, 6) as u64, octet(x, 7) as u64) >> 8u64 == w }), zeros(octet(packed(w, 8), 0)) == 7
{
    assert(((((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) as u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 8u64) as u8) as u64) << 8u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 16u64) as u8) as u64) << 16u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 24u64) as u8) as u64) << 24u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 32u64) as u8) as u64) << 32u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 40u64) as u8) as u64) << 40u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 48u64) as u8) as u64) << 48u64) | ((((((w << 8u64) | (1u64 << 7u64)) >> 56u64) as u8) as u64) << 56u64)) >> 8u64 == w) by (bit_vector) requires w < 72057594037927936u64;
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 1u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 2u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 4u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 8u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 16u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 32u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 64u8 == 0u8) by (bit_vector);
    assert(((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8) & 128u8 != 0u8) by (bit_vector);
}
pub proof fn lemma_back_9(w: u64)
    ensures join8(octet(w, 0) as u64, octet(w, 1) as u64, octet(w, 2) as u64, octet(w, 3) as u64, octet(w, 4) as u64, octet(w, 5) as u64, octet(w, 6) as u64, octet(w, 7) as u64) == w
{
    assert(((((w >> 0u64) as u8) as u64) | ((((w >> 8u64) as u8) as u64) << 8u64) | ((((w >> 16u64) as u8) as u64) << 16u64) | ((((w >> 24u64) as u8) as u64) << 24u64) | ((((w >> 32u64) as u8) as u64) << 32u64) | ((((w >> 40u64) as u8) as u64) << 40u64) | ((((w >> 48u64) as u8) as u64) << 48u64) | ((((w >> 56u64) as u8) as u64) << 56u64)) == w) by (bit_vector);
}

pub proof fn lemma_zigzag(n: i64)
    ensures ((n >> 63u32) as u64) ^ ((n << 1u32) as u64) == zigzag(n)
{
    if n >= 0 {
        assert(((n >> 63u32) as u64) ^ ((n << 1u32) as u64) == mul(2, n as u64)) by (bit_vector) requires n >= 0;
        assert((n as u64) < 0x8000_0000_0000_0000);
    } else {
        let m = !n;
        assert(m == sub(-1i64, n) && m >= 0) by (bit_vector) requires m == !n, n < 0;
        assert(((n >> 63u32) as u64) ^ ((n << 1u32) as u64) == add(mul(2, m as u64), 1)) by (bit_vector) requires m == !n, n < 0;
    }
}
pub proof fn lemma_zagzig(n: u64)
    ensures -1 <= -((n & 1) as i64) <= 0, zigzag(((n >> 1u32) as i64) ^ ((-((n & 1) as i64)) as i64)) == n
{
    assert((n & 1) == 0 || (n & 1) == 1) by (bit_vector);
    let h = n >> 1u32;
    assert(h < 0x8000_0000_0000_0000 && n == add(mul(2, h), n & 1)) by (bit_vector) requires h == n >> 1u32;
    let g = h as i64;
    assert(g ^ 0i64 == g && g ^ (-1i64) == sub(sub(0, g), 1)) by (bit_vector);
}
pub proof fn lemma_value(s: Seq<u8>)
    requires 1 <= s.len() <= 8
    ensures value(s) == (s[0] as u64) | (value(s.skip(1)) << 8u64), value(s.skip(1)) < pow(s.len() - 1)
{
    let t = s.skip(1);
    lemma_join(at(s, 0), at(t, 0), at(t, 1), at(t, 2), at(t, 3), at(t, 4), at(t, 5), at(t, 6));
    if s.len() == 1 { assert(0u64 | (0u64 << 8) | (0u64 << 16) | (0u64 << 24) | (0u64 << 32) | (0u64 << 40) | (0u64 << 48) | (0u64 << 56) == 0) by (bit_vector); }
    else if s.len() == 2 { lemma_bound_1(at(t, 0)); } else if s.len() == 3 { lemma_bound_2(at(t, 0), at(t, 1)); }
    else if s.len() == 4 { lemma_bound_3(at(t, 0), at(t, 1), at(t, 2)); } else if s.len() == 5 { lemma_bound_4(at(t, 0), at(t, 1), at(t, 2), at(t, 3)); }
    else if s.len() == 6 { lemma_bound_5(at(t, 0), at(t, 1), at(t, 2), at(t, 3), at(t, 4)); } else if s.len() == 7 { lemma_bound_6(at(t, 0), at(t, 1), at(t, 2), at(t, 3), at(t, 4), at(t, 5)); }
    else { lemma_bound_7(at(t, 0), at(t, 1), at(t, 2), at(t, 3), at(t, 4), at(t, 5), at(t, 6)); }
}
pub open spec fn pow(k: int) -> int { if k <= 0 { 1 } else if k == 1 { 256 } else if k == 2 { 65536 } else if k == 3 { 16777216 } else if k == 4 { 4294967296 } else if k == 5 { 1099511627776 } else if k == 6 { 281474976710656 } else { 72057594037927936 } }
// what the decoder computes from the first byte and the value of the further bytes
pub proof fn lemma_take(s: Seq<u8>, r: u64)
    requires 1 <= s.len() <= 8, r == value(s.skip(1))
    ensures r < pow(s.len() - 1), ({ let b = s[0]; let w = value(s) >> (s.len() as u64); &&& s.len() < 8 ==> w == ((b >> (s.len() as u32)) as u64) + (r << ((8 - s.len()) as u32)) &&& s.len() == 8 ==> w == r &&& w < 2 * pow(s.len() as int) })
{
    lemma_value(s);
    let b = s[0];
    if s.len() == 1 { lemma_get_1(b, r); } else if s.len() == 2 { lemma_get_2(b, r); } else if s.len() == 3 { lemma_get_3(b, r); } else if s.len() == 4 { lemma_get_4(b, r); }
    else if s.len() == 5 { lemma_get_5(b, r); } else if s.len() == 6 { lemma_get_6(b, r); } else if s.len() == 7 { lemma_get_7(b, r); } else { lemma_get_8(b, r); }
}
// the zero-padded buffer of the decoder
pub proof fn lemma_padded(s: Seq<u8>, buf: Seq<u8>, n: int)
    requires buf.len() == 8, 0 <= n <= 8, n <= s.len(), buf =~= s.take(n) + Seq::new((8 - n) as nat, |i: int| 0u8)
    ensures value(buf) == value(s.take(n))
{
    let t = s.take(n);
    assert forall|i: int| 0 <= i < 8 implies at(buf, i) == at(t, i) by { }
    assert(at(buf, 0) == at(t, 0) && at(buf, 1) == at(t, 1) && at(buf, 2) == at(t, 2) && at(buf, 3) == at(t, 3) && at(buf, 4) == at(t, 4) && at(buf, 5) == at(t, 5) && at(buf, 6) == at(t, 6) && at(buf, 7) == at(t, 7));
}
// ---- decoding an encoding gives the number back; encodings do not begin one another --------------------------
pub proof fn lemma_round_trip(n: u64, rest: Seq<u8>)
    ensures encoded(n).len() == width(n), reach(encoded(n)[0]) == width(n), whole(encoded(n) + rest), decoded(encoded(n)) == n,
        (encoded(n) + rest).take(width(n)) == encoded(n), (encoded(n) + rest).skip(width(n)) == rest, (encoded(n) + rest)[0] == encoded(n)[0]
{
    let k = width(n); let s = encoded(n); let w = (n - base(k)) as u64;
    assert((s + rest).take(k) =~= s); assert((s + rest).skip(k) =~= rest);
    if k == 9 {
        assert(0u8 & 1u8 == 0 && 0u8 & 2u8 == 0 && 0u8 & 4u8 == 0 && 0u8 & 8u8 == 0 && 0u8 & 16u8 == 0 && 0u8 & 32u8 == 0 && 0u8 & 64u8 == 0 && 0u8 & 128u8 == 0) by (bit_vector);
        assert(s.skip(1) =~= octets(w, 8)); lemma_back_9(w);
    } else {
        if k == 1 { lemma_back_1(w); } else if k == 2 { lemma_back_2(w); } else if k == 3 { lemma_back_3(w); } else if k == 4 { lemma_back_4(w); }
        else if k == 5 { lemma_back_5(w); } else if k == 6 { lemma_back_6(w); } else if k == 7 { lemma_back_7(w); } else { lemma_back_8(w); }
    }
}
pub proof fn lemma_unique(a: u64, b: u64, s: Seq<u8>, t: Seq<u8>)
    requires encoded(a) + s == encoded(b) + t
    ensures a == b, s == t
{ lemma_round_trip(a, s); lemma_round_trip(b, t); }
pub proof fn lemma_shortest(a: u64, b: u64) requires a <= b ensures encoded(a).len() <= encoded(b).len() { lemma_round_trip(a, Seq::empty()); lemma_round_trip(b, Seq::empty()); }
pub proof fn lemma_tag(index: u64, m: u64)
    requires index < 0x4000_0000_0000_0000, m < 4
    ensures (index << 2u32) | m == 4 * index + m, ((4 * index + m) as u64) >> 2u32 == index, ((4 * index + m) as u64) & 3 == m
{
    assert((index << 2u32) | m == add(mul(4, index), m) && (add(mul(4, index), m) >> 2u32) == index && add(mul(4, index), m) & 3 == m) by (bit_vector) requires index < 0x4000_0000_0000_0000u64, m < 4;
}
// a reader's bytes, decoded step by step
pub proof fn lemma_skips()
    ensures forall|s: Seq<u8>, a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{
    assert forall|s: Seq<u8>, a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
}
pub open spec fn holds(buf: Seq<u8>, t: Seq<u8>, n: int) -> bool { buf.len() == 8 && (forall|i: int| 0 <= i < n ==> buf[i] == t[i]) && (forall|i: int| n <= i < 8 ==> buf[i] == 0) }
pub proof fn lemma_decode(s: Seq<u8>)
    ensures
        s.len() > 0 ==> 1 <= reach(s[0]) <= 9,
        whole(s) ==> forall|buf: Seq<u8>| holds(buf, s.skip(1), reach(s[0]) - 1) ==> #[trigger] value(buf) == value(s.take(reach(s[0])).skip(1)),
        whole(s) && reach(s[0]) == 1 ==> { let r = value(s.take(1).skip(1)); decoded(s.take(1)) == base(1) + ((s[0] >> 1u32) as u64) && base(1) == 0 },
        whole(s) && reach(s[0]) == 2 ==> { let r = value(s.take(2).skip(1)); decoded(s.take(2)) == base(2) + ((s[0] >> 2u32) as u64) + (r << 6u32) && base(2) + ((s[0] >> 2u32) as u64) + (r << 6u32) < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 3 ==> { let r = value(s.take(3).skip(1)); decoded(s.take(3)) == base(3) + ((s[0] >> 3u32) as u64) + (r << 5u32) && base(3) + ((s[0] >> 3u32) as u64) + (r << 5u32) < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 4 ==> { let r = value(s.take(4).skip(1)); decoded(s.take(4)) == base(4) + ((s[0] >> 4u32) as u64) + (r << 4u32) && base(4) + ((s[0] >> 4u32) as u64) + (r << 4u32) < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 5 ==> { let r = value(s.take(5).skip(1)); decoded(s.take(5)) == base(5) + ((s[0] >> 5u32) as u64) + (r << 3u32) && base(5) + ((s[0] >> 5u32) as u64) + (r << 3u32) < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 6 ==> { let r = value(s.take(6).skip(1)); decoded(s.take(6)) == base(6) + ((s[0] >> 6u32) as u64) + (r << 2u32) && base(6) + ((s[0] >> 6u32) as u64) + (r << 2u32) < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 7 ==> { let r = value(s.take(7).skip(1)); decoded(s.take(7)) == base(7) + ((s[0] >> 7u32) as u64) + (r << 1u32) && base(7) + ((s[0] >> 7u32) as u64) + (r << 1u32) < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 8 ==> { let r = value(s.take(8).skip(1)); decoded(s.take(8)) == base(8) + r && base(8) + r < 0x1_0000_0000_0000_0000 },
        whole(s) && reach(s[0]) == 9 ==> { let r = value(s.take(9).skip(1)); decoded(s.take(9)) == (if base(9) + r < 0x1_0000_0000_0000_0000 { (base(9) + r) as u64 } else { (base(9) + r - 0x1_0000_0000_0000_0000) as u64 }) },
{
    if whole(s) {
        let k = reach(s[0]); let t = s.take(k); let u = t.skip(1);
        assert(t[0] == s[0]);
        assert forall|buf: Seq<u8>| holds(buf, s.skip(1), k - 1) implies #[trigger] value(buf) == value(u) by {
            assert(forall|i: int| 0 <= i < k - 1 ==> u[i] == s.skip(1)[i]);
            assert(at(buf, 0) == at(u, 0) && at(buf, 1) == at(u, 1) && at(buf, 2) == at(u, 2) && at(buf, 3) == at(u, 3) && at(buf, 4) == at(u, 4) && at(buf, 5) == at(u, 5) && at(buf, 6) == at(u, 6) && at(buf, 7) == at(u, 7));
        }
        if k <= 8 { lemma_take(t, value(u)); }
        assert(0u64 << 7u32 == 0) by (bit_vector);
    }
}
pub proof fn lemma_modes(t: u64) ensures t & 3 == 0 || t & 3 == 1 || t & 3 == 2 || t & 3 == 3 { assert(t & 3 == 0 || t & 3 == 1 || t & 3 == 2 || t & 3 == 3) by (bit_vector); }
// a header followed by the bytes of its field is read as what was written
pub proof fn lemma_heading(index: u64, size: usize, varint: bool, rest: Seq<u8>)
    requires index < 0x4000_0000_0000_0000, mode(size, varint) == 2 ==> rest.len() > 0 && reach(rest[0]) == size
    ensures heading(header(index, size, varint) + rest) == Some((index, size, rest))
{
    let m = mode(size, varint); let t = tag(index, size, varint);
    lemma_tag(index, m as u64);
    let more = if m == 3 { encoded(size as u64) } else { Seq::empty() };
    assert(header(index, size, varint) + rest =~= encoded(t) + (more + rest));
    lemma_round_trip(t, more + rest);
    if m == 3 { lemma_round_trip(size as u64, rest); } else { assert(more + rest =~= rest); }
}
pub proof fn lemma_header(index: u64, size: usize, varint: bool)
    requires index < 0x4000_0000_0000_0000
    ensures (index << 2u32) | (mode(size, varint) as u64) == tag(index, size, varint),
        encoded(tag(index, size, varint)).len() == width(tag(index, size, varint)), encoded(size as u64).len() == width(size as u64),
        1 <= width(tag(index, size, varint)) <= 9, 1 <= width(size as u64) <= 9,
{
    lemma_tag(index, mode(size, varint) as u64);
    lemma_round_trip(tag(index, size, varint), Seq::empty()); lemma_round_trip(size as u64, Seq::empty());
}
}
