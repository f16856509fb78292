@# Arithmetic behind the functions every generated TypeScript file begins with (C05); made by a program
@@ raw
pub mod tslemmas {
use vstd::prelude::*;
use crate::wire::*;
use crate::wirelemmas::*;
pub proof fn lemma_ts_put_1(w: u64)
    requires w < 128
    ensures octet(packed(w, 1), 0) == octet((((w * 2) % 256) + 1) as u64, 0)
{
    assert((((w << 1u64) | (1u64 << 0u64)) >> 0u64) as u8 == (add(mul(2, w) % 256, 1) >> 0u64) as u8) by (bit_vector) requires w < 128u64;
}

pub proof fn lemma_ts_put_2(w: u64)
    requires w < 16384
    ensures octet(packed(w, 2), 0) == octet((((w * 4) % 256) + 2) as u64, 0), octet(packed(w, 2), 1) == octet(((w / 64) % 256) as u64, 0)
{
    assert((((w << 2u64) | (1u64 << 1u64)) >> 0u64) as u8 == (add(mul(4, w) % 256, 2) >> 0u64) as u8) by (bit_vector) requires w < 16384u64;
    assert((((w << 2u64) | (1u64 << 1u64)) >> 8u64) as u8 == (((w / 64) % 256) >> 0u64) as u8) by (bit_vector) requires w < 16384u64;
}

pub proof fn lemma_ts_put_3(w: u64)
    requires w < 2097152
    ensures octet(packed(w, 3), 0) == octet((((w * 8) % 256) + 4) as u64, 0), octet(packed(w, 3), 1) == octet(((w / 32) % 65536) as u64, 0), octet(packed(w, 3), 2) == octet(((w / 32) % 65536) as u64, 1)
{
    assert((((w << 3u64) | (1u64 << 2u64)) >> 0u64) as u8 == (add(mul(8, w) % 256, 4) >> 0u64) as u8) by (bit_vector) requires w < 2097152u64;
    assert((((w << 3u64) | (1u64 << 2u64)) >> 8u64) as u8 == (((w / 32) % 65536) >> 0u64) as u8) by (bit_vector) requires w < 2097152u64;
    assert((((w << 3u64) | (1u64 << 2u64)) >> 16u64) as u8 == (((w / 32) % 65536) >> 8u64) as u8) by (bit_vector) requires w < 2097152u64;
}

pub proof fn lemma_ts_put_4(w: u64)
    requires w < 268435456
    ensures octet(packed(w, 4), 0) == octet((((w * 16) % 256) + 8) as u64, 0), octet(packed(w, 4), 1) == octet(((w / 16) % 256) as u64, 0), octet(packed(w, 4), 2) == octet(((w / 4096) % 65536) as u64, 0), octet(packed(w, 4), 3) == octet(((w / 4096) % 65536) as u64, 1)
{
    assert((((w << 4u64) | (1u64 << 3u64)) >> 0u64) as u8 == (add(mul(16, w) % 256, 8) >> 0u64) as u8) by (bit_vector) requires w < 268435456u64;
    assert((((w << 4u64) | (1u64 << 3u64)) >> 8u64) as u8 == (((w / 16) % 256) >> 0u64) as u8) by (bit_vector) requires w < 268435456u64;
    assert((((w << 4u64) | (1u64 << 3u64)) >> 16u64) as u8 == (((w / 4096) % 65536) >> 0u64) as u8) by (bit_vector) requires w < 268435456u64;
    assert((((w << 4u64) | (1u64 << 3u64)) >> 24u64) as u8 == (((w / 4096) % 65536) >> 8u64) as u8) by (bit_vector) requires w < 268435456u64;
}

pub proof fn lemma_ts_put_5(w: u64)
    requires w < 34359738368
    ensures octet(packed(w, 5), 0) == octet((((w * 32) % 256) + 16) as u64, 0), octet(packed(w, 5), 1) == octet(((w / 8) % 4294967296) as u64, 0), octet(packed(w, 5), 2) == octet(((w / 8) % 4294967296) as u64, 1), octet(packed(w, 5), 3) == octet(((w / 8) % 4294967296) as u64, 2), octet(packed(w, 5), 4) == octet(((w / 8) % 4294967296) as u64, 3)
{
    assert((((w << 5u64) | (1u64 << 4u64)) >> 0u64) as u8 == (add(mul(32, w) % 256, 16) >> 0u64) as u8) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 8u64) as u8 == (((w / 8) % 4294967296) >> 0u64) as u8) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 16u64) as u8 == (((w / 8) % 4294967296) >> 8u64) as u8) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 24u64) as u8 == (((w / 8) % 4294967296) >> 16u64) as u8) by (bit_vector) requires w < 34359738368u64;
    assert((((w << 5u64) | (1u64 << 4u64)) >> 32u64) as u8 == (((w / 8) % 4294967296) >> 24u64) as u8) by (bit_vector) requires w < 34359738368u64;
}

pub proof fn lemma_ts_put_6(w: u64)
    requires w < 4398046511104
    ensures octet(packed(w, 6), 0) == octet((((w * 64) % 256) + 32) as u64, 0), octet(packed(w, 6), 1) == octet(((w / 4) % 256) as u64, 0), octet(packed(w, 6), 2) == octet(((w / 1024) % 4294967296) as u64, 0), octet(packed(w, 6), 3) == octet(((w / 1024) % 4294967296) as u64, 1), octet(packed(w, 6), 4) == octet(((w / 1024) % 4294967296) as u64, 2), octet(packed(w, 6), 5) == octet(((w / 1024) % 4294967296) as u64, 3)
{
    assert((((w << 6u64) | (1u64 << 5u64)) >> 0u64) as u8 == (add(mul(64, w) % 256, 32) >> 0u64) as u8) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 8u64) as u8 == (((w / 4) % 256) >> 0u64) as u8) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 16u64) as u8 == (((w / 1024) % 4294967296) >> 0u64) as u8) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 24u64) as u8 == (((w / 1024) % 4294967296) >> 8u64) as u8) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 32u64) as u8 == (((w / 1024) % 4294967296) >> 16u64) as u8) by (bit_vector) requires w < 4398046511104u64;
    assert((((w << 6u64) | (1u64 << 5u64)) >> 40u64) as u8 == (((w / 1024) % 4294967296) >> 24u64) as u8) by (bit_vector) requires w < 4398046511104u64;
}

pub proof fn lemma_ts_put_7(w: u64)
    requires w < 562949953421312
    ensures octet(packed(w, 7), 0) == octet((((w * 128) % 256) + 64) as u64, 0), octet(packed(w, 7), 1) == octet(((w / 2) % 65536) as u64, 0), octet(packed(w, 7), 2) == octet(((w / 2) % 65536) as u64, 1), octet(packed(w, 7), 3) == octet(((w / 131072) % 4294967296) as u64, 0), octet(packed(w, 7), 4) == octet(((w / 131072) % 4294967296) as u64, 1), octet(packed(w, 7), 5) == octet(((w / 131072) % 4294967296) as u64, 2), octet(packed(w, 7), 6) == octet(((w / 131072) % 4294967296) as u64, 3)
{
    assert((((w << 7u64) | (1u64 << 6u64)) >> 0u64) as u8 == (add(mul(128, w) % 256, 64) >> 0u64) as u8) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 8u64) as u8 == (((w / 2) % 65536) >> 0u64) as u8) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 16u64) as u8 == (((w / 2) % 65536) >> 8u64) as u8) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 24u64) as u8 == (((w / 131072) % 4294967296) >> 0u64) as u8) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 32u64) as u8 == (((w / 131072) % 4294967296) >> 8u64) as u8) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 40u64) as u8 == (((w / 131072) % 4294967296) >> 16u64) as u8) by (bit_vector) requires w < 562949953421312u64;
    assert((((w << 7u64) | (1u64 << 6u64)) >> 48u64) as u8 == (((w / 131072) % 4294967296) >> 24u64) as u8) by (bit_vector) requires w < 562949953421312u64;
}

pub proof fn lemma_ts_put_8(w: u64)
    requires w < 72057594037927936
    ensures octet(packed(w, 8), 0) == octet(128u64, 0), octet(packed(w, 8), 1) == octet(((w / 1) % 256) as u64, 0), octet(packed(w, 8), 2) == octet(((w / 256) % 65536) as u64, 0), octet(packed(w, 8), 3) == octet(((w / 256) % 65536) as u64, 1), octet(packed(w, 8), 4) == octet(((w / 16777216) % 4294967296) as u64, 0), octet(packed(w, 8), 5) == octet(((w / 16777216) % 4294967296) as u64, 1), octet(packed(w, 8), 6) == octet(((w / 16777216) % 4294967296) as u64, 2), octet(packed(w, 8), 7) == octet(((w / 16777216) % 4294967296) as u64, 3)
{
    assert((((w << 8u64) | (1u64 << 7u64)) >> 0u64) as u8 == (128u64 >> 0u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 8u64) as u8 == (((w / 1) % 256) >> 0u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 16u64) as u8 == (((w / 256) % 65536) >> 0u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 24u64) as u8 == (((w / 256) % 65536) >> 8u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 32u64) as u8 == (((w / 16777216) % 4294967296) >> 0u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 40u64) as u8 == (((w / 16777216) % 4294967296) >> 8u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 48u64) as u8 == (((w / 16777216) % 4294967296) >> 16u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
    assert((((w << 8u64) | (1u64 << 7u64)) >> 56u64) as u8 == (((w / 16777216) % 4294967296) >> 24u64) as u8) by (bit_vector) requires w < 72057594037927936u64;
}

pub proof fn lemma_ts_put(n: u64)
    ensures width(n) == 1 ==> { let w = (n - base(1)) as u64; encoded(n) == octets((((w * 2) % 256) + 1) as u64, 1) && (w * 2) % 256 % 2 == 0 && 0 <= (w * 2) % 256 < 256 },
        width(n) == 2 ==> { let w = (n - base(2)) as u64; encoded(n) == octets((((w * 4) % 256) + 2) as u64, 1) + octets(((w / 64) % 256) as u64, 1) && (w * 4) % 256 % 4 == 0 && 0 <= (w * 4) % 256 < 256 },
        width(n) == 3 ==> { let w = (n - base(3)) as u64; encoded(n) == octets((((w * 8) % 256) + 4) as u64, 1) + octets(((w / 32) % 65536) as u64, 2) && (w * 8) % 256 % 8 == 0 && 0 <= (w * 8) % 256 < 256 },
        width(n) == 4 ==> { let w = (n - base(4)) as u64; encoded(n) == octets((((w * 16) % 256) + 8) as u64, 1) + octets(((w / 16) % 256) as u64, 1) + octets(((w / 4096) % 65536) as u64, 2) && (w * 16) % 256 % 16 == 0 && 0 <= (w * 16) % 256 < 256 },
        width(n) == 5 ==> { let w = (n - base(5)) as u64; encoded(n) == octets((((w * 32) % 256) + 16) as u64, 1) + octets(((w / 8) % 4294967296) as u64, 4) && (w * 32) % 256 % 32 == 0 && 0 <= (w * 32) % 256 < 256 },
        width(n) == 6 ==> { let w = (n - base(6)) as u64; encoded(n) == octets((((w * 64) % 256) + 32) as u64, 1) + octets(((w / 4) % 256) as u64, 1) + octets(((w / 1024) % 4294967296) as u64, 4) && (w * 64) % 256 % 64 == 0 && 0 <= (w * 64) % 256 < 256 },
        width(n) == 7 ==> { let w = (n - base(7)) as u64; encoded(n) == octets((((w * 128) % 256) + 64) as u64, 1) + octets(((w / 2) % 65536) as u64, 2) + octets(((w / 131072) % 4294967296) as u64, 4) && (w * 128) % 256 % 128 == 0 && 0 <= (w * 128) % 256 < 256 },
        width(n) == 8 ==> { let w = (n - base(8)) as u64; encoded(n) == octets(128u64, 1) + octets(((w / 1) % 256) as u64, 1) + octets(((w / 256) % 65536) as u64, 2) + octets(((w / 16777216) % 4294967296) as u64, 4) && (w * 256) % 256 % 256 == 0 && 0 <= (w * 256) % 256 < 256 }
{
    if width(n) == 1 { let w = (n - base(1)) as u64; lemma_ts_put_1(w); assert(encoded(n) =~= octets((((w * 2) % 256) + 1) as u64, 1)); }
    if width(n) == 2 { let w = (n - base(2)) as u64; lemma_ts_put_2(w); assert(encoded(n) =~= octets((((w * 4) % 256) + 2) as u64, 1) + octets(((w / 64) % 256) as u64, 1)); }
    if width(n) == 3 { let w = (n - base(3)) as u64; lemma_ts_put_3(w); assert(encoded(n) =~= octets((((w * 8) % 256) + 4) as u64, 1) + octets(((w / 32) % 65536) as u64, 2)); }
    if width(n) == 4 { let w = (n - base(4)) as u64; lemma_ts_put_4(w); assert(encoded(n) =~= octets((((w * 16) % 256) + 8) as u64, 1) + octets(((w / 16) % 256) as u64, 1) + octets(((w / 4096) % 65536) as u64, 2)); }
    if width(n) == 5 { let w = (n - base(5)) as u64; lemma_ts_put_5(w); assert(encoded(n) =~= octets((((w * 32) % 256) + 16) as u64, 1) + octets(((w / 8) % 4294967296) as u64, 4)); }
    if width(n) == 6 { let w = (n - base(6)) as u64; lemma_ts_put_6(w); assert(encoded(n) =~= octets((((w * 64) % 256) + 32) as u64, 1) + octets(((w / 4) % 256) as u64, 1) + octets(((w / 1024) % 4294967296) as u64, 4)); }
    if width(n) == 7 { let w = (n - base(7)) as u64; lemma_ts_put_7(w); assert(encoded(n) =~= octets((((w * 128) % 256) + 64) as u64, 1) + octets(((w / 2) % 65536) as u64, 2) + octets(((w / 131072) % 4294967296) as u64, 4)); }
    if width(n) == 8 { let w = (n - base(8)) as u64; lemma_ts_put_8(w); assert(encoded(n) =~= octets(128u64, 1) + octets(((w / 1) % 256) as u64, 1) + octets(((w / 256) % 65536) as u64, 2) + octets(((w / 16777216) % 4294967296) as u64, 4)); }
}

pub proof fn lemma_ts_get(b: u8, r: u64)
    ensures (b >> 1u32) == b / 2, r < 1 ==> (r << 7u32) == r * 128, (b >> 2u32) == b / 4, r < 256 ==> (r << 6u32) == r * 64, (b >> 3u32) == b / 8, r < 65536 ==> (r << 5u32) == r * 32, (b >> 4u32) == b / 16, r < 16777216 ==> (r << 4u32) == r * 16, (b >> 5u32) == b / 32, r < 4294967296 ==> (r << 3u32) == r * 8, (b >> 6u32) == b / 64, r < 1099511627776 ==> (r << 2u32) == r * 4, (b >> 7u32) == b / 128, r < 281474976710656 ==> (r << 1u32) == r * 2
{
    assert(b >> 1u32 == b / 2) by (bit_vector);
    if r < 1 { assert(r << 7u32 == mul(r, 128)) by (bit_vector) requires r < 1u64; assert(r * 128 < 0x1_0000_0000_0000_0000); }
    assert(b >> 2u32 == b / 4) by (bit_vector);
    if r < 256 { assert(r << 6u32 == mul(r, 64)) by (bit_vector) requires r < 256u64; assert(r * 64 < 0x1_0000_0000_0000_0000); }
    assert(b >> 3u32 == b / 8) by (bit_vector);
    if r < 65536 { assert(r << 5u32 == mul(r, 32)) by (bit_vector) requires r < 65536u64; assert(r * 32 < 0x1_0000_0000_0000_0000); }
    assert(b >> 4u32 == b / 16) by (bit_vector);
    if r < 16777216 { assert(r << 4u32 == mul(r, 16)) by (bit_vector) requires r < 16777216u64; assert(r * 16 < 0x1_0000_0000_0000_0000); }
    assert(b >> 5u32 == b / 32) by (bit_vector);
    if r < 4294967296 { assert(r << 3u32 == mul(r, 8)) by (bit_vector) requires r < 4294967296u64; assert(r * 8 < 0x1_0000_0000_0000_0000); }
    assert(b >> 6u32 == b / 64) by (bit_vector);
    if r < 1099511627776 { assert(r << 2u32 == mul(r, 4)) by (bit_vector) requires r < 1099511627776u64; assert(r * 4 < 0x1_0000_0000_0000_0000); }
    assert(b >> 7u32 == b / 128) by (bit_vector);
    if r < 281474976710656 { assert(r << 1u32 == mul(r, 2)) by (bit_vector) requires r < 281474976710656u64; assert(r * 2 < 0x1_0000_0000_0000_0000); }
}

pub open spec fn halved(b: u8, n: int) -> int { if n == 0 { b as int / 1 } else if n == 1 { b as int / 2 } else if n == 2 { b as int / 4 } else if n == 3 { b as int / 8 } else if n == 4 { b as int / 16 } else if n == 5 { b as int / 32 } else if n == 6 { b as int / 64 } else if n == 7 { b as int / 128 } else  { 0 } }

pub proof fn lemma_halved(b: u8)
    ensures forall|n: int| 0 <= n < 8 ==> #[trigger] halved(b, n) / 2 == halved(b, n + 1), forall|n: int| 0 <= n < 8 && zeros(b) >= n && halved(b, n) % 2 == 0 ==> zeros(b) >= #[trigger] (n + 1),
        forall|n: int| 0 <= n < 8 && zeros(b) >= n && #[trigger] halved(b, n) % 2 == 1 ==> zeros(b) == n, 0 <= zeros(b) <= 8, forall|n: int| 0 <= n <= 8 ==> 0 <= #[trigger] halved(b, n) < 256
{
    assert((b / 1) % 2 == 0 <==> b & 1 == 0) by (bit_vector); assert(b as int / 1 / 2 == b as int / 2);
    assert((b / 2) % 2 == 0 <==> b & 2 == 0) by (bit_vector); assert(b as int / 2 / 2 == b as int / 4);
    assert((b / 4) % 2 == 0 <==> b & 4 == 0) by (bit_vector); assert(b as int / 4 / 2 == b as int / 8);
    assert((b / 8) % 2 == 0 <==> b & 8 == 0) by (bit_vector); assert(b as int / 8 / 2 == b as int / 16);
    assert((b / 16) % 2 == 0 <==> b & 16 == 0) by (bit_vector); assert(b as int / 16 / 2 == b as int / 32);
    assert((b / 32) % 2 == 0 <==> b & 32 == 0) by (bit_vector); assert(b as int / 32 / 2 == b as int / 64);
    assert((b / 64) % 2 == 0 <==> b & 64 == 0) by (bit_vector); assert(b as int / 64 / 2 == b as int / 128);
    assert((b / 128) % 2 == 0 <==> b & 128 == 0) by (bit_vector); assert(b as int / 128 / 2 == b as int / 256);
}

pub proof fn lemma_puts()
    ensures forall|s: Seq<u8>, at: int, a: Seq<u8>, to: int, b: Seq<u8>| 0 <= at && to == at + a.len() && to + b.len() <= s.len() ==> #[trigger] crate::js::put(crate::js::put(s, at, a), to, b) == crate::js::put(s, at, a + b),
        forall|s: Seq<u8>, at: int, a: Seq<u8>| 0 <= at && at + a.len() <= s.len() ==> (#[trigger] crate::js::put(s, at, a)).len() == s.len(),
        width_nine()
{
    assert forall|s: Seq<u8>, at: int, a: Seq<u8>, to: int, b: Seq<u8>| 0 <= at && to == at + a.len() && to + b.len() <= s.len() implies #[trigger] crate::js::put(crate::js::put(s, at, a), to, b) == crate::js::put(s, at, a + b) by {
        assert(crate::js::put(crate::js::put(s, at, a), to, b) =~= crate::js::put(s, at, a + b));
    }
    assert(octets(0, 1) =~= seq![0u8]) by { lemma_ts_octet(); }
}
pub open spec fn width_nine() -> bool { octets(0, 1) == seq![0u8] }
pub proof fn lemma_ts_octet() ensures forall|b: u8| #[trigger] octet(b as u64, 0) == b, forall|i: int| 0 <= i < 8 ==> #[trigger] octet(0, i as u64) == 0 {
    assert forall|b: u8| #[trigger] octet(b as u64, 0) == b by { assert(((b as u64) >> 0u64) as u8 == b) by (bit_vector); }
    assert forall|i: int| 0 <= i < 8 implies #[trigger] octet(0, i as u64) == 0 by { let j = (8 * (i as u64)) as u64; assert((0u64 >> j) as u8 == 0u8) by (bit_vector); }
}
pub proof fn lemma_ts_tag(t: u64) ensures t >> 2u32 == t / 4, t & 3 == t % 4 { assert(t >> 2u32 == t / 4) by (bit_vector); assert(t & 3 == t % 4) by (bit_vector); }
pub proof fn lemma_ts_small(s: Seq<u8>)
    requires whole(s), reach(s[0]) <= 8
    ensures value(s.take(reach(s[0])).skip(1)) < pow(reach(s[0]) - 1)
{ lemma_value(s.take(reach(s[0]))); }
}
