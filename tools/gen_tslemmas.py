base={1:0,2:128,3:16512,4:2113664,5:270549120,6:34630287488,7:4432676798592,8:567382630219904}
bound={k:2**(7*k) for k in range(1,9)}
# pieces: (offset, [octet count], shift)
split={1:[],2:[(1,1,6)],3:[(1,2,5)],4:[(1,1,4),(2,2,12)],5:[(1,4,3)],6:[(1,1,2),(2,4,10)],7:[(1,2,1),(3,4,17)],8:[(1,1,0),(2,2,8),(4,4,24)]}
o=[]
chk=[]
ens=[]
for k in range(1,9):
    lines=[]; facts=[]
    p='packed(w, %d)'%k
    b0='(((w * %d) %% 256) + %d) as u64'%(2**k,2**(k-1))
    if k==8: b0='128u64'
    facts.append('octet(%s, 0) == octet(%s, 0)'%(p,b0))
    P='((w << %du64) | (1u64 << %du64))'%(k,k-1)
    if k==8: lines.append('assert((%s >> 0u64) as u8 == (128u64 >> 0u64) as u8) by (bit_vector) requires w < %du64;'%(P,bound[k]))
    else:
        lines.append('assert((%s >> 0u64) as u8 == (add(mul(%d, w) %% 256, %d) >> 0u64) as u8) by (bit_vector) requires w < %du64;'%(P,2**k,2**(k-1),bound[k]))
    for at,n,sh in split[k]:
        for j in range(n):
            x='((w / %d) %% %d) as u64'%(2**sh,256**n)
            facts.append('octet(%s, %d) == octet(%s, %d)'%(p,at+j,x,j))
            lines.append('assert((%s >> %du64) as u8 == (((w / %d) %% %d) >> %du64) as u8) by (bit_vector) requires w < %du64;'%(P,8*(at+j),2**sh,256**n,8*j,bound[k]))
    facts.append('w / %d < %d'%(2**(8-k) if k<8 else 1, 256**(k-1) if k>1 else 2)) if 0 else None
    o.append('pub proof fn lemma_ts_put_%d(w: u64)\n    requires w < %d\n    ensures %s\n{\n    %s\n}\n'%(k,bound[k],', '.join(facts),'\n    '.join(lines)))
    cat='octets(%s, 1)'%b0+''.join(' + octets(((w / %d) %% %d) as u64, %d)'%(2**sh,256**n,n) for at,n,sh in split[k])
    ens.append('width(n) == %d ==> { let w = (n - base(%d)) as u64; encoded(n) == %s && (w * %d) %% 256 %% %d == 0 && 0 <= (w * %d) %% 256 < 256 }'%(k,k,cat,2**k,2**k,2**k))
    chk.append((k,cat))
o.append('pub proof fn lemma_ts_put(n: u64)\n    ensures %s\n{\n%s}\n'%(',\n        '.join(ens),''.join('    if width(n) == %d { let w = (n - base(%d)) as u64; lemma_ts_put_%d(w); assert(encoded(n) =~= %s); }\n'%(k,k,k,c) for k,c in chk)))
# get
g=[]
for k in range(1,8):
    g.append('''    assert(b >> %du32 == b / %d) by (bit_vector);
    if r < %d { assert(r << %du32 == mul(r, %d)) by (bit_vector) requires r < %du64; assert(r * %d < 0x1_0000_0000_0000_0000); }'''%(k,2**k,256**(k-1),8-k,2**(8-k),256**(k-1),2**(8-k)))
o.append('pub proof fn lemma_ts_get(b: u8, r: u64)\n    ensures %s\n{\n%s\n}\n'%(', '.join('(b >> %du32) == b / %d, r < %d ==> (r << %du32) == r * %d'%(k,2**k,256**(k-1),8-k,2**(8-k)) for k in range(1,8)),'\n'.join(g)))
# shifted
o.append('pub open spec fn halved(b: u8, n: int) -> int { %s { 0 } }\n'%''.join('if n == %d { b as int / %d } else '%(n,2**n) for n in range(8)))
st='\n'.join('    assert((b / %d) %% 2 == 0 <==> b & %d == 0) by (bit_vector); assert(b as int / %d / 2 == b as int / %d);'%(2**n,2**n,2**n,2**(n+1)) for n in range(8))
o.append('''pub proof fn lemma_halved(b: u8)
    ensures forall|n: int| 0 <= n < 8 ==> #[trigger] halved(b, n) / 2 == halved(b, n + 1), forall|n: int| 0 <= n < 8 && zeros(b) >= n && halved(b, n) %% 2 == 0 ==> zeros(b) >= #[trigger] (n + 1),
        forall|n: int| 0 <= n < 8 && zeros(b) >= n && #[trigger] halved(b, n) %% 2 == 1 ==> zeros(b) == n, 0 <= zeros(b) <= 8, forall|n: int| 0 <= n <= 8 ==> 0 <= #[trigger] halved(b, n) < 256
{
%s
}
'''.replace('%s\n}','@@ST\n}').replace('%%','%').replace('@@ST',st))
open('/verif/verus/tslemmas.vspec','w').write('@# Arithmetic behind the functions every generated TypeScript file begins with (C05); made by a program\n@@ raw\npub mod tslemmas {\nuse vstd::prelude::*;\nuse crate::wire::*;\nuse crate::wirelemmas::*;\n'+'\n'.join(o)+'''
pub proof fn lemma_puts()
    ensures forall|s: Seq<u8>, at: int, a: Seq<u8>, to: int, b: Seq<u8>| 0 <= at && to == at + a.len() && to + b.len() <= s.len() ==> #[trigger] crate::js::put(crate::js::put(s, at, a), to, b) == crate::js::put(s, at, a + b),
        forall|s: Seq<u8>, at: int, a: Seq<u8>| 0 <= at && at + a.len() <= s.len() ==> (#[trigger] crate::js::put(s, at, a)).len() == s.len(),
        width_nine()
{
    assert forall|s: Seq<u8>, at: int, a: Seq<u8>, to: int, b: Seq<u8>| 0 <= at && to == at + a.len() && to + b.len() <= s.len() implies #[trigger] crate::js::put(crate::js::put(s, at, a), to, b) == crate::js::put(s, at, a + b) by {
        assert(crate::js::put(crate::js::put(s, at, a), to, b) =~= crate::js::put(s, at, a + b));
    }
    assert(octets(0, 1) =~= seq![0u8]) by { lemma_ts_octet(); }
}
pub open spec fn width_nine() -> bool { octets(0, 1) == seq![0u8] }
pub proof fn lemma_ts_octet() ensures forall|b: u8| #[trigger] octet(b as u64, 0) == b, forall|i: int| 0 <= i < 8 ==> #[trigger] octet(0, i as u64) == 0 {
    assert forall|b: u8| #[trigger] octet(b as u64, 0) == b by { assert(((b as u64) >> 0u64) as u8 == b) by (bit_vector); }
    assert forall|i: int| 0 <= i < 8 implies #[trigger] octet(0, i as u64) == 0 by { let j = (8 * (i as u64)) as u64; assert((0u64 >> j) as u8 == 0u8) by (bit_vector); }
}
pub proof fn lemma_ts_tag(t: u64) ensures t >> 2u32 == t / 4, t & 3 == t % 4 { assert(t >> 2u32 == t / 4) by (bit_vector); assert(t & 3 == t % 4) by (bit_vector); }
pub proof fn lemma_ts_small(s: Seq<u8>)
    requires whole(s), reach(s[0]) <= 8
    ensures value(s.take(reach(s[0])).skip(1)) < pow(reach(s[0]) - 1)
{ lemma_value(s.take(reach(s[0]))); }
}
''')
