"""Contracts for the functions which write messages in the TypeScript generated for the schemas of the family.

The specification of the bytes is the one of the Rust code (msgunit.Writer); the functions are the ones of the
generated TypeScript, put into Rust by ts/ts2v.js on every run.
"""
import json, os, subprocess, shutil, tempfile
import extract, gencode, msgunit
from msgunit import key, listed, listed_any, member, out_ty, pascal, varint_mode, VERIF

LIMIT = '0x1f_ffff_ffff_ff00'


def atlas_ty(t):
    if listed(t):
        return 'ArrAtlas<%s>' % atlas_ty(t[1])
    return pascal(t[2]) + 'Atlas' if t[0] == 'Decl' else 'Vec<u8>' if t[0] == 'String' else 'u64'


class TsWriter(msgunit.Writer):
    def rel(self, t, x, a, field):
        if listed(t):
            return 'rel_%s(%s, %s)' % (key(t), x, a)
        if t[0] == 'Decl':
            return 'rel_%s(%s, %s)' % (t[2], x, a)
        if t[0] == 'String':
            return '%s@ == utf8(%s@)' % (a, x)
        return '%s == %s.len()' % (a, self.enc(t, x, field))

    def specs(self, atlas=True):
        o = super().specs(False)
        for k, t in self.arrays.items():
            e = t[1]
            o.append('pub proof fn many_%s(s: Seq<%s>, n: int) requires 0 <= n ensures n_%s(s, n).len() >= n decreases n { lemma_sizes(); if n > 0 { many_%s(s, n - 1); } }' % (k, out_ty(e), k, k))
            if listed(t):
                o.append('pub open spec fn rel_%s(x: %s, a: %s) -> bool { &&& a.size_ == n_%s(x@, x@.len() as int).len() &&& a.elements@.len() == x@.len() &&& forall|i: int| 0 <= i < x@.len() ==> rel_el_%s(x@[i], #[trigger] a.elements@[i]) }' % (
                    k, out_ty(t), atlas_ty(t), k, k))
                o.append('pub open spec fn rel_el_%s(x: %s, a: %s) -> bool { %s }' % (k, out_ty(e), atlas_ty(e), self.rel(e, 'x', 'a', False)))
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            if d['choice']:
                rels, szs = [], []
                for n, rule, t, i in d['fields']:
                    C = pascal(n)
                    unit = t[0] == 'Unit'
                    vs = ([] if unit else ['p']) + ([] if rule == 0 else ['fb'])
                    pat = '%sOut::%s' % (P, C) + ('(%s)' % ', '.join(vs) if vs else '')
                    apat = '%sAtlas::%s(%s)' % (P, C, ', '.join(['size', 'pa'] + ([] if rule == 0 else ['fa'])))
                    rels.append('(%s, %s) => size == enc_%s(x).len() && %s%s,' % (pat, apat, D, 'pa == 0' if unit else self.rel(t, 'p', 'pa', True), '' if rule == 0 else ' && rel_%s(*fb, *fa)' % D))
                    szs.append('%s => size,' % apat)
                o.append('pub open spec fn rel_%s(x: %sOut, a: %sAtlas) -> bool decreases x { match (x, a) { %s _ => false } }' % (D, P, P, ' '.join(rels)))
                o.append('pub open spec fn sz_%s(a: %sAtlas) -> u64 { match a { %s } }' % (D, P, ' '.join(szs)))
            else:
                rels = ['a.size_ == enc_%s(x).len()' % D]
                for n, rule, t, i in d['fields']:
                    m, am = member(n), amember(n)
                    rels.append('(match (x.%s, a.%s) { (Some(p), Some(q)) => %s, (None, None) => true, _ => false })' % (m, am, self.rel(t, 'p', 'q', True)) if rule == 2
                                else self.rel(t, 'x.' + m, 'a.' + am, True))
                o.append('pub open spec fn rel_%s(x: %sOut, a: %sAtlas) -> bool { %s }' % (D, P, P, ' && '.join(rels)))
                o.append('pub open spec fn sz_%s(a: %sAtlas) -> u64 { a.size_ }' % (D, P))
        return o

    def types(self):
        """the types of the messages to be written"""
        o = ['pub struct ArrAtlas<T> { pub size_: u64, pub elements: Vec<T> }']
        for d in self.decls:
            P = pascal(d['name'])
            if d['choice']:
                cs = []
                for n, rule, t, i in d['fields']:
                    vs = ([] if t[0] == 'Unit' else [out_ty(t)]) + (['Box<%sOut>' % P] if rule else [])
                    cs.append(pascal(n) + ('(%s)' % ', '.join(vs) if vs else ''))
                o.append('pub enum %sOut { %s }' % (P, ', '.join(cs)))
            else:
                o.append('pub struct %sOut { %s }' % (P, ', '.join('pub %s: %s' % (member(n), 'Option<%s>' % out_ty(t) if rule == 2 else out_ty(t)) for n, rule, t, i in d['fields'])))
        return o

    def names(self):
        """for ts/ts2v.js: the members of these types by their names in TypeScript"""
        import wire
        r = {}
        for d in self.decls:
            P = pascal(d['name'])
            e = dict(rust=P + 'Out')
            if d['choice']:
                e.update(choice=True, cases={wire.camel(n): dict(rust=pascal(n), unit=t[0] == 'Unit', fallback=rule != 0) for n, rule, t, i in d['fields']})
            else:
                e['members'] = {wire.camel(n): member(n) for n, rule, t, i in d['fields']}
            r['Main.%sOut' % P] = e
        return dict(types=r)

    def ts_loops(self, t, fn, st, write, o):
        if t[0] != 'Arr' or t[1][0] == 'Unit' or (t[1][0] == 'F64' and not write):
            return
        e, k = t[1], key(t)
        me = st['loop']
        st['loop'] += 1
        S = 'old_payload@'
        N = 'n_%s(%s, ' % (k, S)
        inv = ['i <= %s.len()' % S, '%s%s.len() as int).len() <= %s' % (N, S, LIMIT)]
        start = 'lemma_sizes(); grows_%s(%s, i as int + 1, %s.len() as int); many_%s(%s, i as int + 1); %s lemma_width(0); lemma_width(1);' % (k, S, S, k, S, self.long(e, S + '[i as int]') if e[0] == 'Arr' else '')
        if write:
            b, at = 'w%d' % me, 'o%d' % me
            o.append('@@ fn %s loop %d pre\n    let ghost %s = data_view@; let ghost %s = offset; proof { lemma_puts_none(data_view@, offset as int); }' % (fn, me, b, at))
            inv += ['%s + %s%s.len() as int).len() <= %s.len()' % (at, N, S, b), '%s.len() <= %s' % (b, LIMIT), 'offset == %s + %si as int).len()' % (at, N), 'data_view@ == put(%s, %s as int, %si as int))' % (b, at, N)]
            if listed(t):
                inv += ['old_payload_atlas.elements@.len() == %s.len()' % S, 'forall|j: int| 0 <= j < %s.len() ==> rel_el_%s(%s[j], #[trigger] old_payload_atlas.elements@[j])' % (S, k, S)]
                start += ' assert(rel_el_%s(%s[i as int], old_payload_atlas.elements@[i as int]));' % (k, S)
            q = self.enc(e, S + '[i - 1]', False)
            end = ('lemma_put_put(%s, %s as int, %si - 1), %s);' % (b, at, N, q) if e[0] in msgunit.FLAT else
                   'lemma_field(%s, %s as int, %si - 1), encoded((%s).len() as u64), %s);' % (b, at, N, q, q))
            o.append('@@ fn %s loop %d end\n    proof { assert(%si as int) == %si - 1) + (%s)); %s }' % (fn, me, N, N, q if e[0] in msgunit.FLAT else 'encoded((%s).len() as u64) + %s' % (q, q), end))
            start += ' lemma_le8(); lemma_put_lens(); lemma_put_len(%s, %s as int, %si as int));' % (b, at, N)
        elif listed(t):
            inv += ['size == %si as int).len()' % N, 'elements@.len() == i', 'forall|j: int| 0 <= j < i ==> rel_el_%s(%s[j], #[trigger] elements@[j])' % (k, S)]
        else:
            inv += ['array_size == %si as int).len()' % N]
        o.append('@@ fn %s loop %d inv\n    invariant %s\n    decreases %s.len() - i' % (fn, me, ', '.join(inv), S))
        o.append('@@ fn %s loop %d start\n    proof { %s }' % (fn, me, start))
        self.ts_loops(e, fn, st, write, o)

    def ts_longs(self, d, x):
        r = []
        for n, rule, t, i in d['fields']:
            if d['choice'] and t[0] == 'F64':
                r.append('if let %sOut::%s(p%s) = %s { lemma_fbits(*p); }' % (pascal(d['name']), pascal(n), '' if rule == 0 else ', fb', x))
            if self.long(t, 'p'):
                if d['choice']:
                    r.append('if let %sOut::%s(p%s) = %s { %s }' % (pascal(d['name']), pascal(n), '' if rule == 0 else ', fb', x, self.long(t, 'p')))
                elif rule == 2:
                    r.append('if let Some(p) = &%s.%s { %s }' % (x, member(n), self.long(t, 'p')))
                else:
                    r.append(self.long(t, '%s.%s' % (x, member(n))))
        return ' '.join(r)

    def ts_contracts(self):
        o = []
        attr = '#[verifier::rlimit(400)] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause]'
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            f = 'm::main_%s_' % gencode.ts_snake(__import__('wire').ns(D))
            hides = 'hide(encoded); hide(le8); hide(header); hide(put);' if d['fields'] else ''
            if d['choice']:
                for n, rule, t, i in d['fields']:
                    x = gencode.ts_snake(__import__('wire').camel(n))
                    o.append('@@ fn m::%sAtlas::get_%s ret r\n    requires self is %s ensures *r == self->%s_1' % (P, x, pascal(n), pascal(n)))
                    if rule:
                        o.append('@@ fn m::%sAtlas::fallback_%s ret r\n    requires self is %s ensures *r == *self->%s_2' % (P, x, pascal(n), pascal(n)))
            o.append('@@ fn m::%sAtlas::size_ ret r\n    ensures r == sz_%s(*self)' % (P, D))
            need = 'enc_%s(*message).len() <= %s' % (D, LIMIT)
            if not d['fields']:
                o.append('@@ fn %ssize entry\n    proof { lens_%s(*message); }' % (f, D))
            o.append('@@ fn %ssize ret r\n    requires %s ensures r == enc_%s(*message).len()' % (f, need, D))
            o.append('@@ fn %sserialize ret r\n    requires %s ensures r@ == enc_%s(*message)' % (f, need, D))
            o.append('@@ fn %sserialize entry\n    proof { lemma_puts_all(); }' % f)
            fn = f + 'atlas'
            o.append('@@ fn %s attr\n    %s' % (fn, attr))
            o.append('@@ fn %s ret r\n    requires %s ensures rel_%s(*message, r)' % (fn, need, D))
            o.append('@@ fn %s entry\n    %s proof { lemma_sizes(); %s %s }' % (fn, hides.replace('hide(put);', ''), '' if d['choice'] else 'lens_%s(*message);' % D, self.ts_longs(d, 'message')))
            st = {'loop': 0}
            for n, rule, t, i in d['fields']:
                self.ts_loops(t, fn, st, False, o)
            fn = f + 'serialize_with_atlas_unsafe'
            o.append('@@ fn %s attr\n    %s' % (fn, attr.replace('#[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)]', '')))
            o.append(('@@ fn %s ret r\n    requires %s, rel_%s(*message, *atlas), fair(old(data_view)), offset + enc_%s(*message).len() <= old(data_view)@.len()\n'
                      '    ensures final(data_view)@ == put(old(data_view)@, offset as int, enc_%s(*message)), r == offset + enc_%s(*message).len()') % (fn, need, D, D, D, D))
            W, O = 'old(data_view)@', 'offset0 as int'
            cases = []
            for n, rule, t, i in d['fields'] if d['choice'] else []:
                unit = t[0] == 'Unit'
                vs = ([] if unit else ['p']) + ([] if rule == 0 else ['fb'])
                q = self.enc(t, '()' if unit else '(*p)', True)
                call = 'lemma_case(%s, %s, header(%d, (%s).len() as usize, %s), %s, %s);' % (W, O, i, q, varint_mode(t), q, 'enc_%s(**fb)' % D if rule else 'Seq::empty()')
                cases.append('%sOut::%s%s => { %s%s }' % (P, pascal(n), '(%s)' % ', '.join(vs) if vs else '', 'lemma_fbits(*p); ' if t[0] == 'F64' else '', call))
            o.append('@@ fn %s entry\n    %s let ghost offset0 = offset; proof { lemma_sizes(); lemma_le8(); lemma_puts_none(data_view@, offset as int); %s }' % (
                fn, hides, 'lemma_put_lens(); match message { %s }' % ' '.join(cases) if d['choice'] else 'lens_%s(*message); lemma_put_lens();' % D))
            for j, (n, rule, t, i) in enumerate([] if d['choice'] else d['fields']):
                pre = lambda q: 'pre_%s_%d(*message)' % (D, q)
                m = member(n)
                e = self.enc(t, 'p' if rule == 2 else 'message.' + m, True)
                h = 'header(%d, (%s).len() as usize, %s)' % (i, e, varint_mode(t))
                call = 'lemma_field(%s, %s, %s, %s, %s);' % (W, O, pre(j), h, e)
                if rule == 2:
                    call = 'match message.%s { Some(p) => { %s } None => { lemma_none(%s); } }' % (m, call, pre(j))
                o.append('@@ fn %s after \\{ let mut payload = %s\n    proof { assert(%s == %s + %s) by { reveal(pre_%s_%d); } assert(data_view@ == put(%s, %s, %s) && offset == offset0 + %s.len()) by { %s } }' % (
                    fn, '\\(\\);[^}]*big\\(%d\\)' % i if t[0] == 'Unit' and rule != 2 else '&?message\\.%s\\b' % m, pre(j + 1), pre(j), self.part(d, j, 'message'), D, j + 1, W, O, pre(j + 1), pre(j + 1), call))
            st = {'loop': 0}
            for n, rule, t, i in d['fields']:
                self.ts_loops(t, fn, st, True, o)
        return o


def amember(n):
    """the member of the atlas, as ts/ts2v.js names it"""
    import wire
    return gencode.ts_snake(wire.camel(n))


SHIM = '''@@ raw
pub mod tsmsg {
use vstd::prelude::*;
use crate::wire::*;
use crate::msg::*;
use crate::js::*;
pub open spec fn fair(v: &DataView) -> bool { v@.len() <= 0x1f_ffff_ffff_ff00 }
pub trait AsBig { spec fn int_(&self) -> int; fn big(&self) -> (r: Big) ensures r@ == self.int_(); }
impl AsBig for u64 { open spec fn int_(&self) -> int { *self as int } #[verifier::external_body] fn big(&self) -> (r: Big) { unimplemented!() } }
impl AsBig for i64 { open spec fn int_(&self) -> int { *self as int } #[verifier::external_body] fn big(&self) -> (r: Big) { unimplemented!() } }
// TextEncoder.encode
#[verifier::external_body]
pub fn text_encode(s: &String) -> (r: Vec<u8>) ensures r@ == utf8(s@) { unimplemented!() }
// what the type says, which the verifier forgets for a float in an enum
pub proof fn lemma_fbits(x: f64) ensures 0 <= fbits(x) <= u64::MAX { }
// Object.is(x, 0)
#[verifier::external_body]
pub fn object_is(x: f64, zero: u64) -> (r: bool) requires zero == 0 ensures r == (fbits(x) == 0) { unimplemented!() }
impl DataView {
    #[verifier::external_body]
    pub fn set_float64(&mut self, at: u64, x: f64) requires at + 8 <= old(self)@.len() ensures final(self)@ == put(old(self)@, at as int, le8(fbits(x))) { unimplemented!() }
    // new Uint8Array(view.buffer, view.byteOffset, view.byteLength).set(b, at)
    #[verifier::external_body]
    pub fn set_bytes(&mut self, b: &Vec<u8>, at: u64) requires at + b@.len() <= old(self)@.len() ensures final(self)@ == put(old(self)@, at as int, b@) { unimplemented!() }
}
pub proof fn lemma_put_len(s: Seq<u8>, at: int, b: Seq<u8>) ensures 0 <= at && at + b.len() <= s.len() ==> put(s, at, b).len() == s.len() { }
pub proof fn lemma_put_lens() ensures forall|s: Seq<u8>, at: int, b: Seq<u8>| 0 <= at && at + b.len() <= s.len() ==> (#[trigger] put(s, at, b)).len() == s.len() { }
pub proof fn lemma_le8() ensures forall|n: u64| #[trigger] octets(n, 8) == le8(n) { }
pub proof fn lemma_puts_none(s: Seq<u8>, at: int) ensures 0 <= at <= s.len() ==> put(s, at, Seq::<u8>::empty()) == s { if 0 <= at <= s.len() { assert(put(s, at, Seq::<u8>::empty()) =~= s); } }
pub proof fn lemma_put_put(s: Seq<u8>, at: int, a: Seq<u8>, b: Seq<u8>)
    requires 0 <= at, at + a.len() + b.len() <= s.len() ensures put(put(s, at, a), at + a.len(), b) == put(s, at, a + b), put(s, at, a + b).len() == s.len()
{ assert(put(put(s, at, a), at + a.len(), b) =~= put(s, at, a + b)); }
pub proof fn lemma_puts() ensures
    forall|s: Seq<u8>, at: int, a: Seq<u8>, q: int, b: Seq<u8>| 0 <= at && q == at + a.len() && q + b.len() <= s.len() ==> #[trigger] put(put(s, at, a), q, b) == put(s, at, a + b),
    forall|s: Seq<u8>, at: int, b: Seq<u8>| 0 <= at && at + b.len() <= s.len() ==> (#[trigger] put(s, at, b)).len() == s.len(),
    forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] (a + b)).len() == a.len() + b.len(),
{
    assert forall|s: Seq<u8>, at: int, a: Seq<u8>, q: int, b: Seq<u8>| 0 <= at && q == at + a.len() && q + b.len() <= s.len() implies #[trigger] put(put(s, at, a), q, b) == put(s, at, a + b) by { lemma_put_put(s, at, a, b); }
}
pub proof fn lemma_puts_all() ensures forall|s: Seq<u8>, b: Seq<u8>| s.len() == b.len() ==> #[trigger] put(s, 0, b) == b {
    assert forall|s: Seq<u8>, b: Seq<u8>| s.len() == b.len() implies #[trigger] put(s, 0, b) == b by { assert(put(s, 0, b) =~= b); }
}
// a case: its header h, its payload q and its fallback f
pub proof fn lemma_case(s: Seq<u8>, at: int, h: Seq<u8>, q: Seq<u8>, f: Seq<u8>)
    requires 0 <= at, at + h.len() + q.len() + f.len() <= s.len()
    ensures put(put(put(s, at, h), at + h.len(), q), at + h.len() + q.len(), f) == put(s, at, (h + q) + f), put(put(s, at, h), at + h.len(), q) == put(s, at, h + q),
        q.len() == 0 ==> put(s, at, h) == put(s, at, h + q), (h + q).len() == h.len() + q.len(), ((h + q) + f).len() == h.len() + q.len() + f.len(),
        put(s, at, h).len() == s.len(), put(s, at, h + q).len() == s.len()
{
    lemma_put_put(s, at, h, q); lemma_put_put(s, at, h + q, f); lemma_put_len(s, at, h); lemma_put_len(s, at, h + q);
    if q.len() == 0 { assert(h =~= h + q); }
}
// a field: its header h and its payload q behind p
pub proof fn lemma_field(s: Seq<u8>, at: int, p: Seq<u8>, h: Seq<u8>, q: Seq<u8>)
    requires 0 <= at, at + p.len() + h.len() + q.len() <= s.len()
    ensures put(put(put(s, at, p), at + p.len(), h), at + p.len() + h.len(), q) == put(s, at, p + (h + q)), q.len() == 0 ==> put(put(s, at, p), at + p.len(), h) == put(s, at, p + (h + q)),
        put(s, at, p).len() == s.len()
{
    assert((p + h) + q =~= p + (h + q));
    lemma_put_put(s, at, p, h); lemma_put_put(s, at, p + h, q);
    if q.len() == 0 { assert(p + h =~= p + (h + q)); }
    lemma_put_len(s, at, p);
}
}
'''


def stubs():
    """the contracts of the functions of the prelude, proved in the unit `tsprelude`"""
    o = []
    for h, b in extract.parse_vspec(os.path.join(VERIF, 'verus', 'tsprelude.vspec')):
        w = h.split()
        if w[0] == 'fn' and len(w) == 4 and w[2] == 'ret':
            o.append('@@ fn %s external %s\n%s' % (w[1], w[3], b.rstrip('\n').replace('=~=', '==')))
    return o


FNS = 'zigzag_encode zigzag_decode varint_size_from_value varint_size_from_first_byte serialize_varint deserialize_varint field_header_size serialize_field_header deserialize_field_header'


def unit(w):
    v = VERIF + '/verus/'
    o = ['@@ include %s%s.vspec' % (v, n) for n in ('common', 'wire', 'message', 'js')] + [SHIM]
    o += ['@@ module ts gen:ts', 'use vstd::prelude::*;\nuse crate::wire::*;\nuse crate::js::*;\nuse crate::tsmsg::*;', '@@ take ' + FNS, '@@ endmodule'] + stubs()
    o += ['@@ module m gen:tsm', 'use vstd::prelude::*;\nuse crate::wire::*;\nuse crate::msg::*;\nuse crate::js::*;\nuse crate::tsmsg::*;\nuse crate::ts::*;\nuse crate::spec::*;'] + w.types()
    for d in w.decls:
        P = pascal(d['name'])
        o.append('@@ take %sAtlas impl:%sAtlas:* %s' % (P, P, ' '.join('main_%s_%s' % (gencode.ts_snake(__import__('wire').ns(d['name'])), x) for x in ('size', 'serialize', 'atlas', 'serialize_with_atlas_unsafe'))))
    o += ['@@ endmodule'] + w.ts_contracts()
    o += ['@@ raw', 'pub mod spec {\nuse vstd::prelude::*;\nuse crate::wire::*;\nuse crate::msg::*;\nuse crate::js::*;\nuse crate::tsmsg::*;\nuse crate::m::*;'] + w.specs()
    o.append('pub proof fn lemma_sizes() ensures forall|n: u64| #[trigger] encoded(n).len() == width(n), forall|n: u64| #[trigger] le8(n).len() == 8 { }')
    o += ['}', '} // verus!', 'fn main() {}']
    return '\n'.join(o) + '\n'


def variants(ctx):
    import wire
    binary = ctx.build('cli')
    r = {}
    if not binary:
        return r
    todo = list(msgunit.family().items())
    if os.environ.get('VERIF_TIER') == 'thorough':
        seed = int(os.environ.get('VERIF_SEED') or 1)
        todo += [('random-%d' % k, msgunit.random_decls(k)) for k in range(seed, seed + 4)]
    d = os.path.join(VERIF, 'build', 'units')
    os.makedirs(d, exist_ok=True)
    for name, decls in todo:
        code, log = gencode.generate(wire.texts([('main.t', decls)]), 'main.t', 'typescript', binary)
        if code is None:
            raise Exception('no code for %s: %s' % (name, log[-400:]))
        for kind, w, text in (('-ts', TsWriter(decls), unit), ('-read-ts', TsReader(decls), read_unit)):
            t, log = gencode.ts_translate(code, w.names())
            p = os.path.join(d, name + kind)
            tmp = p + '.tmp%d' % os.getpid()
            with open(tmp, 'w') as f:
                f.write(text(w))
            os.replace(tmp, p + '.vspec')
            r[name + kind] = (p, {'gen:ts': t or b'', 'gen:tsm': t or b''})
    return r


# ---- readers ------------------------------------------------------------------------------------------------
ATTR = '#[verifier::rlimit(400)] #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause]'


class TsReader(TsWriter):
    """the specification is the one of the Rust readers (msgunit.Writer.read_specs), open where the two languages differ
    for input no writer produces: a field that is repeated or longer than what is left"""
    CUT = ' || size > rest.len()'

    def cut(self, cond, then):
        return 'if %s { Got::Any } else { %s }' % (cond, then)

    def in_ty(self, t):
        import re
        return re.sub(r'\b[ui]64\b', 'Big', out_ty(t, 'In'))

    def mty(self, t):
        if t[0] == 'Arr' and t[1][0] != 'Unit':
            return 'Seq<%s>' % self.mty(t[1])
        return 'int' if t[0] in ('U64', 'S64') else super().mty(t)

    def mv(self, t, x):
        return x + '@' if t[0] in ('U64', 'S64') else super().mv(t, x)

    def wrap(self, t, g):
        return {'U64': 'ts_int(%s)', 'S64': 'ts_sint(%s)', 'String': 'ts_text(%s)'}.get(t[0], 'ts_units(%s)' if t[0] == 'Arr' and t[1][0] == 'Unit' else '%s') % g

    def fgot(self, t, size, w):
        return self.wrap(t, super().fgot(t, size, w))

    def egot(self, t, w):
        g = super().egot(t, w)
        return g if t[0] in ('String',) else self.wrap(t, g) if not g.startswith('ts_') else g

    def in_types(self):
        o = []
        for d in self.decls:
            P = pascal(d['name'])
            if d['choice']:
                cs = []
                for n, rule, t, i in d['fields']:
                    vs = ([] if t[0] == 'Unit' else [self.in_ty(t)]) + (['Box<%sIn>' % P] if rule == 2 else [])
                    cs.append(pascal(n) + ('(%s)' % ', '.join(vs) if vs else ''))
                o.append('pub enum %sIn { %s }' % (P, ', '.join(cs)))
            else:
                o.append('pub struct %sIn { %s }' % (P, ', '.join('pub %s: %s' % (member(n), self.in_ty(t) if rule == 0 else 'Option<%s>' % self.in_ty(t)) for n, rule, t, i in d['fields'])))
        return o

    def names(self):
        import wire
        r = {}
        for d in self.decls:
            P = pascal(d['name'])
            e = dict(rust=P + 'In')
            if d['choice']:
                e.update(choice=True, cases={wire.camel(n): dict(rust=pascal(n), unit=t[0] == 'Unit', fallback=rule == 2) for n, rule, t, i in d['fields']})
            else:
                e['members'] = {wire.camel(n): dict(rust=member(n), required=rule == 0, ty=self.in_ty(t)) for n, rule, t, i in d['fields']}
            r['Main.%sIn' % P] = e
        return dict(types=r)

    def in_loops(self, t, fn, k0, st, o):
        """the loop which reads an array, loop number k0 of fn, as a function of its own; the arrays and views are numbered in the order they stand"""
        e, k = t[1], key(t)
        me = st['loop']
        st['loop'] += 1
        f = 'm::%s_loop%d' % (fn.split('::', 1)[1], k0)
        V, A = 'view_%d@' % me, 'arr_%d' % me
        o.append('@@ fn %s loop %d outline &view_%d, &mut offset, &mut %s\n    (view_%d: &DataView, place: &mut u64, %s: &mut %s) -> (r: Result<(), Thrown>)' % (fn, k0, me, A, me, A, self.in_ty(t)))
        g = 'gl_%s(%s, Seq::empty())' % (k, V)
        lost = '%s is Any || %s is Bad' % (g, g)
        o.append('@@ fn %s attr\n    %s' % (f, ATTR))
        o.append(('@@ fn %s ret r\n    requires fair(view_%d), *old(place) == 0, old(%s)@.len() == 0\n'
                  '    ensures match %s { Got::Is(v, _) => r is Ok && m_%s(final(%s)@) == v && *final(place) == %s.len(), _ => true }') % (f, me, A, g, k, A, V))
        o.append('@@ fn %s entry\n    let mut offset: u64 = *place; proof { lemma_zag(); assert(%s.skip(0) =~= %s); more_%s(); assert(m_%s(%s@) =~= Seq::empty()); %s }' % (f, V, V, k, k, A, 'more_%s();' % key(e) if listed_any(e) else ''))
        o.append('@@ fn %s exit\n    *place = offset;' % f)
        o.append(('@@ fn %s loop 0 inv\n    invariant_except_break %s || (offset <= %s.len() && %s == gl_%s(%s.skip(offset as int), m_%s(%s@)))\n    invariant fair(&view_%d)\n'
                  '    ensures %s || (offset == %s.len() && %s == Got::Is(m_%s(%s@), 0))') % (f, lost, V, g, k, V, k, A, me, lost, V, g, k, A))
        o.append('@@ fn %s loop 0 start\n    let ghost at_%d = offset as int; proof { %s }' % (f, me, 'lemma_skip2(%s, offset as int, reach(%s.skip(offset as int)[0]));' % (V, V) if listed(t) else ''))
        r = 'reach(%s.skip(at_%d)[0])' % (V, me)
        o.append('@@ fn %s loop 0 end\n    proof { %s }' % (f, 'lemma_skip2(%s, at_%d + %s, offset - at_%d - %s);' % (V, me, r, me, r) if listed(t) else 'lemma_skip2(%s, at_%d, offset - at_%d);' % (V, me, me)))
        if e[0] == 'Arr' and e[1][0] != 'Unit':
            self.in_loops(e, f, 1, st, o)

    def in_contracts(self):
        import wire
        o = []
        for d in self.decls:
            D, P = d['name'], pascal(d['name'])
            fn = 'm::main_%s_deserialize_unsafe' % gencode.ts_snake(wire.ns(D))
            o.append('@@ fn %s attr\n    %s' % (fn, ATTR))
            o.append('@@ fn %s ret r\n    requires fair(data_view) ensures match dec_%s(data_view@) { Got::Is(v, _) => (r matches Ok(x) && m_%s(x) == v), _ => true }' % (fn, D, D))
            arrays = [f[2] for f in d['fields'] if f[2][0] == 'Arr' and f[2][1][0] != 'Unit']
            hides = ('hide(heading); ' if d['fields'] else '') + 'hide(%s_%s);' % ('dec' if d['choice'] else 'run', D)
            o.append('@@ fn %s entry\n    %s proof { lemma_zag(); assert(data_view@.skip(0) =~= data_view@); %s }' % (fn, hides, ' '.join('more_%s();' % k for k in dict.fromkeys(k for t in arrays for k in self.nest(t)))))
            V = 'data_view@.skip(offset as int)'
            if d['choice']:
                g, s = 'dec_%s(data_view@)' % D, ''
            else:
                g = 'run_%s(data_view@, none_%s())' % (D, D)
                loc = lambda n: gencode.ts_snake('$' + wire.camel(n))
                s = ', S%s { %s }' % (P, ', '.join('%s: (if %s is Some { Some(%s) } else { None })' % (member(n), loc(n), self.mv(t, '(%s->0)' % loc(n))) for n, rule, t, i in d['fields']))
            lost = '%s is Any || %s is Bad' % (g, g)
            inv = '%s || (offset <= data_view@.len() && %s == %s_%s(%s%s))' % (lost, g, 'dec' if d['choice'] else 'run', D, V, s)
            if d['choice']:
                o.append('@@ fn %s loop 0 inv\n    invariant %s, fair(data_view)' % (fn, inv))
            else:
                o.append('@@ fn %s loop 0 inv\n    invariant_except_break %s\n    invariant fair(data_view)\n    ensures %s || %s == Got::Is(%s, 0)' % (fn, inv, lost, g, s[2:]))
            o.append('@@ fn %s loop 0 start\n    let ghost s0 = %s; proof { once_%s(s0%s); assert(behind(s0).skip(0) =~= behind(s0)); }' % (fn, V, D, s))
            o.append('@@ fn %s loop 0 end\n    proof { lemma_skip2(data_view@, data_view@.len() - behind(s0).len(), offset - (data_view@.len() - behind(s0).len())); }' % fn)
            for n, rule, t, i in [] if d['choice'] else d['fields']:
                o.append('@@ fn %s before %s = Some\\(got_\\)\n    proof { lemma_skip2(data_view@, data_view@.len() - behind(s0).len(), offset - (data_view@.len() - behind(s0).len())); assert(%s || payload_size > behind(s0).len() || match %s { Got::Is(v, u) => v == %s && %s =~= behind(s0).skip(u), Got::Bad => false, Got::Any => true }); }' % (
                    fn, loc(n), lost, self.fgot(t, 'payload_size as usize', 'bounded(behind(s0), payload_size as usize)'), self.mv(t, 'got_'), V))
            at_loop = 1
            for n, rule, t, i in d['fields'] if d['choice'] else []:
                got = 'got_' + pascal(n)
                if t in arrays:
                    got, at_loop = 'arr_%d' % at_loop, at_loop + len(self.nest(t))
                has = 'v == %s && ' % self.mv(t, got) if t[0] != 'Unit' else ''
                at = '%s =~= behind(s0).skip(u)' % V
                anchor = 'let mut rest_%s =' % pascal(n) if rule == 2 else 'return Ok\\(%sIn::%s\\b' % (P, pascal(n))
                o.append('@@ fn %s before %s\n    proof { lemma_skip2(data_view@, data_view@.len() - behind(s0).len(), offset - (data_view@.len() - behind(s0).len())); assert(%s || payload_size > behind(s0).len() || match %s { Got::Is(v, u) => %s%s, Got::Bad => false, Got::Any => true }); }' % (
                    fn, anchor, lost, self.fgot(t, 'payload_size as usize', 'bounded(behind(s0), payload_size as usize)'), has, at if rule == 2 else 'true'))
            st = {'loop': 1}
            for q, t in enumerate(arrays):
                self.in_loops(t, fn, q + 1, st, o)
        return o

    def nest(self, t):
        return [key(t)] + (self.nest(t[1]) if t[1][0] == 'Arr' and t[1][1][0] != 'Unit' else [])


READ_SHIM = '''@@ raw
pub mod tsread {
use vstd::prelude::*;
use crate::wire::*;
use crate::msg::*;
use crate::js::*;
use crate::tsmsg::*;
pub open spec fn ts_int(g: Got<u64>) -> Got<int> { match g { Got::Is(n, k) => Got::Is(n as int, k), Got::Bad => Got::Bad, Got::Any => Got::Any } }
pub open spec fn ts_sint(g: Got<i64>) -> Got<int> { match g { Got::Is(n, k) => Got::Is(n as int, k), Got::Bad => Got::Bad, Got::Any => Got::Any } }
// the length of an array is below 2^32
pub open spec fn ts_units(g: Got<int>) -> Got<int> { match g { Got::Is(n, k) => if n < 0x1_0000_0000 { Got::Is(n, k) } else { Got::Any }, Got::Bad => Got::Bad, Got::Any => Got::Any } }
// TextDecoder drops a byte order mark (known finding)
pub open spec fn ts_text(g: Got<Seq<char>>) -> Got<Seq<char>> { match g { Got::Is(t, k) => if t.len() > 0 && t[0] == '\\u{feff}' { Got::Any } else { Got::Is(t, k) }, Got::Bad => Got::Bad, Got::Any => Got::Any } }
pub proof fn lemma_skip2(s: Seq<u8>, a: int, b: int) ensures 0 <= a && 0 <= b && a + b <= s.len() ==> s.skip(a).skip(b) == s.skip(a + b) { if 0 <= a && 0 <= b && a + b <= s.len() { assert(s.skip(a).skip(b) =~= s.skip(a + b)); } }
// a sum that may leave the exact range
#[verifier::external_body]
pub fn plus_any(a: u64, b: u64) -> (r: u64) ensures a + b <= EXACT ==> r == a + b, a + b > EXACT ==> r >= EXACT { unimplemented!() }
// 0 as a double
#[verifier::external_body]
pub fn double_zero() -> (r: f64) ensures fbits(r) == 0 { unimplemented!() }
// Array(Number(n)).fill(null)
#[verifier::external_body]
pub fn array_of_null(n: Big) -> (r: Result<Vec<()>, Thrown>) ensures 0 <= n@ < 0x1_0000_0000 ==> (r matches Ok(x) && x@.len() == n@) { unimplemented!() }
impl DataView {
    // new DataView(v.buffer, v.byteOffset + at, size): may also reach behind v, as far as the buffer goes
    #[verifier::external_body]
    pub fn part(&self, at: u64, size: u64) -> (r: Result<DataView, Thrown>) ensures at + size <= self@.len() ==> (r matches Ok(x) && x@ == self@.skip(at as int).take(size as int)), r matches Ok(x) ==> fair(&x) { unimplemented!() }
    // new DataView(v.buffer, v.byteOffset + at, v.byteLength - at)
    #[verifier::external_body]
    pub fn rest_from(&self, at: u64) -> (r: Result<DataView, Thrown>) ensures at <= self@.len() ==> (r matches Ok(x) && x@ == self@.skip(at as int)), r matches Ok(x) ==> fair(&x) { unimplemented!() }
    #[verifier::external_body]
    pub fn byte_length(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_float64(&self, at: u64) -> (r: Result<f64, Thrown>) ensures r is Ok == (at + 8 <= self@.len()), r matches Ok(x) ==> 0 <= fbits(x) <= u64::MAX && fbits(x) == value(self@.skip(at as int).take(8)), r matches Err(e) ==> e is Range { unimplemented!() }
    // textDecoder.decode(new Uint8Array(v.buffer, v.byteOffset + at, v.byteLength - at))
    #[verifier::external_body]
    pub fn text(&self, at: u64) -> (r: String) ensures at == 0 ==> match text_of(self@) { Some(t) => !(t.len() > 0 && t[0] == '\\u{feff}') ==> r@ == t, None => true } { unimplemented!() }
    // v.buffer.slice(v.byteOffset + at, v.byteOffset + v.byteLength)
    #[verifier::external_body]
    pub fn bytes(&self, at: u64) -> (r: Vec<u8>) ensures at == 0 ==> r@ == self@ { unimplemented!() }
}
}
'''


def read_unit(w):
    v = VERIF + '/verus/'
    o = ['@@ include %s%s.vspec' % (v, n) for n in ('common', 'wire', 'message', 'js')] + [SHIM, READ_SHIM]
    use = 'use vstd::prelude::*;\nuse crate::wire::*;\nuse crate::msg::*;\nuse crate::js::*;\nuse crate::tsmsg::*;\nuse crate::tsread::*;'
    o += ['@@ module ts gen:ts', 'use vstd::prelude::*;\nuse crate::wire::*;\nuse crate::js::*;\nuse crate::tsmsg::*;', '@@ take ' + FNS, '@@ endmodule'] + stubs()
    o += ['@@ module m gen:tsm', use + '\nuse crate::ts::*;\nuse crate::spec::*;'] + w.in_types()
    import wire
    o.append('@@ take ' + ' '.join('main_%s_deserialize_unsafe' % gencode.ts_snake(wire.ns(d['name'])) for d in w.decls))
    o += ['@@ endmodule'] + w.in_contracts()
    o += ['@@ raw', 'pub mod spec {\n' + use + '\nuse crate::m::*;'] + w.read_specs()
    o += ['}', '} // verus!', 'fn main() {}']
    return '\n'.join(o) + '\n'
